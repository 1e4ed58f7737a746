package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config tells the interpreter what to look into and what to report.
type Config struct {
	// Opaque functions of the repository are not entered; calls become events.
	Opaque func(fn *ssa.Function, args []*T) bool
	// Devirt picks the implementation of an interface method.
	Devirt func(iface *types.Named, method string, recv *T) *ssa.Function
	// OnEvent sees every event when it happens on a path.
	OnEvent func(st *State, e *Ev)
	// OnAccess sees every load and store of a struct field.
	OnAccess func(st *State, write bool, addr *T, owner *types.Named, in ssa.Instruction, ctx string)
	// OnRisk sees operations that can panic.
	OnRisk func(st *State, kind string, t *T, bound *T, in ssa.Instruction, ctx string)
	// Unroll is the largest number of iterations of a loop with a constant
	// trip count that is interpreted iteration by iteration.
	Unroll int
	// Wild names memory that is not followed: every load is an unknown value,
	// every store a "store" event.
	Wild func(addr *T) bool
	// Plain keeps the values of loop variables that are not counters unknown.
	Plain bool
	// MaxPaths bounds the number of paths in one function body.
	MaxPaths int
	init     bool
}

// Exec runs the abstract interpretation.
type Exec struct {
	made     map[*T]bool // maps made by this interpreter
	stuck    *Cond
	P        *Prog
	Cfg      Config
	Problems []string
	Loops    []*Loop
	Visited  map[*ssa.Function]bool
	Steps    int
	Forks    int
	depth    int
	ks       []*T
	quiet    int // >0 while exploring speculatively
	stack    []*ssa.Function
	evs      map[string]*Ev
	loopRecs map[string]*Loop
	probSet  map[string]bool
}

// Path is one path of a function to one of its ends.
type Path struct {
	St  *State
	Res []*T
	End string // "return", "fatal", "panic"
	Pos token.Pos
}

func New(p *Prog, c Config) *Exec {
	if c.MaxPaths == 0 {
		c.MaxPaths = 4000
	}
	return &Exec{P: p, Cfg: c, Visited: map[*ssa.Function]bool{}, evs: map[string]*Ev{}, loopRecs: map[string]*Loop{}, probSet: map[string]bool{}}
}

func (x *Exec) problem(f string, a ...any) {
	if x.quiet > 0 {
		return
	}
	s := fmt.Sprintf(f, a...)
	if !x.probSet[s] {
		x.probSet[s] = true
		x.Problems = append(x.Problems, s)
	}
}

// Start is the state in which an entry point is called.
func (x *Exec) Start() *State {
	st := newState()
	if x.P.Globals != nil {
		st.glob = x.P.Globals.mem
	}
	return st
}

// ParamSyms are symbols for the parameters of f.
func ParamSyms(f *ssa.Function) []*T {
	var r []*T
	for _, p := range f.Params {
		r = append(r, mkT(p.Type(), "sym", p.Name()))
	}
	return r
}

// Run explores f from symbolic arguments (nil: one symbol per parameter).
func (x *Exec) Run(f *ssa.Function, args []*T) []Path {
	return x.RunIn(f, args, x.Start())
}

// RunIn explores f from the given state.
func (x *Exec) RunIn(f *ssa.Function, args []*T, st *State) []Path {
	if args == nil {
		args = ParamSyms(f)
	}
	return x.call(f, args, nil, st, "")
}

// RunClosure explores a closure or function value.
func (x *Exec) RunClosure(fv *T, args []*T, st *State, ctx string) []Path {
	if fv.Op == "clo" || fv.Op == "fn" {
		return x.call(fnTable[fv.S], args, fv.A, st, ctx)
	}
	return nil
}

type frame struct {
	x      *Exec
	fn     *ssa.Function
	ctx    string
	li     *loopInfo
	binds  []*T
	outs   []Path
	doms   map[*ssa.BasicBlock]map[ssa.Value]bool
	region []*regionT
}

// item is a state within a function body.
type item struct {
	st     *State
	env    map[ssa.Value]*T
	defers []deferred
}

type deferred struct {
	call ssa.CallInstruction
	fn   *T
	args []*T
}

func (it *item) fork() *item {
	n := &item{st: it.st.fork(), env: make(map[ssa.Value]*T, len(it.env)), defers: it.defers[:len(it.defers):len(it.defers)]}
	for k, v := range it.env {
		n.env[k] = v
	}
	return n
}

const maxDepth = 24

func (x *Exec) call(f *ssa.Function, args, binds []*T, st *State, ctx string) []Path {
	if f.Blocks == nil {
		x.problem("no body for %s", f)
		return nil
	}
	n := 0
	for _, g := range x.stack {
		if g == f {
			n++
		}
	}
	if n > 1 || len(x.stack) > maxDepth {
		x.problem("recursion through %s", f)
		return nil
	}
	x.stack = append(x.stack, f)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.Visited[f] = true
	fr := &frame{x: x, fn: f, ctx: ctx, li: x.P.loopsOf(f), binds: binds}
	it := &item{st: st, env: map[ssa.Value]*T{}}
	for i, p := range f.Params {
		if i < len(args) {
			it.env[p] = args[i]
		} else {
			it.env[p] = mkT(p.Type(), "sym", p.Name())
		}
	}
	r := &regionT{blocks: nil, pending: map[*ssa.BasicBlock][]*item{}}
	r.pending[f.Blocks[0]] = []*item{it}
	fr.run(r)
	return mergePaths(fr.outs)
}

func mergePaths(ps []Path) []Path {
	type grp struct{ idx []int }
	m := map[string]*grp{}
	var order []string
	for i, p := range ps {
		var b strings.Builder
		b.WriteString(p.End)
		for _, r := range p.Res {
			fmt.Fprintf(&b, ",%d", r.ID)
		}
		b.WriteString(p.St.sig())
		k := b.String()
		if m[k] == nil {
			m[k] = &grp{}
			order = append(order, k)
		}
		m[k].idx = append(m[k].idx, i)
	}
	var out []Path
	for _, k := range order {
		g := m[k]
		if len(g.idx) == 1 {
			out = append(out, ps[g.idx[0]])
			continue
		}
		sets := make([][]Cond, len(g.idx))
		for i, j := range g.idx {
			sets[i] = ps[j].St.facts.lits
		}
		for _, s := range mergeSets(sets) {
			p := ps[g.idx[0]]
			if !sameLits(s, p.St.facts.lits) {
				p.St = p.St.fork()
				p.St.facts = fromLits(s)
			}
			out = append(out, p)
		}
	}
	return out
}

func sameLits(a, b []Cond) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func mergeSets(sets [][]Cond) [][]Cond {
	for again := true; again; {
		again = false
	outer:
		for i := range sets {
			for j := i + 1; j < len(sets); j++ {
				if m, ok := mergeLits(sets[i], sets[j]); ok {
					sets[i] = m
					sets = append(sets[:j], sets[j+1:]...)
					again = true
					break outer
				}
			}
		}
	}
	return sets
}

// ---- regions ----

type regionT struct {
	blocks  map[*ssa.BasicBlock]bool // nil: the whole function
	header  *ssa.BasicBlock          // loop header, nil for the function
	pending map[*ssa.BasicBlock][]*item
	back    []*item // states at the back edge, phis of the header evaluated
	exits   []exitT
	// strict regions may not leave or stay in the loop on an unknown test
	strict, undecided bool
}

type exitT struct {
	it *item
	to *ssa.BasicBlock
}

func (fr *frame) run(r *regionT) {
	for _, b := range fr.li.rpo {
		if r.blocks != nil && !r.blocks[b] {
			continue
		}
		its := r.pending[b]
		if len(its) == 0 {
			continue
		}
		delete(r.pending, b)
		if l := fr.li.header[b]; l != nil && b != r.header {
			its = fr.merge(b, its)
			for _, it := range its {
				for _, e := range fr.runLoop(l, it) {
					fr.deliver(r, e.it, e.to)
				}
			}
			continue
		}
		if len(b.Preds) > 1 {
			its = fr.merge(b, its)
		}
		if len(its) > fr.x.Cfg.MaxPaths {
			fr.x.problem("too many paths in %s", fr.fn)
			its = its[:fr.x.Cfg.MaxPaths]
		}
		for _, it := range its {
			fr.block(r, b, it)
		}
	}
}

// deliver hands a state that enters block to (phis already evaluated) to the
// region.
func (fr *frame) deliver(r *regionT, it *item, to *ssa.BasicBlock) {
	if r.blocks != nil && to == r.header {
		r.back = append(r.back, it)
		return
	}
	if r.blocks != nil && !r.blocks[to] {
		r.exits = append(r.exits, exitT{it, to})
		return
	}
	r.pending[to] = append(r.pending[to], it)
}

func (fr *frame) edge(r *regionT, it *item, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []*T
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, fr.canon(it.st, fr.val(it, p.Edges[idx])))
	}
	for i, p := range phis {
		it.env[p] = vals[i]
	}
	fr.deliver(r, it, to)
}

// merge joins states that differ only in one literal, pruning values that are
// dead in block b.
func (fr *frame) merge(b *ssa.BasicBlock, its []*item) []*item {
	if len(its) < 2 {
		return its
	}
	type key struct{ s string }
	m := map[string][]int{}
	var order []string
	for i, it := range its {
		for v := range it.env {
			if in, ok := v.(ssa.Instruction); ok {
				if bb := in.Block(); bb != b && !bb.Dominates(b) {
					delete(it.env, v)
				}
			}
		}
		var ids [][2]string
		for v, t := range it.env {
			ids = append(ids, [2]string{v.Name(), fmt.Sprint(t.ID)})
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i][0] < ids[j][0] })
		var sb strings.Builder
		for _, p := range ids {
			sb.WriteString(p[0] + "=" + p[1] + ",")
		}
		fmt.Fprintf(&sb, "d%d", len(it.defers))
		for _, d := range it.defers {
			fmt.Fprintf(&sb, "%p", d.call)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.ID)
			}
		}
		sb.WriteString(it.st.sig())
		k := sb.String()
		if m[k] == nil {
			order = append(order, k)
		}
		m[k] = append(m[k], i)
	}
	var out []*item
	for _, k := range order {
		g := m[k]
		if len(g) == 1 {
			out = append(out, its[g[0]])
			continue
		}
		sets := make([][]Cond, len(g))
		for i, j := range g {
			sets[i] = its[j].st.facts.lits
		}
		for i, s := range mergeSets(sets) {
			it := its[g[0]]
			if i > 0 {
				it = it.fork()
			}
			if !sameLits(s, it.st.facts.lits) {
				it.st.facts = fromLits(s)
			}
			out = append(out, it)
		}
	}
	return out
}

// sent are channel, value and, for a pointer, what it points to.
func (fr *frame) sent(it *item, ch, v *T) []*T {
	if v.Op == "iface" {
		if p, ok := typeTable[v.S].(*types.Pointer); ok && v.A[0] != Nil {
			return []*T{ch, v, fr.x.read(it.st, v.A[0], p.Elem())}
		}
	}
	return []*T{ch, v}
}

func (fr *frame) emit(it *item, e *Ev) *Ev {
	x := fr.x
	e.Ctx, e.Fn = fr.ctx, fr.fn
	e.Held = it.st.held
	switch e.Kind {
	case "put", "mapset", "send", "go", "call", "store":
		for _, a := range e.Args {
			it.st.publish(a)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%s|%p|%p|%p", e.Kind, e.Name, e.Ctx, e.Fn, e.Instr, e.Rec)
	for _, a := range e.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	b.WriteByte('|')
	for _, a := range e.Res {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	for _, h := range e.Held {
		fmt.Fprintf(&b, ";%d%v", h.Key.ID, h.R)
	}
	k := b.String()
	if o, ok := x.evs[k]; ok {
		o.St = e.St
		e = o
	} else {
		x.evs[k] = e
	}
	n := 1
	if it.st.trace != nil {
		n = it.st.trace.N + 1
	}
	it.st.trace = &Trace{it.st.trace, e, n}
	if x.Cfg.OnEvent != nil && x.quiet == 0 {
		x.Cfg.OnEvent(it.st, e)
	}
	return e
}

// fresh names a value created at an instruction: by place, inlining context
// and the iterations of the enclosing loops.
func (fr *frame) fresh(op, what string, in ssa.Instruction, typ types.Type) *T {
	n := fr.x.P.site(fmt.Sprintf("%s|%s|%p|%s", fr.ctx, fr.fn, in, what))
	return mkT(typ, op, fmt.Sprintf("%s#%d", what, n), fr.x.ks...)
}

func (fr *frame) val(it *item, v ssa.Value) *T {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Global:
		name := c.Pkg.Pkg.Path() + "." + c.Name()
		globTable[name] = c
		return mkT(c.Type(), "glob", name)
	case *ssa.Function:
		return FnTerm(c)
	case *ssa.Builtin:
		return Mk("builtin", c.Name())
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
		return mkT(c.Type(), "sym", "free:"+c.Name())
	}
	if t, ok := it.env[v]; ok {
		return t
	}
	fr.x.problem("no value for %s in %s", v.Name(), fr.fn)
	return mkT(v.Type(), "sym", fr.fn.String()+":"+v.Name())
}

// FnTerm is the term of a function value.
func FnTerm(f *ssa.Function) *T {
	k := fmt.Sprintf("%s@%d", f.String(), f.Pos())
	fnTable[k] = f
	return mk(T{Op: "fn", S: k, Fn: f, Typ: f.Type()})
}

// FnOf is the function of a function or closure term.
func FnOf(t *T) *ssa.Function { return fnTable[t.S] }

// block interprets a basic block for one state and sends the results on.
func (fr *frame) block(r *regionT, b *ssa.BasicBlock, it *item) {
	cur := []*item{it}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		fr.x.Steps += len(cur)
		switch i := in.(type) {
		case *ssa.If:
			for _, c := range cur {
				fr.branch(r, b, c, fr.val(c, i.Cond))
			}
			return
		case *ssa.Jump:
			for _, c := range cur {
				fr.edge(r, c, b, b.Succs[0])
			}
			return
		case *ssa.Return:
			for _, c := range cur {
				var res []*T
				for _, v := range i.Results {
					res = append(res, fr.val(c, v))
				}
				fr.outs = append(fr.outs, Path{c.st, res, "return", i.Pos()})
			}
			return
		case *ssa.Panic:
			for _, c := range cur {
				fr.emit(c, &Ev{Kind: "panic", Args: []*T{fr.val(c, i.X)}, Pos: i.Pos(), Instr: i})
				fr.outs = append(fr.outs, Path{c.st, nil, "panic", i.Pos()})
			}
			return
		}
		var next []*item
		for _, c := range cur {
			next = append(next, fr.instr(c, in)...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
	}
}

func (fr *frame) branch(r *regionT, b *ssa.BasicBlock, it *item, cond *T) {
	c := CondOf(cond)
	switch fr.evalCond(it, cond) {
	case 1:
		fr.edge(r, it, b, b.Succs[0])
		return
	case 0:
		fr.edge(r, it, b, b.Succs[1])
		return
	}
	if r.strict && b == r.header {
		r.undecided = true
	}
	fr.x.Forks++
	// a condition on a case distinction splits into its cases
	if ic := findIte(cond); ic != nil {
		cc := CondOf(ic.A[0])
		switch it.st.facts.Eval(cc) {
		case 1:
			fr.branch(r, b, it, Subst(cond, ic, ic.A[1]))
			return
		case 0:
			fr.branch(r, b, it, Subst(cond, ic, ic.A[2]))
			return
		}
		o := it.fork()
		if fr.assume(it, cc) {
			fr.branch(r, b, it, Subst(cond, ic, ic.A[1]))
		}
		if fr.assume(o, cc.Not()) {
			fr.branch(r, b, o, Subst(cond, ic, ic.A[2]))
		}
		return
	}
	o := it.fork()
	if fr.assume(it, c) {
		fr.edge(r, it, b, b.Succs[0])
	}
	if fr.assume(o, c.Not()) {
		fr.edge(r, o, b, b.Succs[1])
	}
}

// findIte finds a case distinction in a condition, outermost first, with a
// condition that is itself free of them.
func findIte(t *T) *T {
	var found *T
	t.Any(func(s *T) bool {
		if s.Op == "ite" && s.A[0].Op != "all" {
			found = s
			return true
		}
		return false
	})
	if found != nil {
		if in := findIte(found.A[0]); in != nil {
			return in
		}
	}
	return found
}

func (fr *frame) evalCond(it *item, cond *T) int { return it.st.facts.Eval(CondOf(cond)) }

func (fr *frame) assume(it *item, c Cond) bool { return it.st.facts.Assume(c) }

// instr interprets one instruction; it may fork the state or end it.
func (fr *frame) instr(it *item, in ssa.Instruction) []*item {
	x := fr.x
	one := []*item{it}
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		it.env[i] = fr.fresh("al", "alloc", i, i.Type())
		// a fresh object holds zero values
		a := it.env[i]
		for c := range it.st.mem {
			if below(c, a) || c == a {
				delete(it.st.mem, c)
			}
		}
		delete(it.st.esc, a)
		if it.st.own == nil {
			it.st.own = map[*T]bool{}
		}
		it.st.own[a] = true
	case *ssa.BinOp:
		it.env[i] = fr.binop(it, i)
	case *ssa.UnOp:
		return fr.unop(it, i)
	case *ssa.ChangeType:
		it.env[i] = fr.val(it, i.X)
	case *ssa.Convert:
		it.env[i] = fr.convert(it, fr.val(it, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		it.env[i] = fr.convert(it, fr.val(it, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeInterface:
		it.env[i] = fr.val(it, i.X)
	case *ssa.SliceToArrayPointer:
		it.env[i] = fr.val(it, i.X)
	case *ssa.MakeInterface:
		v := fr.val(it, i.X)
		it.env[i] = mkT(i.Type(), "iface", TypeKey(i.X.Type()), v)
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		FnTerm(f)
		t := T{Op: "clo", S: fmt.Sprintf("%s@%d", f.String(), f.Pos()), Fn: f, Typ: i.Type()}
		for _, b := range i.Bindings {
			t.A = append(t.A, fr.val(it, b))
		}
		it.env[i] = mk(t)
	case *ssa.MakeSlice:
		n := fr.val(it, i.Len)
		s := fr.x.P.site(fmt.Sprintf("%s|%s|%p|mk", fr.ctx, fr.fn, in))
		it.env[i] = mkT(i.Type(), "mkslice", fmt.Sprint(s), append([]*T{n}, x.ks...)...)
		delete(it.st.mem, it.env[i])
		delete(it.st.stores, it.env[i])
		delete(it.st.mem, Mk("cell", "appended", it.env[i]))
		if i.Cap != i.Len {
			it.st.mem[Mk("cell", "spare", it.env[i])] = True
		}
		fr.emit(it, &Ev{Kind: "alloc", Name: "slice", Args: []*T{n}, Pos: i.Pos(), Instr: i})
		fr.risk(it, "make", n, nil, i)
	case *ssa.MakeMap:
		m := fr.fresh("mkmap", "map", i, i.Type())
		if fr.x.made == nil {
			fr.x.made = map[*T]bool{}
		}
		fr.x.made[m] = true
		it.env[i] = m
	case *ssa.MakeChan:
		n := fr.fresh("mkchan", "chan", i, i.Type())
		it.env[i] = mkT(i.Type(), "mkchan", n.S, append([]*T{fr.val(it, i.Size)}, n.A...)...)
	case *ssa.FieldAddr:
		p := fr.val(it, i.X)
		fr.risk(it, "nil", p, nil, i)
		st := i.X.Type().Underlying().(*types.Pointer).Elem()
		f := st.Underlying().(*types.Struct).Field(i.Field)
		a := FA(p, f.Name(), f.Type())
		if n, ok := st.(*types.Named); ok {
			if _, ok := faOwner[a]; !ok {
				faOwner[a] = n
			}
		}
		it.env[i] = a
	case *ssa.Field:
		v := fr.val(it, i.X)
		f := i.X.Type().Underlying().(*types.Struct).Field(i.Field)
		it.env[i] = Fld(v, f.Name(), f.Type())
	case *ssa.IndexAddr:
		p, idx := fr.val(it, i.X), fr.val(it, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			fr.risk(it, "index", idx, Len(x.arrLen(i.X.Type())), i)
		} else {
			fr.risk(it, "index", idx, x.length(it.st, p), i)
		}
		it.env[i] = IA(p, idx, i.Type())
	case *ssa.Index:
		v, idx := fr.val(it, i.X), fr.val(it, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Array); ok {
			fr.risk(it, "index", idx, Len(x.arrLen(types.NewPointer(i.X.Type()))), i)
		} else {
			fr.risk(it, "index", idx, Len(v), i)
		}
		if IsByteSlice(i.X.Type()) {
			it.env[i] = ByteAt(v, idx)
		} else {
			it.env[i] = Elem(v, idx, i.Type())
		}
	case *ssa.Slice:
		it.env[i] = fr.slice(it, i)
	case *ssa.Lookup:
		fr.lookup(it, i)
	case *ssa.MapUpdate:
		m, k, v := fr.val(it, i.Map), fr.val(it, i.Key), fr.val(it, i.Value)
		fr.risk(it, "nilmap", m, nil, i)
		fr.emit(it, &Ev{Kind: "mapset", Args: []*T{m, k, v}, Pos: i.Pos(), Instr: i})
		fr.dropMap(it, m, k)
		it.st.mem[Mk("cell", "map", m, k)] = v
	case *ssa.Store:
		a, v := fr.val(it, i.Addr), fr.val(it, i.Val)
		fr.risk(it, "nil", a, nil, i)
		fr.access(it, true, a, i)
		if x.Cfg.Wild != nil && x.Cfg.Wild(a) {
			fr.emit(it, &Ev{Kind: "store", Args: []*T{a, v}, Pos: i.Pos(), Instr: i})
			break
		}
		if x.isShared(a) {
			fr.emit(it, &Ev{Kind: "put", Args: []*T{a, v}, Pos: i.Pos(), Instr: i})
		}
		if !it.st.own[Root(a)] {
			it.st.publish(v)
		}
		x.write(it.st, a, v)
	case *ssa.Send:
		fr.emit(it, &Ev{Kind: "send", Args: fr.sent(it, fr.val(it, i.Chan), fr.val(it, i.X)), Pos: i.Pos(), Instr: i})
	case *ssa.Extract:
		t := fr.val(it, i.Tuple)
		if t.Op == "tuple" && i.Index < len(t.A) {
			it.env[i] = t.A[i.Index]
		} else {
			it.env[i] = mkT(i.Type(), "ext", fmt.Sprint(i.Index), t)
		}
	case *ssa.TypeAssert:
		return fr.typeAssert(it, i)
	case *ssa.Range:
		it.env[i] = mkT(nil, "range", fr.fresh("al", "range", i, nil).S, append([]*T{fr.val(it, i.X)}, x.ks...)...)
	case *ssa.Next:
		return fr.next(it, i)
	case *ssa.Select:
		return fr.selectStmt(it, i)
	case *ssa.Go:
		fn, args := fr.callee(it, &i.Call)
		fr.emit(it, &Ev{Kind: "go", Name: fn.S, Args: append([]*T{fn}, args...), Pos: i.Pos(), Instr: i, St: it.st.Spawn()})
	case *ssa.Defer:
		fn, args := fr.callee(it, &i.Call)
		if len(x.ks) > 0 && fr.inOwnLoop(i.Block()) {
			x.problem("%s: a defer in a loop is not modelled", x.P.Pos(i.Pos()))
		}
		it.defers = append(it.defers, deferred{i, fn, args})
	case *ssa.RunDefers:
		cur := []*item{it}
		ds := it.defers
		for n := len(ds) - 1; n >= 0; n-- {
			var next []*item
			for _, c := range cur {
				c.defers = nil
				for _, o := range fr.invoke(c, ds[n].call, ds[n].fn, ds[n].args) {
					next = append(next, o.it)
				}
			}
			cur = next
		}
		for _, c := range cur {
			c.defers = nil
		}
		return cur
	case *ssa.Call:
		fn, args := fr.callee(it, &i.Call)
		var r []*item
		for _, o := range fr.invoke(it, i, fn, args) {
			o.it.env[i] = o.val
			r = append(r, o.it)
		}
		return r
	default:
		x.problem("%s: instruction %T is not modelled", x.P.Pos(in.Pos()), in)
		if v, ok := in.(ssa.Value); ok {
			it.env[v] = fr.fresh("sym", "unknown", in, v.Type())
		}
	}
	return one
}

func (x *Exec) arrLen(t types.Type) *T {
	if a, ok := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
		return Zeros(Int(a.Len()))
	}
	return Cat()
}

// length of a slice value in a state.
func (x *Exec) length(st *State, s *T) *T { return Len(s) }

func (fr *frame) risk(it *item, kind string, t, bound *T, in ssa.Instruction) {
	if fr.x.Cfg.OnRisk != nil && fr.x.quiet == 0 {
		fr.x.Cfg.OnRisk(it.st, kind, t, bound, in, fr.ctx)
	}
}

func (fr *frame) access(it *item, write bool, a *T, in ssa.Instruction) {
	if fr.x.Cfg.OnAccess == nil || fr.x.quiet > 0 {
		return
	}
	for b := a; b.Op == "fa" || b.Op == "ia"; b = b.A[0] {
		if b.Op == "fa" {
			if n := faOwner[b]; n != nil {
				fr.x.Cfg.OnAccess(it.st, write, b, n, in, fr.ctx)
			}
		}
	}
}

func (fr *frame) binop(it *item, i *ssa.BinOp) *T {
	a, b := fr.val(it, i.X), fr.val(it, i.Y)
	t := i.X.Type().Underlying()
	basic, _ := t.(*types.Basic)
	isInt := basic != nil && basic.Info()&types.IsInteger != 0
	switch i.Op {
	case token.EQL, token.NEQ:
		var c Cond
		switch {
		case isInt:
			c = EqInt(a, b)
		case basic != nil && basic.Info()&types.IsBoolean != 0:
			c = Eq(a, b)
		default:
			if IsByteSlice(t) && basic == nil {
				if _, ok := t.(*types.Array); ok {
					c = EqBytes("", a, b)
					break
				}
			}
			c = Eq(a, b)
		}
		if i.Op == token.NEQ {
			c = c.Not()
		}
		return c.Term()
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isInt {
			return Mk("cmpop", i.Op.String(), a, b)
		}
		switch i.Op {
		case token.LSS:
			return Lt(a, b).Term()
		case token.LEQ:
			return Le(a, b).Term()
		case token.GTR:
			return Lt(b, a).Term()
		default:
			return Le(b, a).Term()
		}
	}
	if basic != nil && basic.Info()&types.IsString != 0 && i.Op == token.ADD {
		return Cat(a, b)
	}
	if !isInt {
		if basic != nil && basic.Info()&types.IsBoolean != 0 {
			// & and | on booleans do not exist in Go
		}
		return mkT(i.Type(), "op", i.Op.String(), a, b)
	}
	var r *T
	switch i.Op {
	case token.ADD:
		r = Add(a, b)
	case token.SUB:
		r = Sub(a, b)
	case token.MUL:
		r = Mul(a, b)
	case token.QUO:
		fr.risk(it, "div", b, nil, i)
		r = Quo(a, b)
	case token.REM:
		fr.risk(it, "div", b, nil, i)
		r = Rem(a, b)
	case token.SHL:
		fr.risk(it, "shift", b, nil, i)
		r = Shl(a, b)
	case token.SHR:
		fr.risk(it, "shift", b, nil, i)
		r = Shr(a, b)
	case token.AND:
		r = And(a, b)
	case token.OR:
		r = Or(a, b)
	case token.XOR:
		r = Xor(a, b)
	case token.AND_NOT:
		r = AndNot(a, b)
	default:
		return mkT(i.Type(), "op", i.Op.String(), a, b)
	}
	if r.Typ == nil && r.Op != "int" {
		r.Typ = i.Type()
	}
	// narrow types wrap around
	tr := typeRange(i.Type())
	switch i.Op {
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHR, token.QUO, token.REM:
		if tr.Lo != nil && tr.Lo.Sign() == 0 && r.Op != "int" {
			return r
		}
	}
	if tr.Hi != nil && tr.Hi.BitLen() <= 32 {
		v := it.st.facts.Range(r)
		if v.Lo == nil || v.Hi == nil || v.Lo.Cmp(tr.Lo) < 0 || v.Hi.Cmp(tr.Hi) > 0 {
			if r.Op == "int" {
				return wrapInt(r.N, i.Type())
			}
			return mkT(i.Type(), "cv", i.Type().Underlying().String(), r)
		}
	} else if r.Op == "int" && tr.Lo != nil && (r.N.Cmp(tr.Lo) < 0 || r.N.Cmp(tr.Hi) > 0) {
		return wrapInt(r.N, i.Type())
	}
	return r
}

func wrapInt(n *big.Int, t types.Type) *T {
	tr := typeRange(t)
	if tr.Hi == nil {
		return BigInt(n)
	}
	size := new(big.Int).Add(new(big.Int).Sub(tr.Hi, tr.Lo), big.NewInt(1))
	m := new(big.Int).Mod(new(big.Int).Sub(n, tr.Lo), size)
	return BigInt(m.Add(m, tr.Lo))
}

func (fr *frame) unop(it *item, i *ssa.UnOp) []*item {
	x := fr.x
	v := fr.val(it, i.X)
	switch i.Op {
	case token.MUL:
		fr.risk(it, "nil", v, nil, i)
		fr.access(it, false, v, i)
		if x.Cfg.Wild != nil && x.Cfg.Wild(v) {
			u := fr.fresh("sym", "wild", i, nil)
			it.env[i] = mkT(i.Type(), "wild", u.S, append([]*T{v}, u.A...)...)
			break
		}
		it.env[i] = x.read(it.st, v, i.Type())
	case token.NOT:
		it.env[i] = CondOf(v).Not().Term()
	case token.SUB:
		it.env[i] = Sub(Zero, v)
	case token.XOR:
		// complement: -1-x, within the type
		r := Sub(Int(-1), v)
		if tr := typeRange(i.Type()); tr.Lo != nil && tr.Lo.Sign() == 0 {
			r = Sub(BigInt(tr.Hi), v)
		}
		it.env[i] = r
	case token.ARROW:
		res := fr.fresh("res", "recv", i, i.Type())
		val := res
		if i.CommaOk {
			ok := fr.fresh("res", "recvok", i, types.Typ[types.Bool])
			res = Mk("tuple", "", res, ok)
		}
		fr.emit(it, &Ev{Kind: "recv", Args: []*T{v}, Res: []*T{val}, Pos: i.Pos(), Instr: i})
		it.env[i] = res
	}
	return []*item{it}
}

func (fr *frame) convert(it *item, v *T, from, to types.Type) *T {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return fr.x.convInt(it.st, v, to)
	}
	if IsByteSlice(from) && IsByteSlice(to) {
		return fr.x.content(it.st, v)
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	return mkT(to, "conv", TypeKey(to), v)
}

func (x *Exec) convInt(st *State, v *T, to types.Type) *T {
	tr := typeRange(to)
	if v.Op == "int" {
		return wrapInt(v.N, to)
	}
	r := st.facts.Range(v)
	if tr.Lo == nil || (r.Lo != nil && r.Hi != nil && r.Lo.Cmp(tr.Lo) >= 0 && r.Hi.Cmp(tr.Hi) <= 0) {
		return v
	}
	w := tr.Hi.BitLen()
	if tr.Lo.Sign() < 0 {
		w++
	}
	// 64 bits, other sign: the bits are kept
	if w == 64 {
		if tr.Lo.Sign() == 0 {
			if v.Op == "cv" && v.S == "int64" {
				return v.A[0]
			}
			return v // a negative number becomes a huge one
		}
		if r.Hi != nil && r.Hi.Cmp(tr.Hi) > 0 && r.Lo != nil && r.Lo.Sign() >= 0 {
			// a huge number becomes a negative one
			return mkT(to, "cv", "int64", v)
		}
		return v
	}
	if w == 8 && tr.Lo.Sign() == 0 {
		// a byte of a decoded number
		if b := byteOf(v); b != nil {
			return b
		}
	}
	if v.Op == "cv" {
		// the outer conversion decides when it is narrower
		if ir := typeRange(v.Typ); ir.Hi != nil && ir.Hi.BitLen() >= w {
			return x.convInt(st, v.A[0], to)
		}
	}
	return mkT(to, "cv", to.Underlying().String(), v)
}

// byteOf recognises byte(num(c) >> 8i).
func byteOf(v *T) *T {
	sh := int64(0)
	n := v
	if v.Op == "quo" && v.A[1].Op == "int" {
		e, ok := isPow2(v.A[1].N)
		if !ok || e%8 != 0 {
			return nil
		}
		sh = int64(e / 8)
		n = v.A[0]
	}
	if n.Op != "num" {
		return nil
	}
	w := widths[n.S]
	if sh >= w {
		return nil
	}
	if strings.HasSuffix(n.S, "be") {
		return ByteAt(n.A[0], Int(w-1-sh))
	}
	return ByteAt(n.A[0], Int(sh))
}

func (fr *frame) slice(it *item, i *ssa.Slice) *T {
	x := fr.x
	v := fr.val(it, i.X)
	lo := Zero
	if i.Low != nil {
		lo = fr.val(it, i.Low)
	}
	var n *T
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		n = Int(p.Elem().Underlying().(*types.Array).Len())
	} else {
		n = x.length(it.st, v)
	}
	hi := n
	if i.High != nil {
		hi = fr.val(it, i.High)
	}
	if i.Low != nil || i.High != nil {
		fr.risk(it, "slice", lo, hi, i)
		fr.risk(it, "slicehi", hi, n, i)
	}
	if v == Nil {
		return Nil
	}
	if isBytesTerm(v) {
		return SubBytes(v, lo, hi)
	}
	r := Sl(v, lo, hi)
	if r.Typ == nil {
		r.Typ = i.Type()
	}
	return r
}

func (fr *frame) dropMap(it *item, m, k *T) {
	for c := range it.st.mem {
		if c.Op == "cell" && c.S == "map" && c.A[0] == m && c.A[1] != k && it.st.facts.Eval(Eq(c.A[1], k)) != 0 {
			delete(it.st.mem, c)
		}
	}
}

var deletedMark = Mk("deleted", "")

func (fr *frame) lookup(it *item, i *ssa.Lookup) {
	m, k := fr.val(it, i.X), fr.val(it, i.Index)
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		fr.risk(it, "index", k, Len(m), i)
		it.env[i] = ByteAt(m, k)
		return
	}
	mt := i.X.Type().Underlying().(*types.Map)
	fr.emit(it, &Ev{Kind: "mapget", Args: []*T{m, k}, Pos: i.Pos(), Instr: i})
	var v, ok *T
	if c, has := it.st.mem[Mk("cell", "map", m, k)]; has {
		if c == deletedMark {
			v, ok = ZeroOf(mt.Elem()), False
		} else {
			v, ok = c, True
		}
	} else if ver, untouched := fr.mapVer(it, m, k); m.Op == "mkmap" && untouched && fr.x.made[m] && len(fr.x.ks) == 0 {
		v, ok = ZeroOf(mt.Elem()), False
	} else {
		v = mkT(mt.Elem(), "mget", ver, m, k)
		ok = mkT(types.Typ[types.Bool], "mhas", ver, m, k)
	}
	if i.CommaOk {
		it.env[i] = Mk("tuple", "", v, ok)
	} else {
		it.env[i] = v
	}
}

// mapVer distinguishes reads of key k of map m before and after the key may
// have changed; untouched means that nothing has been put into the map.
func (fr *frame) mapVer(it *item, m, k *T) (ver string, untouched bool) {
	untouched = true
	var changes func(es []*Ev, inner bool) bool
	changes = func(es []*Ev, inner bool) bool {
		hit := false
		for _, e := range es {
			switch e.Kind {
			case "mapset", "mapdel":
				if Unversioned(e.Args[0]) != Unversioned(m) {
					continue
				}
				if e.Kind == "mapset" {
					untouched = false
				}
				if inner || it.st.facts.Eval(Eq(e.Args[1], k)) != 0 {
					hit = true
					if !inner {
						ver += fmt.Sprintf(".%d", e.Args[1].ID)
					}
				}
			case "call", "send", "go", "store", "put":
				for _, a := range e.Args {
					if a == m || a.Op == "iface" && a.A[0] == m {
						untouched = false
						if hit = true; !inner {
							ver += fmt.Sprintf(".c%d", e.Pos)
						}
					}
				}
			case "loop":
				if e.Rec == nil {
					continue
				}
				in := false
				for _, t := range e.Rec.Trans {
					in = changes(t.Events, true) || in
				}
				if in {
					hit = true
					if !inner {
						ver += fmt.Sprintf(".l%d", e.Rec.ID)
					}
				}
			}
		}
		return hit
	}
	changes(it.st.Events(), false)
	return
}

func (fr *frame) typeAssert(it *item, i *ssa.TypeAssert) []*item {
	v := fr.val(it, i.X)
	key := TypeKey(i.AssertedType)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	var ok Cond
	var res *T
	switch {
	case v == Nil:
		ok, res = Cond{True, false}, ZeroOf(i.AssertedType)
	case v.Op == "iface" && !toIface:
		ok, res = Cond{True, v.S == key}, v.A[0]
	case v.Op == "iface":
		ok, res = Cond{True, types.Implements(typeTable[v.S], i.AssertedType.Underlying().(*types.Interface))}, v
	default:
		ok = Cond{Mk("istype", key, v), true}
		res = mkT(i.AssertedType, "assert", key, v)
		if toIface {
			res = v
		}
	}
	if !i.CommaOk {
		if it.st.facts.Eval(ok) != 1 {
			fr.risk(it, "assert", v, nil, i)
		}
		it.st.facts.Assume(ok)
		it.env[i] = res
		return []*item{it}
	}
	switch it.st.facts.Eval(ok) {
	case 1:
		it.env[i] = Mk("tuple", "", res, True)
		return []*item{it}
	case 0:
		it.env[i] = Mk("tuple", "", ZeroOf(i.AssertedType), False)
		return []*item{it}
	}
	o := it.fork()
	it.st.facts.Assume(ok)
	it.env[i] = Mk("tuple", "", res, True)
	o.st.facts.Assume(ok.Not())
	o.env[i] = Mk("tuple", "", ZeroOf(i.AssertedType), False)
	return []*item{it, o}
}

// next of a map or string iteration: a fresh key per loop iteration.
func (fr *frame) next(it *item, i *ssa.Next) []*item {
	r := fr.val(it, i.Iter)
	o := it.fork()
	if i.IsString {
		k := mkT(types.Typ[types.Int], "ext", "pos", append([]*T{r}, fr.x.ks...)...)
		v := mkT(types.Typ[types.Int32], "ext", "rune", append([]*T{r}, fr.x.ks...)...)
		it.env[i] = Mk("tuple", "", True, k, v)
	} else {
		mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		k := mkT(mt.Key(), "mkey", "", append([]*T{r}, fr.x.ks...)...)
		m := r.A[0]
		v := mkT(mt.Elem(), "mget", "", m, k)
		if c, ok := it.st.mem[Mk("cell", "map", m, k)]; ok {
			v = c
		}
		it.st.facts.Assume(Cond{Mk("mhas", "", m, k), true})
		it.env[i] = Mk("tuple", "", True, k, v)
		fr.emit(it, &Ev{Kind: "mapiter", Args: []*T{m, k, v}, Pos: i.Pos(), Instr: i})
	}
	// whether there is another element is unknown
	more := Cond{Mk("more", "", append([]*T{r}, fr.x.ks...)...), true}
	it.st.facts.Assume(more)
	o.st.facts.Assume(more.Not())
	o.env[i] = Mk("tuple", "", False, Zero, Nil)
	return []*item{it, o}
}

func (fr *frame) selectStmt(it *item, i *ssa.Select) []*item {
	var r []*item
	nrecv := 0
	for _, s := range i.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mkTuple := func(c *item, idx int, recvOK *T, recvAt int, val *T) {
		tp := []*T{Int(int64(idx)), recvOK}
		n := 0
		for _, s := range i.States {
			if s.Dir == types.RecvOnly {
				if n == recvAt {
					tp = append(tp, val)
				} else {
					tp = append(tp, ZeroOf(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				n++
			}
		}
		c.env[i] = Mk("tuple", "", tp...)
	}
	var alts []*T
	for _, s := range i.States {
		d := "recv"
		if s.Dir == types.SendOnly {
			d = "send"
		}
		alts = append(alts, Mk("alt", d, fr.val(it, s.Chan)))
	}
	mode := "blocking"
	if !i.Blocking {
		mode = "default"
	}
	recvAt := 0
	for n, s := range i.States {
		c := it.fork()
		ch := fr.val(c, s.Chan)
		sel := Mk("chosen", fmt.Sprint(n), fr.fresh("sym", "select", i, nil))
		c.st.facts.Assume(Cond{sel, true})
		fr.emit(c, &Ev{Kind: "select", Name: mode, Args: append([]*T{Int(int64(n))}, alts...), Pos: i.Pos(), Instr: i})
		if s.Dir == types.SendOnly {
			fr.emit(c, &Ev{Kind: "send", Name: "select", Args: fr.sent(c, ch, fr.val(c, s.Send)), Pos: s.Pos, Instr: i})
			mkTuple(c, n, False, -1, nil)
		} else {
			v := fr.fresh("res", fmt.Sprintf("recv%d", n), i, ch0elem(s.Chan))
			fr.emit(c, &Ev{Kind: "recv", Name: "select", Args: []*T{ch}, Res: []*T{v}, Pos: s.Pos, Instr: i})
			ok := fr.fresh("res", fmt.Sprintf("recvok%d", n), i, types.Typ[types.Bool])
			mkTuple(c, n, ok, recvAt, v)
			recvAt++
		}
		r = append(r, c)
	}
	if !i.Blocking {
		c := it.fork()
		c.st.facts.Assume(Cond{Mk("chosen", "default", fr.fresh("sym", "select", i, nil)), true})
		fr.emit(c, &Ev{Kind: "select", Name: "default", Args: append([]*T{Int(-1)}, alts...), Pos: i.Pos(), Instr: i})
		mkTuple(c, -1, False, -1, nil)
		r = append(r, c)
	}
	return r
}

func ch0elem(v ssa.Value) types.Type { return v.Type().Underlying().(*types.Chan).Elem() }

// ---- calls ----

// callee evaluates the function and the arguments of a call. For interface
// methods the function term is "method" with the receiver as first argument.
func (fr *frame) callee(it *item, c *ssa.CallCommon) (*T, []*T) {
	var args []*T
	if c.IsInvoke() {
		recv := fr.val(it, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, fr.val(it, a))
		}
		// dynamic type known
		if recv.Op == "iface" {
			if f := fr.x.P.methodOn(typeTable[recv.S], c.Method.Name()); f != nil {
				args[0] = recv.A[0]
				return FnTerm(f), args
			}
		}
		t := c.Value.Type()
		name := shortType(t) + "." + c.Method.Name()
		if n, ok := t.(*types.Named); ok && fr.x.Cfg.Devirt != nil {
			if f := fr.x.Cfg.Devirt(n, c.Method.Name(), recv); f != nil {
				return FnTerm(f), args
			}
		}
		return Mk("method", name), args
	}
	for _, a := range c.Args {
		args = append(args, fr.val(it, a))
	}
	return fr.val(it, c.Value), args
}

func (p *Prog) methodOn(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

type callOut struct {
	it  *item
	val *T
}

// invoke performs a call; each result is a continuation of the caller.
func (fr *frame) invoke(it *item, call ssa.CallInstruction, fn *T, args []*T) []callOut {
	x := fr.x
	sig := call.Common().Signature()
	switch fn.Op {
	case "builtin":
		return fr.builtin(it, call, fn.S, args)
	case "fn", "clo":
		f := fnTable[fn.S]
		if f.Synthetic != "" && strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk") {
			if f.Blocks != nil {
				return fr.inline(it, call, f, args, fn.A)
			}
		}
		if !x.P.IsRepo(f) || f.Blocks == nil {
			return fr.extern(it, call, f, args)
		}
		if f.Synthetic == "package initializer" {
			return []callOut{{it, Nil}}
		}
		if x.Cfg.Opaque != nil && x.Cfg.Opaque(f, args) {
			return fr.opaque(it, call, f, args)
		}
		return fr.inline(it, call, f, args, fn.A)
	case "method":
		return fr.ifaceCall(it, call, fn.S, args)
	case "ite":
		a, b := it, it.fork()
		var r []callOut
		if fr.assume(a, CondOf(fn.A[0])) {
			r = append(r, fr.invoke(a, call, fn.A[1], args)...)
		}
		if fr.assume(b, CondOf(fn.A[0]).Not()) {
			r = append(r, fr.invoke(b, call, fn.A[2], args)...)
		}
		return r
	}
	fr.risk(it, "callnil", fn, nil, call)
	res := fr.results("dyn", call, sig, append([]*T{fn}, args...))
	fr.emit(it, &Ev{Kind: "call", Name: "dynamic", Args: append([]*T{fn}, args...), Res: res.A, Pos: call.Pos(), Instr: call})
	return []callOut{{it, untuple(res)}}
}

func untuple(t *T) *T {
	if len(t.A) == 1 {
		return t.A[0]
	}
	return t
}

func (fr *frame) inline(it *item, call ssa.CallInstruction, f *ssa.Function, args, binds []*T) []callOut {
	x := fr.x
	ctx := fr.ctx + fmt.Sprintf("%d>", x.P.site(fmt.Sprintf("%s|%s|%p", fr.ctx, fr.fn, call)))
	base := it
	paths := x.call(f, args, binds, it.st, ctx)
	var r []callOut
	for n, p := range paths {
		if p.End != "return" {
			fr.outs = append(fr.outs, p)
			continue
		}
		var c *item
		if n == len(paths)-1 {
			c = base
		} else {
			c = &item{env: make(map[ssa.Value]*T, len(base.env)), defers: base.defers}
			for k, v := range base.env {
				c.env[k] = v
			}
		}
		c = &item{st: p.St, env: c.env, defers: base.defers}
		var v *T
		switch len(p.Res) {
		case 0:
			v = Nil
		case 1:
			v = p.Res[0]
		default:
			v = Mk("tuple", "", p.Res...)
		}
		r = append(r, callOut{c, v})
	}
	return r
}

// results makes fresh result values of an opaque call.
func (fr *frame) results(name string, call ssa.CallInstruction, sig *types.Signature, args []*T) *T {
	n := sig.Results().Len()
	t := T{Op: "tuple"}
	site := fr.x.P.site(fmt.Sprintf("%s|%s|%p|res", fr.ctx, fr.fn, call))
	for i := 0; i < n; i++ {
		s := name
		if n > 1 {
			s = fmt.Sprintf("%s#%d", name, i)
		}
		id := Mk("site", fmt.Sprint(site), fr.x.ks...)
		t.A = append(t.A, mkT(sig.Results().At(i).Type(), "res", s, append([]*T{id}, args...)...))
	}
	return mk(t)
}

func (fr *frame) opaque(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) []callOut {
	name := FuncName(f)
	res := fr.results(name, call, f.Signature, args)
	fr.emit(it, &Ev{Kind: "call", Name: name, Args: args, Res: res.A, Pos: call.Pos(), Instr: call, Fn: f})
	for n, a := range args {
		var dyn types.Type
		if a.Op == "iface" {
			dyn = TypeOf(a.S)
		}
		if n < len(f.Params) && fr.x.P.WritesParamAs(f, n, dyn) {
			fr.havoc(it, a, call)
		}
	}
	return []callOut{{it, untuple(res)}}
}

// havoc forgets the content of the object at address a.
func (fr *frame) havoc(it *item, a *T, in ssa.Instruction) {
	switch a.Op {
	case "al", "fa", "ia":
	case "iface":
		fr.havoc(it, a.A[0], in)
		return
	default:
		return
	}
	t := pointee(a.Typ)
	for c := range it.st.mem {
		if below(c, a) {
			delete(it.st.mem, c)
		}
	}
	it.st.mem[a] = fr.fresh("sym", "after", in, t)
	it.st.mem[a] = mkT(t, "sym", it.st.mem[a].S, append([]*T{a}, fr.x.ks...)...)
}

// FuncName is the name of a function as rules use it: pkg.Func or pkg.Type.Method.
func FuncName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + f.Name()
	}
	return f.Name()
}

func (fr *frame) builtin(it *item, call ssa.CallInstruction, name string, args []*T) []callOut {
	x := fr.x
	ret := func(v *T) []callOut { return []callOut{{it, v}} }
	switch name {
	case "len":
		if len(args) == 1 {
			if v := args[0]; v.Op == "ite" {
				return ret(Ite(v.A[0], Len(v.A[1]), Len(v.A[2])))
			}
			return ret(Len(args[0]))
		}
	case "cap":
		return ret(mkT(types.Typ[types.Int], "cap", "", args[0]))
	case "append":
		s, e := args[0], args[1]
		x.appendOnce(it.st, call, s)
		if IsByteSlice(call.Common().Args[0].Type()) {
			return ret(x.appendBytes(it.st, s, x.content(it.st, e)))
		}
		// append(s, x): the variadic array has known elements
		if e.Op == "sl" && e.A[0].Op == "al" {
			n, ok := Sub(e.A[2], e.A[1]).Int64()
			if ok && n <= 16 {
				t := T{Op: "append", A: []*T{s}, Typ: call.Common().Args[0].Type()}
				if s.Op == "append" {
					t.A = append([]*T{}, s.A...)
				}
				et := elemType(t.Typ)
				for k := int64(0); k < n; k++ {
					t.A = append(t.A, x.read(it.st, IA(e, Int(k), ptrTo(et)), et))
				}
				x.spill(it.st, fr, call, s)
				return ret(mk(t))
			}
		}
		x.spill(it.st, fr, call, s)
		if e == Nil || Len(e) == Zero {
			return ret(s)
		}
		if e.Op == "coll" && Len(e.A[0]) == Zero && len(it.st.stores[e]) == 0 && !x.hasBelow(it.st, e) {
			// the elements collected in another list
			return ret(mkT(call.Common().Args[0].Type(), "coll", "", s, e.A[1], e.A[2], e.A[3]))
		}
		if e.Op == "append" && Len(e.A[0]) == Zero && len(it.st.stores[e]) == 0 && !x.hasBelow(it.st, e) {
			t := T{Op: "append", A: append([]*T{s}, e.A[1:]...), Typ: call.Common().Args[0].Type()}
			if s.Op == "append" {
				t.A = append(append([]*T{}, s.A...), e.A[1:]...)
			}
			return ret(mk(t))
		}
		if s == Nil || (Len(s) == Zero && s.Op == "mkslice") {
			return ret(mkT(call.Common().Args[0].Type(), "appends", "", s, e))
		}
		return ret(mkT(call.Common().Args[0].Type(), "appends", "", s, e))
	case "copy":
		d, s := args[0], args[1]
		src := x.content(it.st, s)
		if IsByteSlice(call.Common().Args[0].Type()) {
			n := Len(src)
			m := Len(d)
			if d.Op == "sl" {
				m = Sub(d.A[2], d.A[1])
			}
			if it.st.facts.Eval(Le(n, m)) == 1 {
				x.setContent(it.st, Sl(d, Zero, n), src)
			} else if it.st.facts.Eval(Le(m, n)) == 1 {
				x.setContent(it.st, d, SubBytes(src, Zero, m))
				n = m
			} else {
				x.setContent(it.st, d, Mk("copyof", "", x.content(it.st, d), src))
				n = fr.fresh("res", "copied", call, types.Typ[types.Int])
			}
			return ret(n)
		}
		for c := range it.st.mem {
			if below(c, d) {
				delete(it.st.mem, c)
			}
		}
		fr.emit(it, &Ev{Kind: "copy", Args: []*T{d, s}, Pos: call.Pos(), Instr: call})
		it.st.esc[Root(d)] = true
		return ret(fr.fresh("res", "copied", call, types.Typ[types.Int]))
	case "delete":
		fr.emit(it, &Ev{Kind: "mapdel", Args: args, Pos: call.Pos(), Instr: call})
		fr.dropMap(it, args[0], args[1])
		it.st.mem[Mk("cell", "map", args[0], args[1])] = deletedMark
		return ret(Nil)
	case "close":
		fr.emit(it, &Ev{Kind: "close", Args: args, Pos: call.Pos(), Instr: call})
		return ret(Nil)
	case "panic":
		fr.emit(it, &Ev{Kind: "panic", Args: args, Pos: call.Pos(), Instr: call})
		fr.outs = append(fr.outs, Path{it.st, nil, "panic", call.Pos()})
		return nil
	case "recover":
		return ret(Nil)
	case "print", "println":
		fr.emit(it, &Ev{Kind: "log", Name: name, Args: args, Pos: call.Pos(), Instr: call})
		return ret(Nil)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := Lt(a, r)
			if name == "max" {
				c = Lt(r, a)
			}
			r = Ite(c.Term(), a, r)
		}
		return ret(r)
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	x.problem("%s: builtin %s is not modelled", x.P.Pos(call.Pos()), name)
	return ret(fr.fresh("sym", "builtin", call, call.Common().Signature().Results()))
}

// appendBytes appends data to byte slice s; where the array behind s is known
// to have room it is written in place.
// inOwnLoop: the block lies in a loop of its function.
func (fr *frame) inOwnLoop(b *ssa.BasicBlock) bool {
	for _, l := range fr.x.P.loopsOf(b.Parent()).header {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

// appendOnce: what two appends to the same list with room for more give shares
// memory.
func (x *Exec) appendOnce(st *State, call ssa.CallInstruction, s *T) {
	if s.Op != "append" && s.Op != "appends" && s.Op != "coll" {
		part := s.Op == "sl" && !IsByteSlice(call.Common().Args[0].Type())
		if part {
			n := Len(s.A[0])
			if p := pointee(s.A[0].Typ); p != nil {
				if a, ok := p.Underlying().(*types.Array); ok {
					n = Int(a.Len())
				}
			}
			part = st.facts.Eval(Le(n, s.A[2])) != 1
		}
		if _, ok := st.mem[Mk("cell", "spare", s)]; !ok && !part {
			return
		}
	}
	k := Mk("cell", "appended", s)
	if _, ok := st.mem[k]; ok {
		x.problem("%s: appends to a list that was appended to before", x.P.Pos(call.Pos()))
	}
	st.mem[k] = True
}

// spill: appending to a part of a slice overwrites what follows the part.
func (x *Exec) spill(st *State, fr *frame, call ssa.CallInstruction, s *T) {
	for s.Op == "append" || s.Op == "appends" || s.Op == "coll" {
		s = s.A[0]
	}
	if s.Op != "sl" {
		return
	}
	b := s.A[0]
	n := Len(b)
	et := elemType(call.Common().Args[0].Type())
	if p := pointee(b.Typ); p != nil {
		if a, ok := p.Underlying().(*types.Array); ok {
			n = Int(a.Len())
		}
	}
	if st.facts.Eval(Le(n, s.A[2])) == 1 {
		return
	}
	at := Add(s.A[2], fr.fresh("sym", "spill", call, types.Typ[types.Int]))
	for k := int64(0); k < 64; k++ {
		if i, ok := AddN(n, -1-k).Int64(); !ok || i < 0 {
			break
		} else if lo, ok := s.A[2].Int64(); ok && i < lo {
			break
		} else {
			x.write(st, IA(b, Int(i), ptrTo(et)), fr.fresh("sym", "spilled", call, et))
		}
	}
	if _, ok := n.Int64(); !ok {
		x.write(st, IA(b, at, ptrTo(et)), fr.fresh("sym", "spilled", call, et))
	}
}

func (x *Exec) appendBytes(st *State, s, data *T) *T {
	if s.Op == "sl" && pointee(s.A[0].Typ) != nil {
		if a, ok := pointee(s.A[0].Typ).Underlying().(*types.Array); ok {
			end := Add(s.A[2], ByteLen(data))
			if st.facts.Eval(Le(end, Int(a.Len()))) == 1 {
				x.setContent(st, Sl(s.A[0], s.A[2], end), data)
				return Sl(s.A[0], s.A[1], end)
			}
		}
	}
	return Cat(x.content(st, s), data)
}
