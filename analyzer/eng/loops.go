package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- structure ----

type loopT struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*loopT
}

func (p *Prog) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := p.loops[f]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loopT{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.header[h]
			if l == nil {
				l = &loopT{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.header[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				for _, q := range c.Preds {
					if seen[q] {
						work = append(work, q)
					}
				}
			}
		}
	}
	p.loops[f] = li
	return li
}

// ---- records ----

// Loop is the summary of a loop.
type Loop struct {
	ID    int
	K     *T // iteration number, 0-based
	Fn    *ssa.Function
	Ctx   string
	Pos   token.Pos
	Entry *State
	Vars  []*LoopVar
	Trans []*Trans
	Hold  []Cond // facts at the head of every iteration
	sig   string
}

// LoopVar is a variable or memory cell that changes from one iteration to the
// next.
type LoopVar struct {
	Phi   *ssa.Phi
	Cell  *T
	Typ   types.Type
	Init  *T
	Mode  string // inv ind coll cat lag fin w
	Step  *T     // ind: step; coll, lag: template in k; cat: body in k
	W     *T     // placeholder value
	Val   *T     // value at the head of iteration K (nil for fin)
	name  string
	try   map[string]bool
	tries int
}

// Name of the variable.
func (v *LoopVar) Name() string { return v.name }

// Trans is one way through the body back to the head.
type Trans struct {
	From   map[*LoopVar]*T // values of the fin variables before
	Lits   []Cond
	Events []*Ev
	Next   map[*LoopVar]*T
	St     *State
}

// ---- interpretation ----

const unrollDefault = 17

func (x *Exec) unrollMax() int {
	if x.Cfg.Unroll > 0 {
		return x.Cfg.Unroll
	}
	return unrollDefault
}

func (fr *frame) runLoop(l *loopT, it *item) []exitT {
	if ex, ok := fr.unroll(l, it); ok {
		return ex
	}
	return fr.summarise(l, it)
}

// unroll handles loops whose exit test is decided by constants.
func (fr *frame) unroll(l *loopT, it0 *item) ([]exitT, bool) {
	x := fr.x
	h := l.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || (l.blocks[h.Succs[0]] && l.blocks[h.Succs[1]]) {
		return nil, false
	}
	_ = iff
	nouts := len(fr.outs)
	try := func() ([]exitT, bool) {
		cur := []*item{it0.fork()}
		var exits []exitT
		for n := 0; n < x.unrollMax(); n++ {
			r := &regionT{blocks: l.blocks, header: h, strict: true, pending: map[*ssa.BasicBlock][]*item{h: cur}}
			x.ks = append(x.ks, Int(int64(n)))
			fr.run(r)
			x.ks = x.ks[:len(x.ks)-1]
			if r.undecided || len(r.back) > 64 {
				return nil, false
			}
			exits = append(exits, r.exits...)
			if len(r.back) == 0 {
				return exits, true
			}
			cur = r.back
		}
		return nil, false
	}
	x.quiet++
	ex, ok := try()
	x.quiet--
	if !ok {
		fr.outs = fr.outs[:nouts]
		return nil, false
	}
	if x.quiet > 0 {
		return ex, true
	}
	fr.outs = fr.outs[:nouts]
	return try()
}

type summary struct {
	fr    *frame
	l     *loopT
	it0   *item
	k     *T
	j     *T
	id    int
	vars  []*LoopVar
	byKey map[any]*LoopVar
	hold  []Cond
	tmpls []Tmpl
	epoch *T
	wild  map[*T][]*T
	lost  map[*T]bool
}

type bodyRun struct {
	vals  []map[*LoopVar]*T
	backs []backT
	exits []exitT
	from  []int // exits: index into vals
}

type backT struct {
	it   *item
	from int
	lits []Cond
}

func (fr *frame) summarise(l *loopT, it0 *item) []exitT {
	x := fr.x
	id := x.P.site(fmt.Sprintf("loop|%s|%s|%d", fr.ctx, fr.fn, l.head.Index))
	s := &summary{fr: fr, l: l, it0: it0, id: id, byKey: map[any]*LoopVar{}, wild: map[*T][]*T{}, lost: map[*T]bool{}}
	s.k = mkT(types.Typ[types.Int], "k", fmt.Sprint(id), x.ks...)
	s.j = Sym(fmt.Sprintf("j!L%d", id), x.ks...)
	x.ks = append(x.ks, s.k)
	defer func() { x.ks = x.ks[:len(x.ks)-1] }()
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s.add(&LoopVar{Phi: p, Typ: p.Type(), Init: fr.val(it0, p), Mode: "inv", name: phiName(p)})
	}
	nouts := len(fr.outs)
	var run *bodyRun
	x.quiet++
	for round := 0; ; round++ {
		fr.outs = fr.outs[:nouts]
		var changed bool
		run, changed = s.run()
		if run != nil {
			changed = s.adapt(run, round) || changed
		}
		if !changed {
			break
		}
		if round > 24 {
			x.quiet--
			x.problem("%s: no loop summary in %s", x.P.Pos(l.head.Instrs[0].Pos()), fr.fn)
			x.quiet++
			break
		}
	}
	x.quiet--
	if x.quiet == 0 {
		fr.outs = fr.outs[:nouts]
		run, _ = s.run()
	}
	return s.finish(run)
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (s *summary) add(v *LoopVar) {
	if v.Phi != nil {
		s.byKey[v.Phi] = v
	} else {
		s.byKey[v.Cell] = v
		v.name = v.Cell.String()
	}
	v.try = map[string]bool{}
	v.W = mkT(v.Typ, "w", fmt.Sprintf("%d.%d", s.id, len(s.vars)), s.fr.x.ks...)
	v.Val = v.Init
	s.vars = append(s.vars, v)
}

// head builds the state at the head of iteration k.
func (s *summary) head(val map[*LoopVar]*T) *item {
	it := s.it0.fork()
	it.st.trace = nil
	it.st.own = nil
	for c := range s.lost {
		delete(it.st.mem, c)
	}
	for _, v := range s.vars {
		t := v.Val
		if v.Mode == "fin" {
			t = val[v]
		}
		if v.Phi != nil {
			it.env[v.Phi] = t
			continue
		}
		for c := range it.st.mem {
			if below(c, v.Cell) {
				delete(it.st.mem, c)
			}
		}
		it.st.mem[v.Cell] = t
	}
	for _, t := range s.tmpls {
		for c := range it.st.mem {
			b := map[*T]*T{}
			for _, j := range t.J {
				b[j] = nil
			}
			if s.byKey[c] == nil && s.fr.x.match(t.Addr, c, b) {
				delete(it.st.mem, c)
			}
		}
	}
	it.st.tmpl = append(it.st.tmpl, s.tmpls...)
	for b, is := range s.wild {
		for _, i := range is {
			known := false
			for _, o := range it.st.stores[b] {
				known = known || o == i
			}
			if !known {
				it.st.stores[b] = append(it.st.stores[b], i)
			}
		}
	}
	if s.epoch != nil {
		it.st.epoch = s.epoch
	}
	for _, c := range s.hold {
		it.st.facts.Assume(c)
	}
	return it
}

// run interprets the body for every combination of the finite variables.
func (s *summary) run() (*bodyRun, bool) {
	fr := s.fr
	r := &bodyRun{}
	first := map[*LoopVar]*T{}
	var fins []*LoopVar
	for _, v := range s.vars {
		if v.Mode == "fin" {
			first[v] = v.Init
			fins = append(fins, v)
		}
	}
	r.vals = []map[*LoopVar]*T{first}
	key := func(m map[*LoopVar]*T) string {
		var b strings.Builder
		for _, v := range fins {
			fmt.Fprintf(&b, "%d,", m[v].ID)
		}
		return b.String()
	}
	seen := map[string]bool{key(first): true}
	for n := 0; n < len(r.vals); n++ {
		h := s.head(r.vals[n])
		hl := len(h.st.facts.lits)
		reg := &regionT{blocks: s.l.blocks, header: s.l.head, pending: map[*ssa.BasicBlock][]*item{s.l.head: {h}}}
		fr.run(reg)
		r.exits = append(r.exits, reg.exits...)
		for range reg.exits {
			r.from = append(r.from, n)
		}
		var backs []*item
		for _, b := range reg.back {
			for _, b := range s.split(b) {
				if ex := s.leaves(b); ex != nil {
					r.exits = append(r.exits, ex...)
					for range ex {
						r.from = append(r.from, n)
					}
					continue
				}
				backs = append(backs, b)
			}
		}
		for _, b := range backs {
			var lits []Cond
			hs := map[Cond]bool{}
			for _, c := range s.headLits(hl, h) {
				hs[c] = true
			}
			for _, c := range b.st.facts.lits {
				if !hs[c] {
					lits = append(lits, c)
				}
			}
			r.backs = append(r.backs, backT{b, n, lits})
			next := map[*LoopVar]*T{}
			for _, v := range fins {
				t := s.next(b, v)
				if !isConst(t) || len(r.vals) > 8 {
					s.demote(v)
					return nil, true
				}
				next[v] = t
			}
			if k := key(next); !seen[k] {
				seen[k] = true
				r.vals = append(r.vals, next)
			}
		}
	}
	return r, false
}

// split decides the flags a back edge leaves open: whether a boolean variable
// is set and whether an error variable is nil.
func (s *summary) split(b *item) []*item {
	out := []*item{b}
	for _, v := range s.vars {
		if v.Typ == nil || !isConst(v.Init) || v.Mode != "inv" && v.Mode != "probe" && v.Mode != "fin" {
			continue
		}
		var bools bool
		switch t := v.Typ.Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsBoolean == 0 {
				continue
			}
			bools = true
		case *types.Interface:
		default:
			continue
		}
		var next []*item
		for _, b := range out {
			t := s.next(b, v)
			if isConst(t) || t == v.W {
				next = append(next, b)
				continue
			}
			c := IsNil(t)
			if bools {
				c = CondOf(t)
			}
			if b.st.facts.Eval(c) >= 0 {
				next = append(next, b)
				continue
			}
			for _, d := range []Cond{c, c.Not()} {
				n := b.fork()
				if !n.st.facts.Assume(d) {
					continue
				}
				val := Nil
				if bools {
					val = Bool(d == c)
				} else if d != c {
					val = t
				}
				if v.Phi != nil {
					n.env[v.Phi] = val
				} else {
					n.st.mem[v.Cell] = val
				}
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

// leaves tells whether the tests at the head of the loop end it for a state at
// the back edge; it returns the ways out.
func (s *summary) leaves(b *item) []exitT {
	tests := s.l.tests()
	if tests == nil {
		return nil
	}
	flag := false
	for _, v := range s.vars {
		if v.Typ == nil || !isConst(v.Init) || v.Mode == "w" {
			continue
		}
		switch t := v.Typ.Underlying().(type) {
		case *types.Basic:
			flag = flag || t.Info()&types.IsBoolean != 0
		case *types.Interface:
			flag = true
		}
	}
	if !flag {
		return nil
	}
	reg := &regionT{blocks: tests, header: s.l.head, pending: map[*ssa.BasicBlock][]*item{s.l.head: {b.fork()}}}
	s.fr.run(reg)
	if len(reg.back) != 0 {
		return nil
	}
	for _, e := range reg.exits {
		if s.l.blocks[e.to] {
			return nil
		}
	}
	return reg.exits
}

// tests are the blocks at the head of the loop that only test whether it goes
// on.
func (l *loopT) tests() map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	for b := l.head; b != nil; {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || r[b] {
			break
		}
		var in *ssa.BasicBlock
		out := false
		for _, c := range b.Succs {
			if l.blocks[c] {
				in = c
			} else {
				out = true
			}
		}
		if !out {
			break
		}
		r[b] = true
		if in == nil || len(in.Preds) != 1 {
			break
		}
		b = in
	}
	if len(r) == 0 {
		return nil
	}
	return r
}

func (s *summary) headLits(n int, h *item) []Cond {
	lits := append([]Cond{}, s.it0.st.facts.lits...)
	return append(lits, s.hold...)
}

func isConst(t *T) bool {
	switch t.Op {
	case "int", "bool", "nil", "str", "fn", "glob":
		return true
	case "err":
		return len(t.A) == 0
	}
	return false
}

// next is the value of v at the back edge.
func (s *summary) next(b *item, v *LoopVar) *T {
	if v.Phi != nil {
		t := b.env[v.Phi]
		return s.fr.canon(b.st, t)
	}
	return s.fr.canon(b.st, s.fr.x.read(b.st, v.Cell, v.Typ))
}

// canon replaces values known to be nil.
func (fr *frame) canon(st *State, t *T) *T {
	switch t.Op {
	case "res", "w", "ld", "assert", "mget", "elem":
		if st.facts.Eval(IsNil(t)) == 1 {
			return Nil
		}
	}
	if t.Op == "bool" || t.Op == "int" {
		return t
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			switch st.facts.Eval(CondOf(t)) {
			case 1:
				return True
			case 0:
				return False
			}
		}
	}
	return t
}

func (s *summary) demote(v *LoopVar) {
	v.try[v.Mode] = true
	v.Mode, v.Val, v.Step = "w", v.W, nil
	v.try["w"] = true
}

// combine makes one value of the values of several back edges.
func (s *summary) combine(backs []backT, vals []*T) *T {
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	common := map[Cond]int{}
	for _, b := range backs {
		for _, l := range b.lits {
			common[l]++
		}
	}
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		if vals[i] == r {
			continue
		}
		var ls []*T
		for _, l := range backs[i].lits {
			if common[l] < len(backs) {
				ls = append(ls, l.Term())
			}
		}
		var c *T
		switch len(ls) {
		case 0:
			return nil
		case 1:
			c = ls[0]
		default:
			c = Mk("all", "", ls...)
		}
		r = Ite(c, vals[i], r)
	}
	return r
}

// adapt checks the assumptions about the variables against a run of the body
// and revises them; it reports whether anything changed.
func (s *summary) adapt(run *bodyRun, round int) bool {
	x := s.fr.x
	changed := false
	if len(run.backs) == 0 {
		return false
	}
	// new cells
	head := s.head(run.vals[0])
	var cells []*T
	seen := map[*T]bool{}
	iter := map[*T]bool{}
	note := func(c *T) {
		if seen[c] {
			return
		}
		seen[c] = true
		if c.Mentions(s.k) {
			iter[c] = true
		} else if s.byKey[c] == nil {
			cells = append(cells, c)
		}
	}
	for _, b := range run.backs {
		for c, v := range b.it.st.mem {
			if head.st.mem[c] != v {
				note(c)
			}
		}
		for c := range head.st.mem {
			if _, ok := b.it.st.mem[c]; !ok {
				note(c)
			}
		}
		if b.it.st.epoch != head.st.epoch && s.epoch == nil {
			s.epoch = Mk("sym", "epoch", x.ks...)
			changed = true
		}
		if fmt.Sprint(b.it.st.held) != fmt.Sprint(head.st.held) {
			x.problem("%s: locks held change from one iteration to the next in %s", x.P.Pos(s.l.head.Instrs[0].Pos()), s.fr.fn)
		}
		if len(b.it.defers) != len(head.defers) {
			x.problem("%s: defer in a loop in %s", x.P.Pos(s.l.head.Instrs[0].Pos()), s.fr.fn)
		}
		for c := range b.it.st.esc {
			if !s.it0.st.esc[c] && !c.Mentions(s.k) {
				s.it0.st.esc[c] = true
				changed = true
			}
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	// the variables first: the cells depend on the values of the counters
	phis := false
	for _, v := range s.vars {
		if v.Phi != nil && s.adaptVar(v, run) {
			phis = true
		}
	}
	if phis {
		return true
	}
	for _, b := range run.backs {
		for base, is := range b.it.st.stores {
			if base.Mentions(s.k) {
				continue
			}
			for _, i := range is {
				g := i
				known := false
				for _, o := range s.wild[base] {
					known = known || o == g
				}
				if !known && g.Mentions(s.k) {
					// written in an earlier iteration
					g = Subst(g, s.k, before(s.k))
					for _, o := range s.wild[base] {
						known = known || o == g
					}
				}
				for _, o := range s.it0.st.stores[base] {
					known = known || o == g
				}
				if !known {
					s.wild[base] = append(s.wild[base], g)
					changed = true
				}
			}
		}
	}
	for _, c := range cells {
		// a part of a cell that is already handled
		skip := false
		for a := c; a.Op == "fa" || a.Op == "ia"; {
			a = a.A[0]
			if s.byKey[a] != nil {
				skip = true
			}
		}
		if skip {
			continue
		}
		if c.Op == "cell" && c.S == "map" {
			if !s.lost[c] {
				s.lost[c] = true
				changed = true
			}
			continue
		}
		typ := pointee(c.Typ)
		var init *T
		if c.Op == "mkslice" {
			init = x.content(s.it0.st, c)
		} else {
			init = x.read(s.it0.st, c, typ)
		}
		if typ == nil {
			typ = init.Typ
		}
		s.add(&LoopVar{Cell: c, Typ: typ, Init: init, Mode: "inv"})
		changed = true
	}
	for _, v := range s.vars {
		if v.Phi == nil && s.adaptVar(v, run) {
			changed = true
		}
	}
	// cells that belong to one iteration
	var ic []*T
	for c := range iter {
		if c.Op == "cell" && c.S == "map" {
			continue
		}
		ic = append(ic, c)
	}
	sort.Slice(ic, func(i, j int) bool { return ic[i].ID < ic[j].ID })
	var ts []Tmpl
	for _, c := range ic {
		var vals []*T
		for _, b := range run.backs {
			v, ok := b.it.st.mem[c]
			if !ok {
				v = x.read(b.it.st, c, pointee(c.Typ))
			}
			vals = append(vals, v)
		}
		v := s.combine(run.backs, vals)
		if v == nil {
			v = mkT(pointee(c.Typ), "w", "cell", c)
		}
		ts = append(ts, Tmpl{Addr: Subst(c, s.k, s.j), Val: Subst(v, s.k, s.j), J: []*T{s.j}, N: []*T{s.k}})
	}
	// templates made by inner loops
	base := len(s.it0.st.tmpl) + len(s.tmpls)
	seenT := map[string]bool{}
	for _, b := range run.backs {
		if len(b.it.st.tmpl) <= base {
			continue
		}
		for _, t := range b.it.st.tmpl[base:] {
			n := Tmpl{Addr: Subst(t.Addr, s.k, s.j), Val: Subst(t.Val, s.k, s.j), J: []*T{s.j}, N: []*T{s.k}}
			if !t.Addr.Mentions(s.k) {
				// filled again in every iteration: only the last one counts
				n.J, n.N = nil, nil
				n.Addr = t.Addr
				n.Val = mkT(t.Val.Typ, "w", "tmpl", t.Addr, s.k)
			}
			for i := range t.J {
				n.J = append(n.J, Subst(t.J[i], s.k, s.j))
				n.N = append(n.N, Subst(t.N[i], s.k, s.j))
			}
			k := n.String()
			if !seenT[k] {
				seenT[k] = true
				ts = append(ts, n)
			}
		}
	}
	if fmt.Sprint(ts) != fmt.Sprint(s.tmpls) {
		if round > 16 {
			for i := range ts {
				ts[i].Val = mkT(ts[i].Val.Typ, "w", "tmpl", append([]*T{ts[i].Addr}, ts[i].J...)...)
			}
		}
		if fmt.Sprint(ts) != fmt.Sprint(s.tmpls) {
			s.tmpls = ts
			changed = true
		}
	}
	// facts that hold at the head of every iteration
	var hold []Cond
	for _, l := range run.backs[0].it.st.facts.lits {
		if l.T.Op != "le" || !l.T.Mentions(s.k) {
			continue
		}
		all := true
		for _, b := range run.backs[1:] {
			if b.it.st.facts.Eval(l) != 1 {
				all = false
			}
		}
		if !all {
			continue
		}
		prev := CondOf(Subst(l.Term(), s.k, AddN(s.k, -1)))
		zero := CondOf(Subst(l.Term(), s.k, Int(-1)))
		if s.it0.st.facts.Eval(zero) != 1 {
			continue
		}
		if noFacts.Eval(prev) != 1 {
			hold = append(hold, prev)
		}
	}
	// a counter that starts below a bound and goes on only when it is not
	// equal to it stays below
	for _, l := range run.backs[0].it.st.facts.lits {
		c, ok := reached(l, s.k)
		if !ok || s.it0.st.facts.Eval(Le(Zero, c)) != 1 {
			continue
		}
		all := true
		for _, b := range run.backs[1:] {
			if b.it.st.facts.Eval(l) != 1 {
				all = false
			}
		}
		if all {
			hold = append(hold, Le(s.k, c))
		}
	}
	for i := 0; i < len(hold); {
		rest := append(append([]Cond{}, hold[:i]...), hold[i+1:]...)
		if fromLits(rest).Eval(hold[i]) == 1 {
			hold = rest
		} else {
			i++
		}
	}
	// keep those already assumed only when they are re-established
	if !sameLits(hold, s.hold) {
		// hold must imply the old facts; otherwise start again from fewer
		if round > 10 {
			var keep []Cond
			for _, c := range s.hold {
				for _, d := range hold {
					if c == d {
						keep = append(keep, c)
					}
				}
			}
			hold = keep
		}
		if !sameLits(hold, s.hold) {
			s.hold = hold
			changed = true
		}
	}
	return changed
}

// before is some value from 0 to n-1.
func before(n *T) *T {
	d := 0
	for t := n; t.Op == "before"; t = t.A[0] {
		d++
	}
	if d > 2 || depth(n, "before") > 4 {
		return mkT(types.Typ[types.Int], "sym", "anyindex")
	}
	return mkT(types.Typ[types.Int], "before", "", n)
}

// depth is how deep terms with operator op are nested in t.
func depth(t *T, op string) int {
	d := 0
	for _, a := range t.A {
		if n := depth(a, op); n > d {
			d = n
		}
	}
	if t.Op == op {
		d++
	}
	return d
}

// reached: l says that k is not c.
func reached(l Cond, k *T) (c *T, ok bool) {
	if l.Pos || l.T.Op != "eqi" || l.T.N == nil || len(l.T.A) != 1 {
		return nil, false
	}
	d := Sub(l.T.A[0], BigInt(l.T.N))
	for _, c := range []*T{Sub(k, d), Add(k, d)} {
		if !c.Mentions(k) {
			return c, true
		}
	}
	return nil, false
}

// String renders a template (also its identity).
func (t Tmpl) String() string {
	r := fmt.Sprintf("%d=%d", t.Addr.ID, t.Val.ID)
	for i := range t.J {
		r += fmt.Sprintf(",%d<%d", t.J[i].ID, t.N[i].ID)
	}
	return r
}

// adaptVar revises the shape of one variable.
func (s *summary) adaptVar(v *LoopVar, run *bodyRun) bool {
	var next []*T
	for _, b := range run.backs {
		next = append(next, s.next(b.it, v))
	}
	allEq := func(t *T) bool {
		for _, n := range next {
			if n != t {
				return false
			}
		}
		return true
	}
	at := func(t *T, i *T) *T { return Subst(t, s.k, i) }
	ok := false
	switch v.Mode {
	case "inv":
		ok = allEq(v.Val)
	case "ind":
		ok = allEq(Add(v.Val, v.Step))
	case "from":
		ok = allEq(From(v.Val, v.Step))
	case "unfold":
		lo, n, j, body, tail, _ := repHead(v.Init)
		ok = allEq(Cat(RepFrom(Add(AddN(s.k, 1), lo), n, j, body), tail))
		if !ok {
			// the counter may not have its shape yet
			v.tries++
			if v.tries > 5 {
				v.Mode, v.Val = "probe", v.W
			}
			return true
		}
	case "coll", "cat", "lag", "sb", "nb":
		// the value one iteration later
		step := s.shape(v, run, next, v.Val)
		if v.Mode == "lag" {
			step = s.combine(run.backs, next)
			if step != nil && step.Mentions(v.Val) && !step.Mentions(v.W) && false {
				step = nil
			}
		}
		if step == v.Step && step != nil {
			ok = true
		} else if step != nil && !v.try[v.Mode+fmt.Sprint(step.ID)] {
			v.try[v.Mode+fmt.Sprint(step.ID)] = true
			v.Step = step
			s.setVal(v)
			return true
		}
	case "fin":
		return false
	case "w":
		if v.try["w"] {
			return false
		}
		ok = false
	case "probe":
		// recognise the shape
		mode, step := s.recognise(v, run, next)
		v.Mode, v.Step = mode, step
		if mode == "w" {
			v.try["w"] = true
		}
		v.try[mode] = true
		s.setVal(v)
		return true
	}
	_ = at
	if ok {
		return false
	}
	if v.Mode == "inv" {
		if _, _, _, _, _, rep := repHead(v.Init); rep {
			v.Mode = "unfold"
			s.setVal(v)
			return true
		}
		v.Mode, v.Val = "probe", v.W
		return true
	}
	// the recognised shape does not hold: finite or unknown
	if v.Mode != "fin" && !v.try["fin"] && isConst(v.Init) && s.finite(v, next) {
		v.try["fin"] = true
		v.Mode, v.Val = "fin", nil
		return true
	}
	s.demote(v)
	return true
}

func (s *summary) finite(v *LoopVar, next []*T) bool {
	for _, n := range next {
		if !isConst(n) && n != v.W && n != v.Val {
			return false
		}
	}
	return true
}

// shape extracts the template of coll and cat variables.
func (s *summary) shape(v *LoopVar, run *bodyRun, next []*T, cur *T) *T {
	var parts []*T
	if v.Mode == "sb" || v.Mode == "nb" {
		none := Mk("sb0", "")
		some := false
		for _, n := range next {
			b := none
			if n != cur {
				some = true
				if b = bitsAdded(v, n, cur); b == nil || b.Mentions(v.W) {
					return nil
				}
			}
			parts = append(parts, b)
		}
		if !some {
			return nil
		}
		return foldBits(s.combine(run.backs, parts))
	}
	for _, n := range next {
		switch {
		case v.Mode == "coll" && n.Op == "append" && len(n.A) == 2 && n.A[0] == cur && !n.A[1].Mentions(v.W):
			parts = append(parts, n.A[1])
		case v.Mode == "cat":
			b := catSuffix(n, cur)
			if b == nil || b.Mentions(v.W) {
				return nil
			}
			parts = append(parts, b)
		default:
			return nil
		}
	}
	return s.combine(run.backs, parts)
}

// bitsAdded is the set of bits in which n exceeds cur.
func bitsAdded(v *LoopVar, n, cur *T) *T {
	if v.Mode == "sb" {
		if n.Op == "sb" && n.A[0] == cur {
			return n.A[1]
		}
		return nil
	}
	one := func(m *T) *T {
		if m.Op == "cv" && m.A[0].Typ == nil {
			m = m.A[0]
		}
		if m.Op == "cv" {
			m = m.A[0]
		}
		if m.Op == "pow2" {
			return Mk("sb1", "", m.A[0], True)
		}
		if m.Op == "mul" && len(m.A) == 2 {
			for i := range m.A {
				p, b := m.A[i], m.A[1-i]
				if p.Op == "pow2" && (b.Op == "bit" || b.Op == "cbit") {
					return Mk("sb1", "", p.A[0], EqInt(b, Zero).Not().Term())
				}
			}
		}
		return nil
	}
	if n.Op == "or" && len(n.A) == 2 {
		for i := range n.A {
			if n.A[i] == cur {
				return one(n.A[1-i])
			}
		}
	}
	return nil
}

// foldBits turns a conditional set of bits into a set of conditional bits.
func foldBits(t *T) *T {
	if t == nil {
		return nil
	}
	switch t.Op {
	case "sb1", "sbrep", "sb0":
		return t
	case "ite":
		a, b := foldBits(t.A[1]), foldBits(t.A[2])
		if a == nil || b == nil {
			return nil
		}
		c := t.A[0]
		if a.Op == "sb0" {
			a, b, c = b, a, CondOf(c).Not().Term()
		}
		if b.Op == "sb0" && a.Op == "sb1" {
			if a.A[1] == True {
				return Mk("sb1", "", a.A[0], c)
			}
			return Mk("sb1", "", a.A[0], Mk("all", "", c, a.A[1]))
		}
	}
	return nil
}

// catSuffix returns the part of n after the prefix cur.
func catSuffix(n, cur *T) *T {
	a, b := CatParts(n), CatParts(cur)
	if len(a) <= len(b) {
		return nil
	}
	for i := range b {
		if a[i] == b[i] {
			continue
		}
		// constant parts may have been joined
		if i == len(b)-1 && a[i].Op == "str" && b[i].Op == "str" && strings.HasPrefix(a[i].S, b[i].S) {
			return Cat(append([]*T{Str(a[i].S[len(b[i].S):])}, a[i+1:]...)...)
		}
		return nil
	}
	return Cat(a[len(b):]...)
}

func (s *summary) recognise(v *LoopVar, run *bodyRun, next []*T) (string, *T) {
	isInt := false
	if v.Typ != nil {
		if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			isInt = true
		}
	}
	w := v.W
	if isInt || v.Typ == nil {
		d := Sub(next[0], w)
		same := true
		for _, n := range next {
			if Sub(n, w) != d {
				same = false
			}
		}
		if same && !d.Mentions(w) && !d.Mentions(s.k) && !s.mentionsW(d) {
			return "ind", d
		}
	}
	for _, m := range []string{"coll", "cat", "sb", "nb"} {
		v.Mode = m
		if m == "nb" && !isInt {
			continue
		}
		if m == "cat" && v.Typ != nil && !IsByteSlice(v.Typ) && v.Typ.String() != "bytes.Buffer" {
			continue
		}
		if st := s.shape(v, run, next, w); st != nil {
			return m, st
		}
	}
	// the rest of an input, shortened by the same number of bytes each time
	if from := next[0]; from.Op == "from" && from.A[0] == w {
		same := !from.A[1].Mentions(w) && !from.A[1].Mentions(s.k) && !s.mentionsW(from.A[1])
		for _, n := range next {
			same = same && n == from
		}
		if same {
			return "from", from.A[1]
		}
	}
	if isConst(v.Init) && s.finite(v, next) {
		return "fin", nil
	}
	lag := !s.fr.x.Cfg.Plain
	for _, n := range next {
		if n.Mentions(w) || n == w {
			lag = false
		}
	}
	if lag {
		if c := s.combine(run.backs, next); c != nil {
			return "lag", c
		}
	}
	return "w", nil
}

// repHead splits a byte string that starts with a repetition.
func repHead(t *T) (lo, n, j, body, tail *T, ok bool) {
	ps := CatParts(t)
	if len(ps) == 0 || ps[0].Op != "rep" {
		return
	}
	p := ps[0]
	lo = Zero
	if len(p.A) == 4 {
		lo, n, j, body = p.A[0], p.A[1], p.A[2], p.A[3]
	} else {
		n, j, body = p.A[0], p.A[1], p.A[2]
	}
	return lo, n, j, body, Cat(ps[1:]...), true
}

func (s *summary) mentionsW(t *T) bool {
	for _, v := range s.vars {
		if t.Mentions(v.W) {
			return true
		}
	}
	return false
}

// setVal computes the value at the head of iteration k from the shape.
func (s *summary) setVal(v *LoopVar) {
	switch v.Mode {
	case "ind":
		v.Val = Add(v.Init, Mul(v.Step, s.k))
	case "from":
		v.Val = From(v.Init, Mul(v.Step, s.k))
	case "unfold":
		lo, n, j, body, tail, _ := repHead(v.Init)
		v.Val = Cat(RepFrom(Add(s.k, lo), n, j, body), tail)
	case "coll":
		v.Val = mkT(v.Typ, "coll", "", v.Init, Subst(v.Step, s.k, s.j), s.k, s.j)
	case "cat":
		v.Val = Cat(v.Init, Rep(s.k, s.k, v.Step))
	case "sb":
		v.Val = Mk("sb", "", v.Init, Mk("sbrep", "", s.k, s.j, Subst(v.Step, s.k, s.j)))
	case "nb":
		v.Val = NBits(v.Typ, v.Init, Mk("sbrep", "", s.k, s.j, Subst(v.Step, s.k, s.j)))
	case "lag":
		v.Val = Ite(EqInt(s.k, Zero).Term(), v.Init, Subst(v.Step, s.k, AddN(s.k, -1)))
	case "fin":
		v.Val = nil
	default:
		v.Val = v.W
	}
}

// finish turns the exits of the body into states after the loop.
func (s *summary) finish(run *bodyRun) []exitT {
	fr, x := s.fr, s.fr.x
	if run == nil {
		return nil
	}
	rec := &Loop{ID: s.id, K: s.k, Fn: fr.fn, Ctx: fr.ctx, Pos: loopPos(s.l), Entry: s.it0.st, Hold: s.hold}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d", s.id, s.k.ID)
	for _, v := range s.vars {
		if v.Mode == "inv" {
			continue
		}
		rec.Vars = append(rec.Vars, v)
		fmt.Fprintf(&sb, "|%s %s %d", v.name, v.Mode, v.Init.ID)
		if v.Val != nil {
			fmt.Fprintf(&sb, "=%d", v.Val.ID)
		}
	}
	for _, b := range run.backs {
		t := &Trans{Lits: b.lits, Events: b.it.st.Events(), Next: map[*LoopVar]*T{}, From: run.vals[b.from], St: b.it.st}
		fmt.Fprintf(&sb, "|T%d", b.from)
		for _, l := range b.lits {
			fmt.Fprintf(&sb, ",%d%v", l.T.ID, l.Pos)
		}
		for _, e := range t.Events {
			fmt.Fprintf(&sb, ",%p", e)
		}
		for _, v := range rec.Vars {
			t.Next[v] = s.next(b.it, v)
			fmt.Fprintf(&sb, ",%d", t.Next[v].ID)
		}
		rec.Trans = append(rec.Trans, t)
	}
	rec.sig = sb.String()
	if o, ok := x.loopRecs[rec.sig]; ok {
		rec = o
	} else {
		x.loopRecs[rec.sig] = rec
	}
	if x.quiet == 0 {
		x.Loops = append(x.Loops, rec)
	}
	var out []exitT
	var own []*LoopVar
	for _, v := range s.vars {
		if v.Mode != "inv" {
			own = append(own, v)
		}
	}
	for i, e := range run.exits {
		fin := make([]*T, len(own))
		for j, v := range own {
			if v.Mode == "fin" {
				fin[j] = run.vals[run.from[i]][v]
			}
		}
		st := e.it.st
		evs := st.Events()
		st.trace = s.it0.st.trace
		n := s.count(st)
		cnt := s.k
		if n != nil {
			cnt = n
		}
		x.quiet++
		fr.emit(e.it, &Ev{Kind: "loop", Rec: rec, Args: []*T{s.k, cnt}, Pos: rec.Pos, Fin: fin})
		x.quiet--
		for _, ev := range evs {
			st.trace = &Trace{st.trace, ev, st.trace.N + 1}
		}
		if n != nil {
			if !substItem(e.it, s.k, n) {
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

func loopPos(l *loopT) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// count finds the number of iterations when the facts force it.
func (s *summary) count(st *State) *T {
	for _, l := range st.facts.lits {
		if l.T.Op != "le" && l.T.Op != "eqi" {
			continue
		}
		key := l.T.A[0]
		var co *big.Int
		if key == s.k {
			co = big.NewInt(1)
		} else if key.Op == "lin" {
			for i, a := range key.A {
				if a == s.k {
					co = key.Co[i]
				}
			}
		}
		if co == nil || !co.IsInt64() || (co.Int64() != 1 && co.Int64() != -1) {
			continue
		}
		r := st.facts.keyRange(key, 0)
		if r.Lo == nil || r.Hi == nil || r.Lo.Cmp(r.Hi) != 0 {
			continue
		}
		// key == lo  =>  k = ±(lo - rest)
		rest := Sub(key, Scale(s.k, co))
		n := Scale(Sub(BigInt(r.Lo), rest), co)
		if n.Mentions(s.k) {
			continue
		}
		return n
	}
	return nil
}

// substItem replaces a symbol in a whole state; false: infeasible.
func substItem(it *item, from, to *T) bool {
	m := map[*T]*T{from: to}
	st := it.st
	for v, t := range it.env {
		it.env[v] = subst(t, m)
	}
	for i, d := range it.defers {
		for j, a := range d.args {
			na := subst(a, m)
			if na != a {
				it.defers[i].args = append([]*T{}, it.defers[i].args...)
				it.defers[i].args[j] = na
			}
		}
	}
	return st.subst(m)
}

func (st *State) subst(m map[*T]*T) bool {
	mem := make(map[*T]*T, len(st.mem))
	for c, v := range st.mem {
		mem[subst(c, m)] = subst(v, m)
	}
	st.mem = mem
	stores := make(map[*T][]*T, len(st.stores))
	for b, is := range st.stores {
		nb := subst(b, m)
		for _, i := range is {
			stores[nb] = append(stores[nb], subst(i, m))
		}
	}
	st.stores = stores
	esc := make(map[*T]bool, len(st.esc))
	for c, v := range st.esc {
		esc[subst(c, m)] = v
	}
	st.esc = esc
	st.own = nil
	var ts []Tmpl
	for _, t := range st.tmpl {
		n := Tmpl{Addr: subst(t.Addr, m), Val: subst(t.Val, m)}
		for i := range t.J {
			n.J = append(n.J, subst(t.J[i], m))
			n.N = append(n.N, subst(t.N[i], m))
		}
		ts = append(ts, n)
	}
	st.tmpl = ts
	for i := range st.held {
		if nk := subst(st.held[i].Key, m); nk != st.held[i].Key {
			h := append([]Lock{}, st.held...)
			h[i].Key = nk
			st.held = h
		}
		if e := st.held[i].Epoch; e != nil && subst(e, m) != e {
			h := append([]Lock{}, st.held...)
			h[i].Epoch = subst(e, m)
			st.held = h
		}
	}
	if st.epoch != nil {
		st.epoch = subst(st.epoch, m)
	}
	f := newFacts()
	for _, l := range st.facts.lits {
		c := CondOf(subst(l.Term(), m))
		if !f.Assume(c) {
			return false
		}
	}
	st.facts = f
	return true
}
