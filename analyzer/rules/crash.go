package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// crash decides whether an operation can panic.
type crash struct {
	c       *Ctx
	g       *callGraph
	live    map[*ssa.Function]bool // what main can reach
	n       map[string]int
	never   map[string]string // field -> "" or why it may be nil
	asked   []string
	pending []pendingRisk
	params  map[*T]bool // taken to be there; the callers are checked
	cuts    map[*ssa.Function]bool
	called  map[string]bool
	results map[*ssa.Function]map[int]bool // results that are never nil
	limit   map[string]int64               // elements of a list handed over
	returns map[*ssa.Function][]Path
	seen    map[string]bool
	lib     *ssa.Function                // analysed on its own now
	parts   map[*ssa.Function]map[*T]int // parts of arguments that have to be there
}

type pendingRisk struct {
	st       *State
	kind     string
	t, bound *T
	in       ssa.Instruction
	why      string
}

// present: t is certainly not nil.
func (k *crash) present(st *State, t *T) (bool, string) {
	fs := st.Facts()
	if fs.Eval(eng.IsNil(t)) == 0 {
		return true, ""
	}
	switch t.Op {
	case "al", "glob", "clo", "fn", "mkmap", "mkchan", "hasher", "mkslice", "bufrd", "bufwr":
		return true, ""
	case "fa", "ia":
		return k.present(st, t.A[0])
	case "iface":
		if t.A[0].Typ == nil || t.A[0].Op == "al" {
			return true, ""
		}
		if _, ok := t.A[0].Typ.Underlying().(*types.Pointer); !ok || strings.HasPrefix(t.A[0].Op, "res") {
			return true, ""
		}
		return k.present(st, t.A[0])
	case "ite":
		for i, c := range []eng.Cond{eng.CondOf(t.A[0]), eng.CondOf(t.A[0]).Not()} {
			z := st.Fork()
			if !z.Assume(c) {
				continue
			}
			if ok, why := k.present(z, t.A[1+i]); !ok {
				return false, why
			}
		}
		return true, ""
	case "fld":
		b := t
		for b.Op == "fld" {
			b = b.A[0]
		}
		if b.Op == "call" {
			return true, "" // what a function of a library fills in
		}
		for _, f := range sortedFuncs(k.cuts) {
			i, ok := resultOf(b, f)
			if !ok {
				continue
			}
			k.library1(f)
			for _, p := range k.returns[f] {
				if i >= len(p.Res) {
					continue
				}
				v := eng.Simp(p.St.Facts(), eng.Subst(t, b, p.Res[i]))
				if v.Op == "ld" {
					return false, "a part of what " + eng.FuncName(f) + " returns"
				}
				lib := k.lib
				k.lib = f
				ok, why := k.present(p.St, v)
				k.lib = lib
				if !ok {
					return false, "what " + eng.FuncName(f) + " returns " + why
				}
			}
			return true, ""
		}
	case "call":
		if strings.HasPrefix(t.S, "net.") {
			return true, "" // the addresses of a connection
		}
	case "res":
		if strings.HasPrefix(t.S, "recv") {
			return true, "" // only messages are sent, C05
		}
		for f := range k.cuts {
			if i, ok := resultOf(t, f); ok {
				return k.library1(f)[i], eng.FuncName(f) + " may return nil"
			}
		}
	case "ld":
		u := eng.Unversioned(t)
		n, f := loadedField(u)
		if n != nil && !k.c.isRepoType(n) {
			return true, "" // values of the library are complete
		}
		if n != nil {
			why := k.neverNil(n, f)
			return why == "", why
		}
	case "mget":
		m := eng.Unversioned(t.A[0])
		n, f := loadedField(m)
		if n == nil || !k.c.isRepoType(n) {
			break
		}
		key := t.A[1]
		if key.Op != "mkey" && fs.Eval(eng.CondOf(eng.MkT(types.Typ[types.Bool], "mhas", t.S, t.A...))) != 1 {
			return false, "the key may not be in " + f
		}
		why := k.neverNil(n, f+"[]")
		return why == "", why
	}
	if k.params[t] {
		return true, ""
	}
	if t.Op == "fld" && k.lib != nil {
		// part of an argument: the callers are checked
		b := t
		for b.Op == "fld" {
			b = b.A[0]
		}
		for i, p := range eng.ParamSyms(k.lib) {
			if p == b {
				if k.parts[k.lib] == nil {
					k.parts[k.lib] = map[*T]int{}
				}
				k.parts[k.lib][t] = i
				return true, ""
			}
		}
	}
	return false, ""
}

// loadedField is the type and field a value was loaded from.
func loadedField(t *T) (*types.Named, string) {
	if t.Op != "ld" || t.A[0].Op != "fa" {
		return nil, ""
	}
	n := eng.OwnerType(t.A[0])
	if n == nil {
		if p, ok := t.A[0].A[0].Typ.(*types.Pointer); ok {
			n, _ = p.Elem().(*types.Named)
		}
	}
	if n == nil {
		return nil, ""
	}
	return n, t.A[0].S
}

func (c *Ctx) isRepoType(n *types.Named) bool {
	for _, p := range c.P.Packages() {
		if p.Pkg == n.Obj().Pkg() {
			return true
		}
	}
	return false
}

// neverNil: why field f of n may be nil ("" if it cannot); f[] stands for the
// values of a map field. Every function that makes an n or writes the field
// leaves a value there.
func (k *crash) neverNil(n *types.Named, f string) string {
	id := typeName(n) + "." + f
	if w, ok := k.never[id]; ok {
		return w
	}
	k.never[id] = "" // holds before, so what is loaded is there
	k.asked = append(k.asked, id)
	fs := k.writers(n, f)
	if len(fs) == 0 {
		k.never[id] = "nothing sets " + id
	}
	for _, w := range fs {
		if why := k.writes(w, n, f, map[*ssa.Function]bool{}); why != "" {
			k.never[id] = why
		}
	}
	return k.never[id]
}

func elemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// writers are the functions that make an n or write to its field.
func (k *crash) writers(n *types.Named, f string) []*ssa.Function {
	m := map[*ssa.Function]bool{}
	field := strings.TrimSuffix(f, "[]")
	for _, h := range k.c.P.Funcs {
		if !k.live[h] {
			continue
		}
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Alloc:
					if f == field && types.Identical(elemOf(i.Type()), n) {
						m[outermost(h)] = true
					}
				case *ssa.FieldAddr:
					st := elemOf(i.X.Type())
					if f == field && st != nil && types.Identical(st, n) && st.Underlying().(*types.Struct).Field(i.Field).Name() == field {
						for _, u := range *i.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == i || !onlyRead(u, i) {
								m[outermost(h)] = true
							}
						}
					}
				case *ssa.MapUpdate:
					if f != field && types.Identical(i.Map.Type(), eng.FieldType(n, field)) {
						m[outermost(h)] = true
					}
				}
			}
		}
	}
	return sortedFuncs(m)
}

// onlyRead: the instruction loads through the address.
func onlyRead(in ssa.Instruction, a ssa.Value) bool {
	switch i := in.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		return i.X == a
	}
	return false
}

// writes: why function w, or a function that hands it what it stores, may
// leave the field nil.
func (k *crash) writes(w *ssa.Function, n *types.Named, f string, seen map[*ssa.Function]bool) string {
	if seen[w] {
		return ""
	}
	seen[w] = true
	c := k.c
	field := strings.TrimSuffix(f, "[]")
	why := ""
	climb := false
	own := map[*T]bool{}
	for _, p := range eng.ParamSyms(w) {
		own[p] = true
	}
	var x *eng.Exec
	bad := func(st *State, what string, v *T) {
		ok, reason := k.present(st, v)
		if ok {
			return
		}
		if (v.Any(func(t *T) bool { return own[t] }) || what == "hands out") && len(k.callers(w)) > 0 {
			climb = true
			return
		}
		if why == "" {
			why = fmt.Sprintf("%s %s %v as %s.%s (%s)", eng.FuncName(w), what, cut(v), typeName(n), f, reason)
		}
	}
	part := k.helper(w)
	leaves := func(st *State, res []*T, live func(b *T) bool, end bool) {
		if f != field {
			return
		}
		for _, b := range x.Bases(st, n, res) {
			a := eng.FieldAddr(b, n, field)
			if eng.Root(b).Op == "al" {
				if live(b) {
					what := "leaves"
					if end && part && st.Owned(b) {
						what = "hands out" // to its callers, which complete it
					}
					bad(st, what, x.Load(st, a, eng.FieldType(n, field)))
				}
			} else if v, ok := x.Stored(st, a); ok {
				bad(st, "stores", v)
			}
		}
	}
	ws := k.writers(n, f)
	skip := map[*ssa.Function]bool{}
	// procedures that have nothing to do with the field are not entered
	unrelated := func(h *ssa.Function) bool {
		r, ok := skip[h]
		if !ok {
			r = h.Signature.Results().Len() == 0 && h.Parent() == nil
			down := k.g.down(h)
			for _, v := range ws {
				r = r && !down[v]
			}
			skip[h] = r
		}
		return r
	}
	// except the ones that fill in an object that is being made
	onNew := func(as []*T) bool {
		for _, a := range as {
			if eng.Root(a).Op == "al" && typeName(eng.Root(a).Typ) == "*"+typeName(n) {
				return true
			}
		}
		return false
	}
	x = c.Exec(eng.Config{Opaque: func(h *ssa.Function, as []*T) bool {
		return k.library(h) || dialOpaque(h, as) || unrelated(h) && !onNew(as)
	}, Devirt: c.sole, OnEvent: func(st *State, e *Ev) {
		if f != field && e.Kind == "mapset" {
			if m, mf := loadedField(eng.Unversioned(e.Args[0])); m == n && mf == field || e.Args[0].Op != "ld" && types.Identical(e.Args[0].Typ, eng.FieldType(n, field)) {
				bad(st, "stores", e.Args[2])
			}
		}
		if e.Kind == "go" {
			leaves(st, e.Args, func(b *T) bool { return reaches(x, st, e.Args, b) || !st.Owned(b) }, false)
		}
	}})
	ps := x.Run(w, nil)
	for _, p := range ps {
		if p.End == "return" {
			leaves(p.St, p.Res, func(b *T) bool { return reaches(x, p.St, p.Res, b) || !p.St.Owned(b) }, true)
		}
		walkEvents(p.St, p.St.Events(), func(st *State, _ []*Ev, e *Ev) {
			if st != p.St && e.Kind == "go" {
				leaves(st, e.Args, func(b *T) bool { return reaches(x, st, e.Args, b) || !st.Owned(b) }, false)
			}
		})
	}
	c.Done(x, ps)
	if climb && why == "" {
		for _, h := range k.callers(w) {
			if r := k.writes(h, n, f, seen); r != "" {
				return r
			}
		}
	}
	return why
}

// helper: f is only used through calls by other functions of its package.
func (k *crash) helper(f *ssa.Function) bool {
	if token.IsExported(f.Name()) || f.Name() == "main" || f.Name() == "init" {
		return false
	}
	for _, e := range k.g.in[f] {
		if ci, ok := e.in.(*ssa.Call); !ok || ci.Common().StaticCallee() != f {
			return false
		}
	}
	return true
}

func (k *crash) callers(w *ssa.Function) []*ssa.Function {
	m := map[*ssa.Function]bool{}
	for _, e := range k.g.in[w] {
		if k.live[e.from] {
			m[outermost(e.from)] = true
		}
	}
	delete(m, w)
	return sortedFuncs(m)
}

// reaches: one of the values leads to object b.
func reaches(x *eng.Exec, st *State, vs []*T, b *T) bool {
	for _, v := range vs {
		if v.Any(func(t *T) bool { return t == b }) {
			return true
		}
	}
	return false
}

// library: what is analysed on its own, with any arguments.
func (k *crash) library(f *ssa.Function) bool {
	n := f.Pkg
	if n == nil {
		return false
	}
	switch n.Pkg.Name() {
	case "cuckoo", "secp256k1zkp":
	default:
		if eng.FuncName(f) != "consensus.NextDifficulty" {
			return false
		}
	}
	if f.Parent() == nil {
		k.cuts[f] = true
	}
	return true
}

func (k *crash) risk(st *State, kind string, t, bound *T, in ssa.Instruction, ctx string) {
	fs := st.Facts()
	ok, why := false, ""
	switch kind {
	case "nil", "nilcall", "callnil", "nilmap", "recv":
		ok, why = k.present(st, t)
	case "index":
		ok = eng.ProveLe(fs, eng.Zero, t) && eng.ProveLt(fs, t, bound)
	case "slice":
		ok = eng.ProveLe(fs, eng.Zero, t) && eng.ProveLe(fs, t, bound)
	case "slicehi":
		ok = eng.ProveLe(fs, t, bound)
	case "make":
		ok = eng.ProveLe(fs, eng.Zero, t) && (eng.ProveLe(fs, t, eng.Int(maxMsg)) || eng.Lengths(t, maxMsg))
	case "div":
		ok = fs.Eval(eng.EqInt(t, eng.Zero)) == 0
	case "shift":
		ok = eng.ProveLe(fs, eng.Zero, t)
	}
	k.n[kind]++
	if ok {
		k.c.Must(true, kind, "", 0, "")
	} else {
		k.pending = append(k.pending, pendingRisk{st.Fork(), kind, t, bound, in, why})
	}
}

// settle decides what depends on the variables of loops.
func (k *crash) settle(x *eng.Exec) {
	ps := k.pending
	k.pending = nil
	for _, r := range ps {
		if k.inductive(x, r) {
			continue
		}
		if r.why == "" {
			r.why = "unproven"
		}
		k.c.Fail(r.kind, fmt.Sprintf("%s %s", eng.FuncName(r.in.Parent()), cut(r.t)), r.in.Pos(), "%s: %s may fail for %v (%s) when %s", eng.FuncName(r.in.Parent()), r.kind, r.t, r.why, lits(r.st))
	}
}

// inductive: the value of a loop variable is within bounds at the start and
// every way through the loop keeps it there.
func (k *crash) inductive(x *eng.Exec, r pendingRisk) bool {
	if r.kind == "nil" && r.t.Op == "ld" && r.t.A[0].Op == "ia" {
		// any element of the list will do
		base := r.t.A[0].A[0]
		i := eng.Sym("i!any")
		z := r.st.Fork()
		z.Assume(eng.Le(eng.Zero, i))
		z.Assume(eng.Lt(i, eng.Len(base)))
		v := x.Load(z, eng.ElemAddr(base, i, r.t.Typ), r.t.Typ)
		ok, _ := k.present(z, v)
		return ok
	}
	if r.kind != "index" {
		return false
	}
	for _, l := range x.Loops {
		for _, v := range l.Vars {
			if v.Val != r.t || r.bound.Mentions(l.K) {
				continue
			}
			in := func(fs *eng.Facts, t *T) bool { return eng.ProveLe(fs, eng.Zero, t) && eng.ProveLt(fs, t, r.bound) }
			ok := in(l.Entry.Facts(), v.Init)
			if !ok {
				ok = in(r.st.Facts(), v.Init)
			}
			for _, t := range l.Trans {
				nx := t.Next[v]
				ok = ok && nx != nil && (nx == v.Val || in(t.St.Facts(), nx))
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// ends: the analysed code returns.
func (k *crash) ends(what string, ps []Path) {
	for _, p := range ps {
		k.c.Must(p.End == "return", "ends", what, p.Pos, "%s can end in a %s: %s", what, p.End, lits(p.St))
	}
}

// event checks what is handed to the parts that are analysed on their own.
func (k *crash) event(st *State, e *Ev) {
	var fn *ssa.Function
	for f := range k.cuts {
		if eng.FuncName(f) == e.Name {
			fn = f
		}
	}
	if e.Kind != "call" || fn == nil {
		return
	}
	if !k.called[e.Name] && fn.Name() != "NextDifficulty" {
		k.library1(fn)
	}
	k.called[e.Name] = true
	ps := eng.ParamSyms(fn)
	for t, i := range k.parts[fn] {
		if i < len(e.Args) {
			v := eng.Simp(st.Facts(), eng.Subst(t, ps[i], e.Args[i]))
			ok, why := k.present(st, v)
			k.c.Must(ok, "argument", e.Name+" "+cut(v), e.Pos, "%s is called with %v, which may be nil (%s)", e.Name, v, why)
		}
	}
	sig := fn.Signature
	for i, a := range e.Args {
		t := a.Typ
		if j := i; sig.Recv() == nil && j < sig.Params().Len() {
			t = sig.Params().At(j).Type()
		}
		if t == nil {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Pointer:
			ok, why := k.present(st, a)
			k.c.Must(ok, "argument", e.Name+" "+cut(a), e.Pos, "%s is called with %v, which may be nil (%s)", e.Name, a, why)
		case *types.Slice:
			if n, ok := asked(st, a); ok {
				if n > k.limit[e.Name] {
					k.limit[e.Name] = n
				}
				continue
			}
			k.c.Must(eng.ProveLe(st.Facts(), eng.Len(a), eng.Int(maxMsg)), "argument", e.Name+" "+cut(a), e.Pos, "%s is called with %v, which is not bounded in size", e.Name, a)
		}
	}
}

// asked: the storage was asked for the blocks in list a, and for how many.
func asked(st *State, a *T) (int64, bool) {
	for _, e := range st.Events() {
		for _, r := range e.Res {
			if r == a && strings.HasPrefix(e.Name, "chain.Storage.") && len(e.Args) > 0 {
				return e.Args[len(e.Args)-1].Int64()
			}
		}
	}
	return 0, false
}

func runN11(c *Ctx) {
	k := &crash{results: map[*ssa.Function]map[int]bool{}, limit: map[string]int64{}, returns: map[*ssa.Function][]Path{}, seen: map[string]bool{}, parts: map[*ssa.Function]map[*T]int{}, c: c, g: c.callGraph(), n: map[string]int{}, never: map[string]string{}, cuts: map[*ssa.Function]bool{}, called: map[string]bool{}, params: map[*T]bool{}, live: map[*ssa.Function]bool{}}
	var work []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Name() == "main" || f.Name() == "init" {
			work = append(work, f)
			k.live[f] = true
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, e := range k.g.out[f] {
			if !k.live[e.to] {
				k.live[e.to] = true
				work = append(work, e.to)
			}
		}
	}
	k.messages()
	k.connection()
	k.libraries()
	for kind, n := range k.n {
		c.Cover[kind] = n
	}
	sort.Strings(k.asked)
	for _, a := range k.asked {
		c.Sample("never nil: %s %s", a, k.never[a])
	}
}

// messages: decoding any bytes, and handling what was decoded.
func (k *crash) messages() {
	c := k.c
	f := c.Method("p2p", "Syncer", "ProcessMessage")
	if f == nil {
		return
	}
	as := append([]*T{}, eng.ParamSyms(f)...)
	if len(as) != 3 {
		c.Fail("anchor", "ProcessMessage", f.Pos(), "ProcessMessage has %d parameters", len(as))
		return
	}
	k.params[as[0]], k.params[as[1]] = true, true
	for _, cd := range c.codecs() {
		eng.LenHook, eng.RangeHook = nil, nil
		x0 := c.Exec(eng.Config{OnRisk: k.risk, OnEvent: k.event, Devirt: c.sole})
		st := x0.Start()
		m := eng.NewObject("msg", cd.typ)
		r := eng.Sym("r")
		st.Assume(eng.IsNil(r).Not())
		ds := x0.RunIn(cd.read, []*T{m, r}, st)
		k.ends("decoding a "+cd.name, ds)
		k.settle(x0)
		c.Done(x0, ds)
		if cd.code == nil {
			continue
		}
		wellFormed()
		for _, d := range ds {
			if d.End != "return" || retErr(d) {
				continue
			}
			x1 := c.Exec(eng.Config{OnRisk: k.risk, OnEvent: k.event, Devirt: c.sole, Opaque: func(f *ssa.Function, _ []*T) bool { return k.library(f) }})
			as[2] = c.iface(m, cd.typ)
			ps := x1.RunIn(f, as, d.St)
			k.ends("handling a "+cd.name, ps)
			k.settle(x1)
			c.Done(x1, ps)
			for _, p := range ps {
				k.after(p.St, p.St.Events(), cd.name)
			}
		}
		eng.LenHook, eng.RangeHook = nil, nil
	}
}

// after: what a handler starts, and what it leaves to be sent.
func (k *crash) after(st *State, es []*Ev, name string) {
	walkEvents(st, es, func(st *State, _ []*Ev, e *Ev) {
		switch e.Kind {
		case "go":
			// the same goroutine on the same values is started on many paths
			key := name
			for _, a := range e.Args {
				key += " " + eng.Unversioned(a).String()
			}
			if k.seen[key] {
				return
			}
			k.seen[key] = true
			x := k.c.Exec(eng.Config{OnRisk: k.risk, OnEvent: k.event, Devirt: k.c.sole, Opaque: func(f *ssa.Function, _ []*T) bool { return k.library(f) }})
			ps := x.RunClosure(e.Args[0], e.Args[1:], st.Spawn(), "")
			k.ends("what handling a "+name+" starts", ps)
			k.settle(x)
			k.c.Done(x, ps)
			for _, p := range ps {
				k.after(p.St, p.St.Events(), name)
			}
		case "send":
			r, ok := sent(st, e)
			if !ok || r.typ == "" || r.typ == "p2p.PeerAddrs" || r.typ == "p2p.BlockHeaders" {
				return // C05 decides that the lists sent are within limits
			}
			k.c.Cover["replies"]++
			key := name + " " + r.typ + " " + eng.Unversioned(r.ptr).String()
			if k.seen[key] {
				return
			}
			k.seen[key] = true
			for _, cd := range k.c.codecs() {
				if cd.name == r.typ {
					k.encode(st, r.ptr, cd)
				}
			}
		}
	})
}

// encode writes message m out.
func (k *crash) encode(st *State, m *T, cd *codec) {
	if cd.bytes == nil {
		return
	}
	x := k.c.Exec(eng.Config{OnRisk: k.risk, OnEvent: k.event, Devirt: k.c.sole})
	ps := x.RunIn(cd.bytes, []*T{m}, st.Fork())
	k.ends("sending a "+cd.name, ps)
	k.settle(x)
	k.c.Done(x, ps)
}

// connection: the handshake, and the loops that serve a connection.
func (k *crash) connection() {
	c := k.c
	wellFormed()
	defer func() { eng.LenHook, eng.RangeHook = nil, nil }()
	// the handshakes that main can reach
	pt := c.Named("p2p", "Peer")
	if pt == nil {
		return
	}
	n := 0
	for _, f := range c.P.Funcs {
		res := f.Signature.Results()
		if !k.live[f] || f.Parent() != nil || res.Len() != 2 || typeName(res.At(0).Type()) != "*p2p.Peer" {
			continue
		}
		n++
		// what happens before the peer has said anything is not its doing
		said := func(st *State) bool {
			for _, e := range allEvents(st.Events()) {
				if e.Kind == "read" {
					return true
				}
			}
			return false
		}
		x := c.Exec(eng.Config{OnRisk: func(st *State, kind string, t, bound *T, in ssa.Instruction, ctx string) {
			if said(st) {
				k.risk(st, kind, t, bound, in, ctx)
			}
		}, OnEvent: k.event, Devirt: c.sole})
		for _, a := range eng.ParamSyms(f) {
			k.params[a] = true
		}
		ps := x.Run(f, nil)
		var after []Path
		for _, p := range ps {
			if said(p.St) {
				after = append(after, p)
			}
		}
		c.Floor("answers in "+eng.FuncName(f), len(after), 2)
		k.ends("connecting in "+eng.FuncName(f), after)
		k.settle(x)
		c.Done(x, ps)
	}
	c.Floor("functions that connect", n, 1)
	// the workers
	dec := c.decoders()
	start := c.Method("p2p", "Peer", "Start")
	handler := c.Method("p2p", "Syncer", "ProcessMessage")
	if start == nil || handler == nil {
		return
	}
	k.params[eng.ParamSyms(start)[0]] = true
	handled := 0
	n = c.eachWorker(eng.Config{OnRisk: k.risk, Devirt: c.sole, Opaque: func(f *ssa.Function, _ []*T) bool {
		n := eng.FuncName(f)
		return dec[n] != "" || f == handler || f.Name() == "Hash" && strings.HasPrefix(n, "consensus.")
	}, OnEvent: func(st *State, e *Ev) {
		if e.Kind != "call" || e.Name != eng.FuncName(handler) {
			return
		}
		handled++
		for _, a := range e.Args {
			ok, why := k.present(st, a)
			c.Must(ok, "argument", "ProcessMessage "+cut(a), e.Pos, "ProcessMessage is called with %v, which may be nil (%s)", a, why)
		}
	}}, nil, func(x *eng.Exec, p *T, e *Ev, ps []Path) {
		k.ends("the worker "+e.Name, ps)
		k.settle(x)
	})
	c.Floor("workers of a connection", n, 2)
	c.Floor("calls of ProcessMessage", handled, 5)
	// where they are started
	for _, w := range k.callers(start) {
		x := c.Exec(eng.Config{Opaque: func(f *ssa.Function, as []*T) bool { return f == start || dialOpaque(f, as) }, OnEvent: func(st *State, e *Ev) {
			if e.Kind == "call" && e.Name == eng.FuncName(start) {
				ok, why := k.present(st, e.Args[0])
				c.Must(ok, "argument", "Start "+cut(e.Args[0]), e.Pos, "Start is called on %v, which may be nil (%s)", e.Args[0], why)
			}
		}})
		c.Done(x, x.Run(w, nil))
	}
}

// libraries: what the handlers call, with any arguments.
func (k *crash) libraries() {
	for _, f := range sortedFuncs(k.cuts) {
		if k.called[eng.FuncName(f)] {
			k.library1(f)
		}
	}
}

// library1 analyses f with any arguments and tells which of its results are
// never nil.
func (k *crash) library1(f *ssa.Function) map[int]bool {
	if r, ok := k.results[f]; ok {
		return r
	}
	k.results[f] = map[int]bool{}
	c := k.c
	lh, rh := eng.LenHook, eng.RangeHook
	defer func() { eng.LenHook, eng.RangeHook = lh, rh }()
	eng.LenHook, eng.RangeHook = nil, nil
	later, lib := k.pending, k.lib
	defer func() { k.pending, k.lib = later, lib }()
	k.pending, k.lib = nil, f
	as := eng.ParamSyms(f)
	run := func(cfg eng.Config) (*eng.Exec, []Path) {
		cfg.OnRisk = k.risk
		x := c.Exec(cfg)
		st := x.Start()
		for _, a := range as {
			if a.Typ == nil {
				continue
			}
			switch a.Typ.Underlying().(type) {
			case *types.Pointer:
				k.params[a] = true
			case *types.Slice:
				st.Assume(eng.Le(eng.Len(a), eng.Int(maxMsg)))
			}
		}
		ps := x.RunIn(f, as, st)
		k.ends(eng.FuncName(f), ps)
		c.Done(x, ps)
		return x, ps
	}
	x, ps := run(eng.Config{Plain: true, Wild: func(a *T) bool { return a.Op == "fa" && strings.HasPrefix(a.S, "used") }})
	r := map[int]bool{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r[i] = true
		for _, p := range ps {
			if p.End == "return" && i < len(p.Res) {
				ok, _ := k.present(p.St, p.Res[i])
				r[i] = r[i] && ok
			}
		}
	}
	k.results[f] = r
	for _, p := range ps {
		if p.End == "return" {
			k.returns[f] = append(k.returns[f], p)
		}
	}
	n, ok := k.limit[eng.FuncName(f)]
	if len(k.pending) == 0 || !ok || n > 200 || len(as) != 1 {
		k.settle(x)
		return r
	}
	// one length after the other
	k.pending = nil
	for m := int64(0); m <= n; m++ {
		eng.LenHook = func(t *T) (int64, bool) { return m, t == as[0] }
		x, _ := run(eng.Config{Unroll: 400})
		k.settle(x)
	}
	c.Sample("%s with up to %d elements", eng.FuncName(f), n)
	return r
}

// resultOf: t is a result of a call of f.
func resultOf(t *T, f *ssa.Function) (int, bool) {
	name := eng.FuncName(f)
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if t.Op == "res" && (t.S == name || t.S == fmt.Sprintf("%s#%d", name, i)) {
			return i, true
		}
	}
	return 0, false
}

// sole is the method of the only type of the node that implements an
// interface. The storage stays abstract.
func (c *Ctx) sole(n *types.Named, method string, recv *T) *ssa.Function {
	if n.Obj().Name() == "Storage" {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r *ssa.Function
	for _, pkg := range c.P.Packages() {
		for _, m := range sortedKeys(pkg.Members) {
			t, ok := pkg.Members[m].(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), it) {
				continue
			}
			if r != nil {
				return nil
			}
			r = c.P.MethodOf(types.NewPointer(nt), method)
		}
	}
	return r
}

func init() {
	register("N11", "crash-freedom obligations at every dereference, index, slice, division, shift, assertion, allocation, map write and exit, discharged by path facts, length arithmetic and field invariants (abstract interpretation over SSA)",
		"Every codec is interpreted on an arbitrary byte stream; ProcessMessage, with its only implementations behind the interfaces, on every decoded state of every message; what it starts as goroutines; the encoding of what it sends; the handshakes once the peer has said something; and the worker loops of a connection. Each operation that can panic is an obligation: indices and slices are bounded by length arithmetic on the path, pointers are present by the path's facts, by how they were made, or by a field invariant every maker and writer in the program keeps. cuckoo, the signature code and the difficulty computation are analysed on their own for any arguments, their demands checked at each call. No path ends in a panic or a fatal log. Assumed: library functions do not panic on present arguments, the storage returns at most as many blocks as asked for, and those are complete", runN11)
}
