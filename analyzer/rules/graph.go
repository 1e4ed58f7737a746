package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// graph is one of the two variants of the verification graph.
type graph struct {
	typ    string
	hash   string // the keyed hash it uses
	verify *ssa.Function
	edge   *ssa.Function
}

func (c *Ctx) graphs() []graph {
	return []graph{
		{"Cuckoo", "siphash24", c.Method("cuckoo", "Cuckoo", "Verify"), c.Method("cuckoo", "Cuckoo", "NewEdge")},
		{"Cuckaroo", "siphashBlock", c.Method("cuckoo", "Cuckaroo", "Verify"), c.Method("cuckoo", "Cuckaroo", "NewEdge")},
	}
}

// hashed finds the value the hash returned for an argument, on one path.
func hashedAt(events []*Ev, name string, match func(args []*T) bool) []*T {
	var r []*T
	for _, e := range events {
		if e.Kind == "call" && e.Name == "cuckoo."+name && len(e.Res) == 1 && match(e.Args) {
			r = append(r, e.Res[0])
		}
	}
	return r
}

// endpoints checks that U and V are the endpoints of the edge of a nonce.
func (g graph) endpoints(st *State, recv *T, x *eng.Exec, nonce, mask, u, v *T, events []*Ev) string {
	rt := recv.Typ
	rv := recv
	if e, ok := derefOf(recv); ok {
		rt, rv = e, x.Load(st, recv, e)
	}
	key := fld(rv, rt, "v")
	find := func(arg *T) []*T {
		return hashedAt(events, g.hash, func(as []*T) bool {
			return len(as) == 2 && same(st, as[0], key) && same(st, as[1], arg)
		})
	}
	is := func(what string, got *T, hs []*T, want func(h *T) *T) string {
		for _, h := range hs {
			if same(st, got, want(h)) {
				return ""
			}
		}
		return fmt.Sprintf("%s is %v (hashes available: %v)", what, got, hs)
	}
	if g.typ == "Cuckoo" {
		m := fld(rv, rt, "mask")
		if r := is("U", u, find(eng.Mul(eng.Int(2), nonce)), func(h *T) *T { return eng.Mul(eng.Int(2), eng.And(h, m)) }); r != "" {
			return r
		}
		return is("V", v, find(eng.AddN(eng.Mul(eng.Int(2), nonce), 1)), func(h *T) *T {
			return eng.Or(eng.Mul(eng.Int(2), eng.And(h, m)), eng.Int(1))
		})
	}
	hs := find(nonce)
	if r := is("U", u, hs, func(h *T) *T { return eng.And(h, mask) }); r != "" {
		return r
	}
	return is("V", v, hs, func(h *T) *T { return eng.And(eng.Shr(h, eng.Int(32)), mask) })
}

// ---- V04 ----

func runV04(c *Ctx) {
	for _, g := range c.graphs() {
		if g.verify == nil {
			continue
		}
		c.verifyGraph(g)
	}
}

func (c *Ctx) verifyGraph(g graph) {
	f := g.verify
	what := g.typ + ".Verify"
	as := eng.ParamSyms(f)
	if !c.Must(len(as) == 3, "anchor", what, f.Pos(), "%s takes %d arguments", what, len(as)) {
		return
	}
	recv, list, size := as[0], as[1], as[2]
	cond := map[*T]string{} // result of the cycle check -> what is wrong with its argument
	var x *eng.Exec
	edgeFn := "cuckoo." + g.typ + ".NewEdge"
	type made struct{ args []*T }
	x = c.Exec(eng.Config{Opaque: opaque("cuckoo.findCycleLength", edgeFn, "cuckoo.siphash24", "cuckoo.siphashBlock"), OnEvent: func(st *State, e *Ev) {
		if e.Kind != "call" || e.Name != "cuckoo.findCycleLength" || len(e.Res) != 1 {
			return
		}
		cond[e.Res[0]] = c.edgesOf(g, x, st, recv, list, size, e.Args[0], edgeFn)
	}})
	ps := x.Run(f, as)
	n := eng.Len(list)
	nonce := func(st *State, i *T) *T {
		et := list.Typ.Underlying().(*types.Slice).Elem()
		return x.Load(st, eng.ElemAddr(list, i, et), et)
	}
	limit := func(st *State) *T {
		if g.typ == "Cuckoo" {
			rt, rv := recv.Typ, recv
			if e, ok := derefOf(recv); ok {
				rt, rv = e, x.Load(st, recv, e)
			}
			return eng.Quo(eng.Mul(size, fld(rv, rt, "size")), eng.Int(100))
		}
		return eng.Shl(eng.Int(1), size)
	}
	okN, badN := 0, 0
	for _, p := range ps {
		if !c.Must(p.End == "return", "returns", what, p.Pos, "%s ends in %s", what, p.End) {
			continue
		}
		boolCases(p, func(st *State, ok bool) {
			q := p
			q.St = st
			fs := st.Facts()
			// is the cycle check on the path, and what does it say
			cyc := -1
			bad := "the cycle check was not made"
			for _, e := range st.Events() {
				if e.Kind == "call" && e.Name == "cuckoo.findCycleLength" && len(e.Res) == 1 {
					bad = cond[e.Res[0]]
					if r := fs.Eval(eng.EqInt(e.Res[0], n)); r >= 0 && bad == "" {
						cyc = r
					}
				}
			}
			if ok {
				okN++
				c.Must(fs.Eval(eng.EqInt(n, eng.Zero)) == 0, "accepts-only", what+" empty", p.Pos, "%s may accept an empty proof: %s", what, lits(st))
				c.Must(cyc == 1, "accepts-only", what+" cycle", p.Pos, "%s accepts without the edges of all nonces forming one cycle: %s (%s)", what, bad, lits(st))
				c.Must(everyElement(q, list, func(s *State, known []Cond, i *T) bool {
					return s.Facts().Eval(eng.Lt(nonce(s, i), limit(s))) == 1
				}), "accepts-only", what+" range", p.Pos, "%s accepts without every nonce having been found in range", what)
				inc := everyElement(q, list, func(s *State, known []Cond, i *T) bool {
					ff := s.Facts()
					return ff.Eval(eng.EqInt(i, eng.Zero)) == 1 || ff.Eval(eng.Lt(nonce(s, eng.AddN(i, -1)), nonce(s, i))) == 1
				}) || everyElement(q, list, func(s *State, known []Cond, i *T) bool {
					ff := s.Facts()
					return ff.Eval(eng.EqInt(eng.AddN(i, 1), n)) == 1 || ff.Eval(eng.Lt(nonce(s, i), nonce(s, eng.AddN(i, 1)))) == 1
				})
				c.Must(inc, "accepts-only", what+" order", p.Pos, "%s accepts without the nonces having been found strictly increasing", what)
				return
			}
			badN++
			wrong := fs.Eval(eng.EqInt(n, eng.Zero)) == 1 || cyc == 0
			some := func(s *State, known []Cond) bool {
				ff := s.Facts()
				for _, i := range positions(known, list) {
					if ff.Eval(eng.Lt(nonce(s, i), limit(s))) == 0 {
						return true
					}
					for _, j := range []*T{eng.AddN(i, -1), eng.AddN(i, 1)} {
						a, b := j, i
						if j != eng.AddN(i, -1) {
							a, b = i, j
						}
						if ff.Eval(eng.Lt(nonce(s, a), nonce(s, b))) == 0 && ff.Eval(eng.Le(eng.Zero, a)) == 1 && ff.Eval(eng.Lt(b, n)) == 1 {
							return true
						}
					}
				}
				return false
			}
			wrong = wrong || some(st, st.Lits()) || someElement(q, some)
			c.Must(wrong, "refuses-only", what+" "+c.P.Pos(p.Pos), p.Pos, "%s refuses a proof although nothing is wrong with it: %s", what, lits(st))
		})
	}
	c.Must(okN > 0 && badN > 0, "instances", what, f.Pos(), "%d accepting, %d refusing cases", okN, badN)
	c.Sample("%s: %d accepting, %d refusing cases", what, okN, badN)
	c.Done(x, ps)
}

// edgesOf: the list handed to the cycle check holds, at each position, a
// fresh edge of the nonce at that position.
func (c *Ctx) edgesOf(g graph, x *eng.Exec, st *State, recv, list, size, edges *T, edgeFn string) string {
	n := eng.Len(list)
	if st.Facts().Eval(eng.EqInt(eng.Len(edges), n)) != 1 {
		return fmt.Sprintf("%v edges are checked for %v nonces", eng.Len(edges), n)
	}
	i := eng.SymT("position", types.Typ[types.Int])
	s := st.Fork()
	s.Assume(eng.Le(eng.Zero, i))
	s.Assume(eng.Lt(i, n))
	if edges.Typ == nil {
		return fmt.Sprintf("the edges %v have no type", edges)
	}
	et := edges.Typ.Underlying().(*types.Slice).Elem()
	e := x.Load(s, eng.ElemAddr(edges, i, et), et)
	lt := list.Typ.Underlying().(*types.Slice).Elem()
	nonce := x.Load(s, eng.ElemAddr(list, i, lt), lt)
	mask := eng.AddN(eng.Shl(eng.Int(1), size), -1)
	if e.Op == "res" && e.S == edgeFn {
		as := e.A[1:]
		if !same(s, as[0], recv) || !same(s, as[1], nonce) {
			return fmt.Sprintf("edge i is made from %v, not from nonce i", as)
		}
		if g.typ == "Cuckaroo" && !same(s, as[2], mask) {
			return fmt.Sprintf("edge i is made with mask %v", as[2])
		}
		return ""
	}
	if e.Op != "al" {
		return fmt.Sprintf("edge i is %v, not a fresh edge of nonce i", e)
	}
	pt := et.Underlying().(*types.Pointer).Elem()
	get := func(n string) *T {
		ft := eng.FieldType(pt, n)
		return x.Load(s, eng.FieldAddr(e, pt, n), ft)
	}
	if fs := s.Facts(); fs.Eval(eng.CondOf(get("usedU"))) != 0 || fs.Eval(eng.CondOf(get("usedV"))) != 0 {
		return "edge i may be marked as used from the beginning"
	}
	// the hash values of iteration i
	var evs []*Ev
	for _, ev := range st.Events() {
		if ev.Kind != "loop" || ev.Rec == nil {
			continue
		}
		for _, t := range ev.Rec.Trans {
			for _, ie := range t.Events {
				if ie.Kind != "call" {
					continue
				}
				n := *ie
				n.Args, n.Res = nil, nil
				for _, a := range ie.Args {
					n.Args = append(n.Args, eng.Subst(a, ev.Rec.K, i))
				}
				for _, a := range ie.Res {
					n.Res = append(n.Res, eng.Subst(a, ev.Rec.K, i))
				}
				evs = append(evs, &n)
			}
		}
	}
	return g.endpoints(s, recv, x, nonce, mask, get("U"), get("V"), evs)
}

// ---- V05 ----

// trail describes the walk along the edges.
type trail struct {
	c     *Ctx
	x     *eng.Exec
	edges *T
	et    types.Type // Edge
	n     int
}

func runV05(c *Ctx) {
	f := c.Func("cuckoo", "findCycleLength")
	et := c.Named("cuckoo", "Edge")
	if f == nil || et == nil {
		return
	}
	used := map[string]bool{"usedU": true, "usedV": true}
	x := c.Exec(eng.Config{Plain: true, Wild: func(a *T) bool { return a.Op == "fa" && used[a.S] }})
	as := eng.ParamSyms(f)
	ps := x.Run(f, as)
	w := &trail{c: c, x: x, edges: as[0], et: et}
	walks, refusals := 0, 0
	for _, p := range ps {
		if !c.Must(p.End == "return" && len(p.Res) == 1, "returns", "findCycleLength", p.Pos, "ends in %s", p.End) {
			continue
		}
		r := p.Res[0]
		if v, ok := r.Int64(); ok {
			if !c.Must(v <= 0, "length", "constant", p.Pos, "a cycle of constant length %d is reported", v) {
				continue
			}
			if w.walkEvent(p) == nil {
				refusals++
				c.Must(w.crowded(p) || p.St.Facts().Eval(eng.EqInt(eng.Len(w.edges), eng.Zero)) == 1, "refuses-only", "degree", p.Pos, "the edges are refused before walking although no vertex is known to belong to more than two of them: %s", lits(p.St))
				continue
			}
		}
		e := w.walkEvent(p)
		if !c.Must(e != nil, "walk", "findCycleLength", p.Pos, "the length %v does not come from a walk along the edges", r) {
			continue
		}
		walks++
		w.check(p, e, r)
		for _, s := range []string{"U", "V"} {
			c.Must(w.sparse(p, s), "degree", s, p.Pos, "a cycle is reported without every %s vertex having been found to belong to at most two edges", s)
		}
	}
	c.Floor("ways the walk ends", walks, 1)
	c.Floor("refusals for crowded vertices", refusals, 1)
	c.Floor("steps of the walk", w.n, 2)
	c.Done(x, ps)
}

// walkEvent is the loop that marks edges.
func (w *trail) walkEvent(p Path) *Ev {
	var r *Ev
	for _, e := range p.St.Events() {
		if e.Kind != "loop" || e.Rec == nil {
			continue
		}
		for _, t := range e.Rec.Trans {
			for _, s := range t.Events {
				if s.Kind == "store" {
					r = e
				}
			}
		}
	}
	return r
}

func (w *trail) field(st *State, p *T, n string) *T {
	ft := eng.FieldType(w.et, n)
	return w.x.Load(st, eng.FieldAddr(p, w.et, n), ft)
}

type step struct {
	t    *eng.Trans
	side string
	v    *eng.LoopVar
}

// check: every way through the body of the walk is one legal step, the walk
// ends only where no step is possible, and what it reports is the number of
// steps.
func (w *trail) check(p Path, e *Ev, res *T) {
	c, l := w.c, e.Rec
	// the counter
	var cnt *eng.LoopVar
	for _, v := range l.Vars {
		if v.Val != nil && eng.Subst(v.Val, l.K, e.Args[1]) == res {
			cnt = v
		}
	}
	if !c.Must(cnt != nil && cnt.Init == eng.Zero, "length", "counter", p.Pos, "the reported length %v is not a count of the steps from zero", res) {
		return
	}
	var steps []step
	var idle []*eng.Trans // the walk has ended; the loop is left next
	for _, t := range l.Trans {
		fs := t.St.Facts()
		key := c.P.Pos(l.Pos)
		if t.Next[cnt] == cnt.Val && w.idle(l, t) {
			idle = append(idle, t)
			continue
		}
		c.Must(same(t.St, t.Next[cnt], eng.AddN(cnt.Val, 1)), "length", "step "+key, l.Pos, "a step changes the length from %v to %v", cnt.Val, t.Next[cnt])
		var marks []*T
		for _, s := range t.Events {
			if s.Kind == "store" {
				if !c.Must(s.Args[1] == eng.True, "marks", "value", s.Pos, "a used mark is set to %v", s.Args[1]) {
					continue
				}
				marks = append(marks, s.Args[0])
			}
		}
		if !c.Must(len(marks) > 0, "marks", "none", l.Pos, "a step marks nothing as used") {
			continue
		}
		flag := marks[0].S
		side := strings.TrimPrefix(flag, "used")
		// the current edge and the next one
		var cur *eng.LoopVar
		var from, to *T
		for _, v := range l.Vars {
			if v.Val == nil || v == cnt {
				continue
			}
			nx := t.Next[v]
			if nx == nil || nx == v.Val {
				continue
			}
			for _, m := range marks {
				b := m.A[0]
				if !b.Mentions(v.Val) {
					continue
				}
				b2 := eng.Subst(b, v.Val, nx)
				for _, m2 := range marks {
					if m2.A[0] == b2 || same(t.St, m2.A[0], b2) {
						cur, from, to = v, b, m2.A[0]
					}
				}
			}
		}
		if !c.Must(cur != nil, "step", "marks "+side, l.Pos, "a step on side %s does not mark both the edge it leaves and the one it reaches, or does not go there (marks %v)", side, marks) {
			continue
		}
		for _, m := range marks {
			c.Must(m.S == flag && (m.A[0] == from || m.A[0] == to), "marks", "other "+side, l.Pos, "a step on side %s also marks %v", side, m)
		}
		c.Must(fs.Eval(eng.EqInt(cur.Val, t.Next[cur])) == 0 || fs.Eval(eng.Eq(from, to)) == 0, "step", "different "+side, l.Pos, "a step on side %s may stay on the same edge: %s", side, condText(t.Lits))
		c.Must(fs.Eval(eng.EqInt(w.field(t.St, from, side), w.field(t.St, to, side))) == 1, "step", "shared "+side, l.Pos, "a step on side %s does not require the edges to share that vertex: %s", side, condText(t.Lits))
		unused := false
		for _, k := range t.St.Lits() {
			if k.T.Op == "wild" && !k.Pos && k.T.A[0].S == flag && (k.T.A[0].A[0] == to || same(t.St, k.T.A[0].A[0], to)) {
				unused = true
			}
		}
		c.Must(unused, "step", "unused "+side, l.Pos, "a step on side %s does not require that side of the reached edge to be unused: %s", side, condText(t.Lits))
		init := from
		if cur.Init != nil {
			init = eng.Subst(from, cur.Val, cur.Init)
		}
		c.Must(w.isEdge(p.St, init), "step", "start", l.Pos, "the walk starts at %v, not at one of the edges", init)
		steps = append(steps, step{t, side, cur})
	}
	w.n += len(steps)
	// sides alternate
	for _, a := range steps {
		for _, b := range steps {
			if a.side == b.side && w.follows(l, a.t, b.t) {
				c.Fail("alternate", a.side, l.Pos, "two steps in a row can use side %s", a.side)
			} else {
				c.Obl++
				c.Disch++
			}
		}
	}
	sides := map[string]bool{}
	for _, s := range steps {
		sides[s.side] = true
	}
	c.Must(sides["U"] && sides["V"], "alternate", "both", l.Pos, "the walk does not use both sides")
	// the end: the search over all edges found none
	if len(idle) > 0 && w.after(p, e, idle, steps) {
		for _, t := range idle {
			w.ends(t.St, t.Events, nil, l, steps, l.Pos)
		}
		return
	}
	w.ends(p.St, p.St.Events(), e, l, steps, p.Pos)
}

// idle: an iteration that changes nothing, after which there is no other one.
func (w *trail) idle(l *eng.Loop, t *eng.Trans) bool {
	for _, s := range t.Events {
		if s.Kind == "store" {
			return false
		}
	}
	for _, b := range l.Trans {
		if w.follows(l, t, b) {
			return false
		}
	}
	return true
}

// after: the path leaves the walk only after an idle iteration.
func (w *trail) after(p Path, e *Ev, idle []*eng.Trans, steps []step) bool {
	for i, v := range e.Rec.Vars {
		if v.Mode != "fin" || i >= len(e.Fin) || e.Fin[i] == nil || e.Fin[i] == v.Init {
			continue
		}
		ok := true
		for _, s := range steps {
			ok = ok && s.t.Next[v] != e.Fin[i] && s.t.Next[v] != nil
		}
		for _, t := range idle {
			ok = ok && t.Next[v] == e.Fin[i]
		}
		if ok {
			return true
		}
	}
	return false
}

// ends: where the walk ends, no step is possible.
func (w *trail) ends(st *State, events []*Ev, e *Ev, l *eng.Loop, steps []step, pos token.Pos) {
	why := "no search over all the edges"
	alive, ended := 0, true
	for _, s := range steps {
		if w.dead(st, e, l, s.t) {
			continue
		}
		alive++
		from := w.current(s, l)
		found := false
		for _, ev := range events {
			if ev.Kind != "loop" || ev.Rec == nil || ev == e || from == nil {
				continue
			}
			if st.Facts().Eval(eng.EqInt(ev.Args[1], eng.Len(w.edges))) != 1 || len(ev.Rec.Trans) == 0 {
				continue
			}
			ok := true
			for _, t := range ev.Rec.Trans {
				if !w.dead(t.St, nil, l, s.t) && !w.noStep(t, ev.Rec, from, s.side) {
					ok = false
					why = fmt.Sprintf("the search on side %s passes over an edge that would do: %s", s.side, condText(t.Lits))
				}
			}
			found = found || ok
		}
		ended = ended && found
	}
	w.c.Must(ended && alive > 0, "ends-only", "walk", pos, "the walk can end although another edge could be reached: %s", why)
}

// dead: it is not the turn of step t.
func (w *trail) dead(st *State, e *Ev, l *eng.Loop, t *eng.Trans) bool {
	for _, c := range t.Lits {
		if !c.T.Mentions(w.edges) && st.Facts().Eval(c) == 0 {
			return true
		}
	}
	if pt, ps := parity(t.Lits, l.K), parity(st.Lits(), l.K); pt >= 0 && ps >= 0 && pt != ps {
		return true
	}
	if e != nil {
		for i, v := range l.Vars {
			if v.Mode == "fin" && t.From[v] != nil && i < len(e.Fin) && e.Fin[i] != nil && e.Fin[i] != t.From[v] {
				return true
			}
		}
	}
	return false
}

func condText(ls []Cond) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.String())
	}
	r := strings.Join(s, " ∧ ")
	if len(r) > 400 {
		r = r[:400]
	}
	return r
}

// isEdge: p is an element of the list.
func (w *trail) isEdge(st *State, p *T) bool {
	q := p
	if q.Op == "ld" {
		q = q.A[0]
	}
	return q.Op == "ia" && q.A[0] == w.edges
}

// current is the edge a step leaves.
func (w *trail) current(s step, l *eng.Loop) *T {
	for _, ev := range s.t.Events {
		if ev.Kind == "store" && ev.Args[0].A[0].Mentions(s.v.Val) {
			return ev.Args[0].A[0]
		}
	}
	return nil
}

// noStep: an iteration of the search that goes on has found the edge at hand
// unfit.
func (w *trail) noStep(t *eng.Trans, l *eng.Loop, from *T, side string) bool {
	fs := t.St.Facts()
	et := w.edges.Typ.Underlying().(*types.Slice).Elem()
	for _, i := range []*T{l.K, eng.AddN(eng.Sub(eng.Len(w.edges), l.K), -1)} {
		to := w.x.Load(t.St, eng.ElemAddr(w.edges, i, et), et)
		if fs.Eval(eng.EqInt(w.field(t.St, from, side), w.field(t.St, to, side))) == 0 || fs.Eval(eng.Eq(from, to)) == 1 {
			return true
		}
		// the same position
		if q := from; q.Op == "ld" && q.A[0].Op == "ia" && q.A[0].A[0] == w.edges && fs.Eval(eng.EqInt(q.A[0].A[1], i)) == 1 {
			return true
		}
		for _, k := range t.St.Lits() {
			if k.T.Op == "wild" && k.Pos && k.T.A[0].S == "used"+side && same(t.St, k.T.A[0].A[0], to) {
				return true
			}
		}
	}
	return false
}

// follows: step b can come right after step a.
func (w *trail) follows(l *eng.Loop, a, b *eng.Trans) bool {
	for _, v := range l.Vars {
		if v.Mode == "fin" {
			if f, n := b.From[v], a.Next[v]; f != nil && n != nil && f != n {
				return false
			}
		}
	}
	// a switch that was thrown
	for _, c := range b.Lits {
		// what b found belongs to its own iteration
		later := eng.AddN(l.K, 1)
		n := eng.Subst(c.Term(), l.K, later)
		for _, v := range l.Vars {
			if v.Mode == "w" && v.Val != nil && a.Next[v] != nil {
				n = eng.Subst(n, eng.Subst(v.Val, l.K, later), a.Next[v])
			}
		}
		if n != c.Term() && !n.Mentions(w.edges) && a.St.Facts().Eval(eng.CondOf(n)) == 0 {
			return false
		}
	}
	// parity of a counter
	for _, v := range l.Vars {
		if v.Mode == "w" && v.Val != nil && a.Next[v] == eng.AddN(v.Val, 1) {
			if pa, pb := parity(a.Lits, v.Val), parity(b.Lits, v.Val); pa >= 0 && pa == pb {
				return false
			}
		}
	}
	pa, pb := parity(a.Lits, l.K), parity(b.Lits, l.K)
	return !(pa >= 0 && pa == pb)
}

// parity of the iteration a condition requires: 0, 1 or -1.
func parity(ls []Cond, k *T) int {
	bit := eng.Bit(k, eng.Int(0))
	odd := eng.EqInt(bit, eng.Zero)
	for _, l := range ls {
		if l.T == odd.T {
			if l.Pos == odd.Pos {
				return 0
			}
			return 1
		}
		if r := eng.EqInt(eng.Rem(k, eng.Int(2)), eng.Zero); l.T == r.T {
			if l.Pos == r.Pos {
				return 0
			}
			return 1
		}
		for v := int64(0); v < 2; v++ {
			for _, t := range []*T{bit, eng.Rem(k, eng.Int(2))} {
				if r := eng.EqInt(t, eng.Int(v)); l.T == r.T {
					if l.Pos == r.Pos {
						return int(v)
					}
					return int(1 - v)
				}
			}
		}
	}
	return -1
}

// counts: in loop e over all edges, v counts those that share vertex s with
// the edge at position m; self reports whether m itself is counted.
func (w *trail) counts(e *Ev, v *eng.LoopVar, m *T, s string) (self, ok bool) {
	self = true
	if v.Mode != "w" || v.Init != eng.Zero || len(e.Rec.Trans) == 0 {
		return
	}
	et := w.edges.Typ.Underlying().(*types.Slice).Elem()
	for _, t := range e.Rec.Trans {
		fs := t.St.Facts()
		good := false
		for _, i := range []*T{e.Rec.K, eng.AddN(eng.Sub(eng.Len(w.edges), e.Rec.K), -1)} {
			a := w.x.Load(t.St, eng.ElemAddr(w.edges, i, et), et)
			b := w.x.Load(t.St, eng.ElemAddr(w.edges, m, et), et)
			want := v.Val
			switch {
			case fs.Eval(eng.EqInt(i, m)) == 1 && t.Next[v] == v.Val:
				self = false
			case fs.Eval(eng.EqInt(w.field(t.St, a, s), w.field(t.St, b, s))) == 1:
				want = eng.AddN(v.Val, 1)
			case fs.Eval(eng.EqInt(w.field(t.St, a, s), w.field(t.St, b, s))) == 0:
			default:
				continue
			}
			good = good || same(t.St, t.Next[v], want)
		}
		if !good {
			return self, false
		}
	}
	return self, true
}

// sparse: every vertex on side s was found to belong to at most two edges.
func (w *trail) sparse(p Path, s string) bool {
	return everyElement(p, w.edges, func(st *State, known []Cond, m *T) bool {
		for _, e := range st.Events() {
			if e.Kind != "loop" || e.Rec == nil || st.Facts().Eval(eng.EqInt(e.Args[1], eng.Len(w.edges))) != 1 {
				continue
			}
			for _, v := range e.Rec.Vars {
				self, ok := w.counts(e, v, m, s)
				if !ok {
					continue
				}
				max := int64(2)
				if !self {
					max = 1
				}
				end := eng.Subst(v.Val, e.Rec.K, e.Args[1])
				if st.Facts().Eval(eng.Le(end, eng.Int(max))) == 1 {
					return true
				}
				all := true
				for _, t := range e.Rec.Trans {
					if t.Next[v] != v.Val && t.St.Facts().Eval(eng.Le(t.Next[v], eng.Int(max))) != 1 {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
		return false
	})
}

// crowded: some vertex was found to belong to more than two edges.
func (w *trail) crowded(p Path) bool {
	fs := p.St.Facts()
	for _, e := range p.St.Events() {
		if e.Kind != "loop" || e.Rec == nil {
			continue
		}
		for _, o := range p.St.Events() {
			if o.Kind != "loop" || o.Rec == nil || o == e {
				continue
			}
			for _, m := range []*T{o.Rec.K, eng.AddN(eng.Sub(eng.Len(w.edges), o.Rec.K), -1)} {
				for _, v := range e.Rec.Vars {
					for _, s := range []string{"U", "V"} {
						self, ok := w.counts(e, v, m, s)
						if !ok {
							continue
						}
						max := int64(2)
						if !self {
							max = 1
						}
						end := eng.Subst(v.Val, e.Rec.K, e.Args[1])
						if fs.Eval(eng.Lt(eng.Int(max), end)) == 1 {
							return true
						}
						// the search stopped at one more
						et := w.edges.Typ.Underlying().(*types.Slice).Elem()
						a := w.x.Load(p.St, eng.ElemAddr(w.edges, e.Args[1], et), et)
						b := w.x.Load(p.St, eng.ElemAddr(w.edges, m, et), et)
						if fs.Eval(eng.EqInt(w.field(p.St, a, s), w.field(p.St, b, s))) == 1 && fs.Eval(eng.Lt(eng.Int(max), eng.AddN(end, 1))) == 1 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("V04", "exact accept/refuse conditions over all paths with loop summaries (abstract interpretation over SSA)",
		"Both Verify methods are interpreted on an arbitrary proof with the cycle check as an unknown function; an accepting case must carry a non-empty proof, every nonce below the number of edges, strictly increasing nonces, and the cycle check of exactly the edges of these nonces returning their number; each refusing case must contradict one of these.", runV04,
		"V05 decides what the cycle check counts, V17 what the edge of a nonce is; products of 64-bit numbers do not overflow")
	register("V05", "inductive step analysis of the walk: every way through the loop body is checked as one legal step (abstract interpretation over SSA)",
		"From an arbitrary state of the walk, each way through the loop body must leave the current edge for a different one sharing the vertex of the side whose turn it is, with that side of the reached edge unused, must mark this side of both, and count one; sides must alternate; the walk may end only where the search over all edges found none; and it must be preceded by a count showing that every vertex belongs to at most two edges.", runV05)
}

// ---- V17 ----

// sip is the reference: one SipHash-2-4 block on state v.
func sip(v [4]*T, nonce *T) [4]*T {
	v[3] = eng.Xor(v[3], nonce)
	round := func() {
		v[0] = eng.Add(v[0], v[1])
		v[2] = eng.Add(v[2], v[3])
		v[1] = eng.RotL(v[1], 13)
		v[3] = eng.RotL(v[3], 16)
		v[1] = eng.Xor(v[1], v[0])
		v[3] = eng.Xor(v[3], v[2])
		v[0] = eng.RotL(v[0], 32)
		v[2] = eng.Add(v[2], v[1])
		v[0] = eng.Add(v[0], v[3])
		v[1] = eng.RotL(v[1], 17)
		v[3] = eng.RotL(v[3], 21)
		v[1] = eng.Xor(v[1], v[2])
		v[3] = eng.Xor(v[3], v[0])
		v[2] = eng.RotL(v[2], 32)
	}
	round()
	round()
	v[0] = eng.Xor(v[0], nonce)
	v[2] = eng.Xor(v[2], eng.Int(0xff))
	for i := 0; i < 4; i++ {
		round()
	}
	return v
}

func sipSum(v [4]*T) *T { return eng.Xor(eng.Xor(v[0], v[1]), eng.Xor(v[2], v[3])) }

func runV17(c *Ctx) {
	u64 := types.Typ[types.Uint64]
	key := func() (*T, [4]*T) {
		var v [4]*T
		arr := eng.T{Op: "arr", Typ: types.NewArray(u64, 4)}
		for i := range v {
			v[i] = eng.SymT(fmt.Sprintf("key%d", i), u64)
			arr.A = append(arr.A, v[i])
		}
		return eng.MkT(arr.Typ, "arr", "", arr.A...), v
	}
	if f := c.Func("cuckoo", "siphash24"); f != nil {
		x := c.Exec(eng.Config{})
		k, v := key()
		n := eng.SymT("nonce", u64)
		ps := x.Run(f, []*T{k, n})
		for _, p := range ps {
			ok := p.End == "return" && len(p.Res) == 1 && p.Res[0] == sipSum(sip(v, n))
			c.Must(ok, "hash", "siphash24", p.Pos, "siphash24 is not SipHash-2-4 of one word (%s)", p.End)
		}
		c.Must(len(ps) > 0, "hash", "siphash24", f.Pos(), "siphash24 has no path")
		c.Done(x, ps)
	}
	if f := c.Func("cuckoo", "siphashBlock"); f != nil {
		blocks := 0
		for r := int64(0); r < 64; r++ {
			x := c.Exec(eng.Config{Unroll: 80})
			k, v := key()
			q := eng.SymT("block", types.Typ[types.Uint32])
			start := eng.Mul(eng.Int(64), q)
			ps := x.Run(f, []*T{k, eng.AddN(start, r)})
			var at *T
			for i := int64(0); i < 64; i++ {
				v = sip(v, eng.AddN(start, i))
				if i == r {
					at = sipSum(v)
				}
			}
			want := sipSum(v)
			if r < 63 {
				want = eng.Xor(at, want)
			}
			for _, p := range ps {
				ok := p.End == "return" && len(p.Res) == 1 && p.Res[0] == want
				c.Must(ok, "hash", "siphashBlock", p.Pos, "siphashBlock of nonce 64*b+%d is not the state at the nonce combined with the final state of its block (%s)", r, p.End)
			}
			c.Must(len(ps) == 1, "hash", "siphashBlock", f.Pos(), "siphashBlock has %d paths for a nonce 64*b+%d", len(ps), r)
			c.Done(x, ps)
			blocks++
		}
		c.Floor("positions in a block", blocks, 64)
	}
	for _, g := range c.graphs() {
		if g.edge == nil {
			continue
		}
		x := c.Exec(eng.Config{Opaque: opaque("cuckoo.siphash24", "cuckoo.siphashBlock")})
		as := eng.ParamSyms(g.edge)
		ps := x.Run(g.edge, as)
		for _, p := range ps {
			what := g.typ + ".NewEdge"
			if !c.Must(p.End == "return" && len(p.Res) == 1 && len(as) >= 2, "edge", what, p.Pos, "%s ends in %s", what, p.End) {
				continue
			}
			e := p.Res[0]
			et, ok := derefOf(e)
			if !c.Must(ok && e.Op == "al", "edge", what+" fresh", p.Pos, "%s returns %v, not a new edge", what, e) {
				continue
			}
			get := func(n string) *T {
				return x.Load(p.St, eng.FieldAddr(e, et, n), eng.FieldType(et, n))
			}
			for _, n := range []string{"usedU", "usedV"} {
				if st, ok := et.Underlying().(*types.Struct); ok && hasField(st, n) {
					c.Must(p.St.Facts().Eval(eng.CondOf(get(n))) == 0, "edge", what+" "+n, p.Pos, "%s returns an edge marked as used", what)
				}
			}
			var mask *T
			if g.typ == "Cuckaroo" {
				mask = as[2]
			}
			msg := g.endpoints(p.St, as[0], x, as[1], mask, get("U"), get("V"), p.St.Events())
			c.Must(msg == "", "edge", what, p.Pos, "the edge of a nonce: %s", msg)
		}
		c.Must(len(ps) > 0, "edge", g.typ, g.edge.Pos(), "no path")
		c.Done(x, ps)
	}
	// the sizes of the older graph, and the keys as given
	if f := c.Func("cuckoo", "New"); f != nil {
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			t, _ := derefOf(p.Res[0])
			v := loaded(x, p.St, p.Res[0])
			size := eng.Shl(eng.Int(1), as[1])
			c.Must(same(p.St, fld(v, t, "size"), size), "size", "New", p.Pos, "the graph has %v vertices, not %v", fld(v, t, "size"), size)
			m := fld(v, t, "mask")
			half := eng.AddN(eng.Quo(size, eng.Int(2)), -1)
			c.Must(same(p.St, m, half), "size", "New mask", p.Pos, "the mask is %v, not %v", m, half)
		}
		c.Done(x, ps)
	}
	for _, n := range []string{"New", "NewCuckaroo"} {
		f := c.Func("cuckoo", n)
		if f == nil {
			continue
		}
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		for _, p := range ps {
			if c.Must(p.End == "return", "keys", n, p.Pos, "%s ends in %s", n, p.End) {
				c.keyedBy("cuckoo."+n, p, loaded(x, p.St, p.Res[0]), eng.Mk("call", "blake2b.Sum256", x.Content(p.St, as[0])))
			}
		}
		c.Done(x, ps)
	}
	if f := c.P.Func("cuckoo", "NewFromKeys"); f != nil {
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			t, _ := derefOf(p.Res[0])
			v := fld(loaded(x, p.St, p.Res[0]), t, "v")
			c.Must(same(p.St, v, as[0]), "keys", "NewFromKeys", p.Pos, "the key words are %v, not the given ones", v)
		}
		c.Done(x, ps)
	}
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

func init() {
	register("V17", "symbolic value analysis of the hash and edge functions, compared with reference terms for every position in a block (abstract interpretation over SSA)",
		"siphash24 on arbitrary key and word, siphashBlock on an arbitrary key and arbitrary block for each of the 64 positions, and both NewEdge methods are compared with reference terms built from add, xor and rotate.", runV17,
		"64-bit additions are compared without reduction, which is sound because add, xor and rotate are compatible with it; nonces are 32 bits wide")
}
