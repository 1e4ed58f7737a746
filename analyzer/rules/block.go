package rules

import (
	"go/types"

	"verif/analyzer/eng"
)

// fullLoops are the loops on a path that ran through the whole list.
func fullLoops(p Path, list *T) []*Ev {
	var r []*Ev
	f := p.St.Facts()
	for _, e := range p.St.Events() {
		if e.Kind != "loop" || e.Rec == nil || len(e.Args) < 2 {
			continue
		}
		if e.Args[1] == eng.Len(list) || f.Eval(eng.EqInt(e.Args[1], eng.Len(list))) == 1 {
			r = append(r, e)
		}
	}
	return r
}

// nilness of a value at the end of an iteration: 1 nil, 0 not nil.
func nilness(t *eng.Trans, v *T) int { return t.St.Facts().Eval(eng.IsNil(v)) }

// passed are the ways through the body that can have been taken in a loop that
// was left with what the path knows; made is not nil if one of made must have
// been taken in some iteration. Both come from variables that, once set, keep
// their value.
func passed(p Path, e *Ev) (live, made []*eng.Trans) {
	l := e.Rec
	live = l.Trans
	drop := func(bad func(t *eng.Trans) bool) {
		var r []*eng.Trans
		for _, t := range live {
			if !bad(t) {
				r = append(r, t)
			}
		}
		live = r
	}
	for vi, v := range l.Vars {
		switch {
		case v.Mode == "w":
			set := map[*eng.Trans]bool{}
			sticky := true
			for _, t := range l.Trans {
				switch {
				case t.Next[v] == v.Val:
				case nilness(t, t.Next[v]) == 0:
					set[t] = true
				default:
					sticky = false
				}
			}
			if !sticky || len(set) == 0 || len(e.Args) < 2 {
				continue
			}
			end := eng.Subst(v.Val, l.K, e.Args[1])
			switch p.St.Facts().Eval(eng.IsNil(end)) {
			case 1:
				drop(func(t *eng.Trans) bool { return set[t] || t.St.Facts().Eval(eng.IsNil(v.Val)) == 0 })
			case 0:
				if v.Init == eng.Nil {
					for _, t := range l.Trans {
						if set[t] {
							made = append(made, t)
						}
					}
				}
			}
		case v.Mode == "fin" && vi < len(e.Fin) && e.Fin[vi] != nil:
			// values that are never left again
			end := e.Fin[vi]
			left := map[*T]bool{}
			for _, t := range l.Trans {
				if t.From[v] != t.Next[v] {
					left[t.From[v]] = true
				}
			}
			drop(func(t *eng.Trans) bool { return !left[t.Next[v]] && t.Next[v] != end })
			if v.Init != end {
				var m []*eng.Trans
				for _, t := range l.Trans {
					if t.Next[v] == end && t.From[v] != end {
						m = append(m, t)
					}
				}
				if made == nil {
					made = m
				}
			}
		}
	}
	return live, made
}

// everyElement: some loop over the whole list establishes cond for each
// element; cond gets what one iteration established and the position that it
// deals with.
func everyElement(p Path, list *T, cond func(st *State, known []Cond, i *T) bool) bool {
	n := eng.Len(list)
	if p.St.Facts().Eval(eng.EqInt(n, eng.Zero)) == 1 {
		return true
	}
	for _, e := range fullLoops(p, list) {
		l := e.Rec
		live, _ := passed(p, e)
		for _, i := range []*T{l.K, eng.AddN(eng.Sub(n, l.K), -1)} {
			ok := len(live) > 0
			for _, t := range live {
				ok = ok && cond(t.St, t.Lits, i)
			}
			if ok {
				return true
			}
			// established at the beginning of the next iteration
			ok = len(live) > 0
			for _, t := range live {
				f := l.Entry.Fork()
				f.Assume(eng.Le(eng.Zero, l.K))
				var next []Cond
				possible := true
				for _, c := range t.Lits {
					n := eng.CondOf(eng.Simp(f.Facts(), eng.Subst(c.Term(), l.K, eng.AddN(l.K, 1))))
					possible = possible && f.Assume(n)
					next = append(next, n)
				}
				ok = ok && (!possible || cond(t.St, next, i))
			}
			if ok && cond(p.St, p.St.Lits(), eng.Subst(i, l.K, eng.AddN(n, -1))) {
				return true
			}
		}
	}
	// a loop over all but the first or the last one
	for _, e := range p.St.Events() {
		if e.Kind != "loop" || e.Rec == nil || len(e.Args) < 2 || p.St.Facts().Eval(eng.EqInt(e.Args[1], eng.AddN(n, -1))) != 1 {
			continue
		}
		l := e.Rec
		live, _ := passed(p, e)
		for _, v := range [][2]*T{{eng.AddN(l.K, 1), eng.Zero}, {l.K, eng.AddN(n, -1)}, {eng.AddN(eng.Sub(n, l.K), -1), eng.Zero}, {eng.AddN(eng.Sub(n, l.K), -2), eng.AddN(n, -1)}} {
			ok := len(live) > 0 && cond(p.St, p.St.Lits(), v[1])
			for _, t := range live {
				ok = ok && cond(t.St, t.Lits, v[0])
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// someElement: some iteration of a loop on the path established cond.
func someElement(p Path, cond func(st *State, known []Cond) bool) bool {
	for _, e := range p.St.Events() {
		if e.Kind != "loop" || e.Rec == nil {
			continue
		}
		_, made := passed(p, e)
		ok := len(made) > 0
		for _, t := range made {
			ok = ok && cond(t.St, t.Lits)
		}
		if ok {
			return true
		}
	}
	return false
}

// positions of list that the condition of a path talks about.
func positions(known []Cond, list *T, more ...*T) []*T {
	seen := map[*T]bool{}
	var r []*T
	look := func(t *T) {
		t.Any(func(s *T) bool {
			if s.Op == "ia" && s.A[0] == list && !seen[s.A[1]] {
				seen[s.A[1]] = true
				r = append(r, s.A[1])
			}
			return false
		})
	}
	for _, l := range known {
		look(l.T)
	}
	for _, t := range more {
		look(t)
	}
	return r
}

func runV01(c *Ctx) {
	wellFormed()
	t := c.Named("consensus", "Block")
	f := c.Method("consensus", "Block", "Validate")
	if t == nil || f == nil {
		return
	}
	cs := newCalls()
	x := c.Exec(eng.Config{Opaque: opaque("consensus.BlockHeader.Validate", "consensus.TxKernel.Validate"), OnEvent: cs.see})
	cs.x = x
	m := eng.SymT("block", types.NewPointer(t))
	ps := x.Run(f, []*T{m})
	c.Done(x, ps)
	okN := 0
	for _, p := range splitAll(ps) {
		if !c.Must(p.End == "return" && (retNil(p) || retErr(p)), "decided", "block validation", p.Pos, "block validation ends in %s with %v", p.End, p.Res) {
			continue
		}
		b := &blockCheck{c: c, x: x, p: p, cs: cs, blk: m, typ: t}
		if retNil(p) {
			okN++
			b.accepted()
		} else {
			b.refused()
		}
	}
	c.Must(okN > 0, "accepting-path", "Block.Validate", f.Pos(), "no block is ever accepted")
	c.Floor("paths of block validation", len(ps), 9)
	c.Sample("Block.Validate: %d paths, %d accepting", len(ps), okN)
}

type blockCheck struct {
	c   *Ctx
	x   *eng.Exec
	p   Path
	cs  *calls
	blk *T
	typ types.Type
}

func (b *blockCheck) list(n string) *T {
	return b.x.Load(b.p.St, eng.FieldAddr(b.blk, b.typ, n), eng.FieldType(b.typ, n))
}

func (b *blockCheck) elem(st *State, list, i *T) *T {
	e := list.Typ.Underlying().(*types.Slice).Elem()
	return b.x.Load(st, eng.ElemAddr(list, i, e), e)
}

// callOn: l says whether name(v) returned nil.
func (b *blockCheck) callOn(l Cond, name string, v *T) (isNil, ok bool) {
	if l.T.Op != "isnil" {
		return false, false
	}
	r := l.T.A[0]
	if a := b.cs.arguments(r, name); len(a) == 0 || a[0] != v {
		return false, false
	}
	return l.Pos, true
}

func (b *blockCheck) headerOK(want bool) bool {
	h := b.x.Load(b.p.St, eng.FieldAddr(b.blk, b.typ, "Header"), eng.FieldType(b.typ, "Header"))
	for _, l := range b.p.St.Lits() {
		if n, ok := b.callOn(l, "consensus.BlockHeader.Validate", h); ok && n == want {
			return true
		}
	}
	return false
}

func (b *blockCheck) sorted(n string, want int) bool {
	list := b.list(n)
	elem := list.Typ.Underlying().(*types.Slice).Elem()
	i, j := eng.SortIndex()
	for _, e := range b.p.St.Events() {
		if e.Kind != "issorted" || e.Args[0] != list || b.p.St.Facts().Eval(eng.CondOf(e.Res[0])) != want {
			continue
		}
		if canonical(b.x, b.p.St, list, e.Args[1], i, j, elem) {
			return true
		}
	}
	return false
}

// rangeProof: l is the verification of the range proof of output i.
func (b *blockCheck) rangeProof(st *State, l Cond, i *T) bool {
	t := l.T
	if t.Op != "call" || t.S != "bulletproofs.Prover.Verify" || len(t.A) != 3 {
		return false
	}
	if pr := t.A[0]; pr.Op != "call" || pr.S != "bulletproofs.NewProver" || len(pr.A) != 1 || pr.A[0] != eng.Int(64) {
		return false
	}
	list := b.list("Outputs")
	et := list.Typ.Underlying().(*types.Slice).Elem()
	a := eng.ElemAddr(list, i, et)
	ct, rt := eng.FieldType(et, "Commit"), eng.FieldType(et, "RangeProof")
	cm := b.x.DeepVal(st, b.x.Load(st, eng.FieldAddr(a, et, "Commit"), ct), ct)
	rp := b.x.DeepVal(st, b.x.Load(st, eng.FieldAddr(a, et, "RangeProof"), rt), rt)
	return t.A[1] == cm && t.A[2] == rp
}

// flagged: element i carries the coinbase flag.
func (b *blockCheck) flagged(st *State, list, i *T) Cond {
	et := list.Typ.Underlying().(*types.Slice).Elem()
	ft := eng.FieldType(et, "Features")
	v := b.x.Load(st, eng.FieldAddr(eng.ElemAddr(list, i, et), et, "Features"), ft)
	return eng.EqInt(eng.Bit(v, eng.Zero), eng.Zero).Not()
}

// counter: v counts the flagged elements of the list in loop l.
func (b *blockCheck) counter(l *eng.Loop, v *eng.LoopVar, list, i *T) bool {
	if len(l.Trans) == 0 {
		return false
	}
	if v.Mode == "fin" {
		if v.Init != eng.False {
			return false
		}
		for _, t := range l.Trans {
			from, next := t.From[v], t.Next[v]
			switch t.St.Facts().Eval(b.flagged(t.St, list, i)) {
			case 1:
				if next != eng.True {
					return false
				}
			case 0:
				if next != from {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return v.Mode == "w" && b.measure(l, v, list, i) != nil
}

// measure is what v says about the number of flagged elements seen so far: a
// number that goes up or down from where it started, or the length of a list
// they are collected in.
func (b *blockCheck) measure(l *eng.Loop, v *eng.LoopVar, list, i *T) func(t *T) *T {
	var ms []func(t *T) *T
	if _, ok := v.Init.Int64(); ok {
		ms = append(ms, func(t *T) *T { return eng.Sub(t, v.Init) }, func(t *T) *T { return eng.Sub(v.Init, t) })
	} else if n := eng.Len(v.Init); n == eng.Zero {
		ms = append(ms, eng.Len)
	}
next:
	for _, m := range ms {
		for _, t := range l.Trans {
			want := m(v.Val)
			switch t.St.Facts().Eval(b.flagged(t.St, list, i)) {
			case 1:
				want = eng.AddN(want, 1)
			case 0:
			default:
				continue next
			}
			if !same(t.St, m(t.Next[v]), want) {
				continue next
			}
		}
		return m
	}
	return nil
}

func (b *blockCheck) index(l *eng.Loop, list *T) []*T {
	return []*T{l.K, eng.AddN(eng.Sub(eng.Len(list), l.K), -1)}
}

// atMostOne: at most one element of the list is flagged.
func (b *blockCheck) atMostOne(n string) bool {
	list := b.list(n)
	for _, e := range fullLoops(b.p, list) {
		l := e.Rec
		for _, i := range b.index(l, list) {
			for _, v := range l.Vars {
				if !b.counter(l, v, list, i) {
					continue
				}
				if v.Mode == "fin" {
					ok := true
					for _, t := range l.Trans {
						if t.From[v] == eng.True && t.St.Facts().Eval(b.flagged(t.St, list, i)) != 0 {
							ok = false
						}
					}
					if ok {
						return true
					}
					continue
				}
				m := b.measure(l, v, list, i)
				ok := true
				for _, t := range l.Trans {
					s := t.St.Fork()
					if s.Assume(eng.Le(m(v.Val), eng.Int(1))) && s.Facts().Eval(eng.Le(m(t.Next[v]), eng.Int(1))) != 1 {
						ok = false
					}
				}
				end := eng.Subst(m(v.Val), l.K, eng.Len(list))
				if ok || b.p.St.Facts().Eval(eng.Le(end, eng.Int(1))) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// moreThanOne: the path has seen at least two flagged elements.
func (b *blockCheck) moreThanOne(n string) bool {
	list := b.list(n)
	f := b.p.St.Facts()
	for _, e := range b.p.St.Events() {
		if e.Kind != "loop" || e.Rec == nil {
			continue
		}
		l := e.Rec
		for _, i := range b.index(l, list) {
			for _, v := range l.Vars {
				if !b.counter(l, v, list, i) {
					continue
				}
				if v.Mode == "fin" {
					// left from an iteration that began with the flag seen
					if f.Eval(b.flagged(b.p.St, list, i)) == 1 && len(e.Args) > 1 && e.Args[1] == l.K && seenAt(b.p, l, v) {
						return true
					}
					continue
				}
				m := b.measure(l, v, list, i)
				if f.Eval(b.flagged(b.p.St, list, i)) == 1 && f.Eval(eng.Le(eng.Int(1), m(v.Val))) == 1 {
					return true
				}
				if len(e.Args) > 1 && f.Eval(eng.Le(eng.Int(2), eng.Subst(m(v.Val), l.K, e.Args[1]))) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (b *blockCheck) accepted() {
	c, p := b.c, b.p
	f := p.St.Facts()
	c.Must(b.headerOK(true), "header", "Block.Validate", p.Pos, "a block is accepted without its own header having been found valid: %s", lits(p.St))
	for _, n := range []string{"Outputs", "Kernels"} {
		c.Must(f.Eval(eng.Le(eng.Int(1), eng.Len(b.list(n)))) == 1, "non-empty", n, p.Pos, "a block is accepted that may have no %s", n)
	}
	for _, n := range []string{"Inputs", "Outputs", "Kernels"} {
		c.Must(b.sorted(n, 1), "sorted", n, p.Pos, "a block is accepted whose %s were not found to be in canonical order", n)
	}
	for _, n := range []string{"Outputs", "Kernels"} {
		c.Must(b.atMostOne(n), "coinbase", n, p.Pos, "a block is accepted that may have more than one coinbase among its %s", n)
	}
	c.Must(everyElement(p, b.list("Outputs"), func(st *State, known []Cond, i *T) bool {
		for _, l := range known {
			if l.Pos && b.rangeProof(st, l, i) {
				return true
			}
		}
		return false
	}), "range-proofs", "Block.Validate", p.Pos, "a block is accepted without the range proof of every output having been verified for its own commitment")
	ks := b.list("Kernels")
	c.Must(everyElement(p, ks, func(st *State, known []Cond, i *T) bool {
		v := b.elem(st, ks, i)
		for _, l := range known {
			if isNil, ok := b.callOn(l, "consensus.TxKernel.Validate", v); ok && isNil {
				return true
			}
		}
		return false
	}), "kernels", "Block.Validate", p.Pos, "a block is accepted without every kernel having been found valid")
}

// refused: one of the requirements is broken.
func (b *blockCheck) refused() {
	c, p := b.c, b.p
	f := p.St.Facts()
	ok := b.headerOK(false)
	for _, n := range []string{"Outputs", "Kernels"} {
		ok = ok || f.Eval(eng.EqInt(eng.Len(b.list(n)), eng.Zero)) == 1
		ok = ok || b.moreThanOne(n)
	}
	for _, n := range []string{"Inputs", "Outputs", "Kernels"} {
		ok = ok || b.sorted(n, 0)
	}
	outs, ks := b.list("Outputs"), b.list("Kernels")
	bad := func(st *State, known []Cond) bool {
		for _, i := range positions(known, outs) {
			for _, l := range known {
				if !l.Pos && b.rangeProof(st, l, i) {
					return true
				}
			}
		}
		for _, l := range known {
			if l.T.Op != "isnil" || l.Pos {
				continue
			}
			// one of the kernels of this block
			a := b.cs.arguments(l.T.A[0], "consensus.TxKernel.Validate")
			if len(a) > 0 && a[0].Any(func(s *T) bool {
				return s.Op == "ia" && s.A[0] == ks && b.elem(st, ks, s.A[1]) == a[0]
			}) {
				return true
			}
		}
		return false
	}
	ok = ok || bad(p.St, p.St.Lits()) || someElement(p, bad)
	c.Must(ok, "refuses-only", "a block "+c.errName(p), p.Pos, "a block is refused although no requirement is known to be broken: %s", lits(p.St))
}

// seenAt: the path left loop l in an iteration that began with v true.
func seenAt(p Path, l *eng.Loop, v *eng.LoopVar) bool {
	for _, e := range p.St.Events() {
		if e.Kind != "loop" || e.Rec != l {
			continue
		}
		for i, o := range l.Vars {
			if o == v && i < len(e.Fin) && e.Fin[i] == eng.True {
				return true
			}
		}
	}
	return false
}

// ---- V10: lists of headers ----

func runV10(c *Ctx) {
	wellFormed()
	f := c.Method("chain", "Chain", "ProcessHeaders")
	if f == nil {
		return
	}
	cs := newCalls()
	x := c.Exec(eng.Config{Opaque: opaque("consensus.BlockHeader.Validate"), OnEvent: cs.see})
	cs.x = x
	args := eng.ParamSyms(f)
	list := args[len(args)-1]
	ps := x.Run(f, args)
	okN, badN := 0, 0
	valid := func(st *State, l Cond, i *T, want bool) bool {
		if l.T.Op != "isnil" || l.Pos != want {
			return false
		}
		a := cs.arguments(l.T.A[0], "consensus.BlockHeader.Validate")
		et := list.Typ.Underlying().(*types.Slice).Elem()
		v := x.Load(st, eng.ElemAddr(list, i, et), et)
		if pt, ok := et.Underlying().(*types.Pointer); ok {
			v = x.Load(st, v, pt.Elem())
		}
		return len(a) > 0 && a[0] == v
	}
	for _, p := range splitAll(ps) {
		if !c.Must(p.End == "return" && (retNil(p) || retErr(p)), "decided", "ProcessHeaders", p.Pos, "processing headers ends in %s with %v", p.End, p.Res) {
			continue
		}
		if retNil(p) {
			okN++
			c.Must(everyElement(p, list, func(st *State, known []Cond, i *T) bool {
				for _, l := range known {
					if valid(st, l, i, true) {
						return true
					}
				}
				return false
			}), "every-header", "ProcessHeaders", p.Pos, "a list of headers is accepted without every header having been found valid: %s", lits(p.St))
			continue
		}
		badN++
		some := func(st *State, known []Cond) bool {
			for _, l := range known {
				if l.T.Op != "isnil" || l.Pos {
					continue
				}
				for _, a := range cs.arguments(l.T.A[0], "consensus.BlockHeader.Validate") {
					for _, i := range positions(known, list, a) {
						if valid(st, l, i, false) {
							return true
						}
					}
				}
			}
			return false
		}
		bad := some(p.St, p.St.Lits()) || someElement(p, some)
		c.Must(bad, "refuses-only", "ProcessHeaders", p.Pos, "a list of headers is refused although no header is known to be invalid: %s", lits(p.St))
	}
	c.Must(okN > 0 && badN > 0, "instances", "ProcessHeaders", f.Pos(), "%d accepting, %d refusing paths", okN, badN)
	c.Sample("ProcessHeaders: %d accepting, %d refusing paths", okN, badN)
	c.Done(x, ps)
}

func init() {
	register("V01", "exact accept/refuse conditions over all paths with loop summaries (abstract interpretation over SSA)",
		"Block.Validate is interpreted on an arbitrary block; the accepting path must carry a valid header, non-empty outputs and kernels, canonical order of the three lists, coinbase counters bounded by one, and for every element of the list a verified range proof or a valid kernel; each refusing path must contradict one of these.", runV01,
		"V02 and V13 decide what a valid header and kernel is; bulletproofs.Prover.Verify decides range proofs")
	register("V10", "must-check analysis over loop summaries (abstract interpretation over SSA)",
		"On every path on which ProcessHeaders succeeds, a loop over the whole list must have validated the element of each iteration; each refusing path must stem from an invalid header.", runV10)
}
