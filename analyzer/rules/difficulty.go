package rules

import (
	"fmt"
	"go/types"
	"math/big"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- V16: difficulty of a hash ----

func runV16(c *Ctx) {
	wellFormed()
	f := c.Method("consensus", "Difficulty", "FromHash")
	if f == nil {
		return
	}
	divs := 0
	x := c.Exec(eng.Config{OnRisk: c.divRisk("FromHash", &divs)})
	args := eng.ParamSyms(f)
	hash := args[len(args)-1]
	ps := x.Run(f, args)
	num := eng.Num("64be", eng.SubBytes(hash, eng.Int(0), eng.Int(8)), nil)
	maxT := eng.BigInt(new(big.Int).SetUint64(0x0fffffffffffffff))
	n := 0
	for _, p := range ps {
		if !c.Must(p.End == "return", "defined", "FromHash "+p.End, p.Pos, "the difficulty of a hash ends in %s when %s", p.End, lits(p.St)) {
			continue
		}
		z := p.St.Fork()
		if z.Assume(eng.EqInt(num, eng.Zero)) {
			n++
			c.Must(same(z, p.Res[0], maxT), "zero-prefix", "FromHash", p.Pos, "a hash with 8 leading zero bytes has difficulty %v, not the maximum target", eng.Simp(z.Facts(), p.Res[0]))
		}
		z = p.St.Fork()
		if z.Assume(eng.EqInt(num, eng.Zero).Not()) {
			n++
			c.Must(same(z, p.Res[0], eng.Quo(maxT, num)), "quotient", "FromHash", p.Pos, "the difficulty of a hash is %v, not 0x0fffffffffffffff divided by its first 8 bytes as a big-endian number", eng.Simp(z.Facts(), p.Res[0]))
		}
	}
	c.Must(n >= 2, "instances", "cases of FromHash", f.Pos(), "only %d cases", n)
	c.Floor("divisions", divs, 1)
	c.Done(x, ps)
	// the difficulty of a proof is that of its hash
	td := c.Method("consensus", "Proof", "ToDifficulty")
	ph := c.Method("consensus", "Proof", "Hash")
	if td == nil || ph == nil {
		return
	}
	x = c.Exec(eng.Config{})
	m := eng.ParamSyms(td)
	hp := x.Run(ph, m)
	dp := x.Run(td, m)
	var h *T
	for _, p := range hp {
		if p.End == "return" {
			h = x.Content(p.St, p.Res[0])
		}
	}
	proofN := 0
	for _, p := range dp {
		if p.End != "return" || h == nil {
			c.Fail("proof-difficulty", "ToDifficulty "+p.End, p.Pos, "the difficulty of a proof ends in %s", p.End)
			continue
		}
		pn := eng.Num("64be", eng.SubBytes(h, eng.Int(0), eng.Int(8)), nil)
		// the same number as this path names it
		find := func(t *T) {
			t.Any(func(s *T) bool {
				if s.Op == "num" && alphaEq(s, pn) {
					pn = s
				}
				return false
			})
		}
		find(p.Res[0])
		for _, l := range p.St.Lits() {
			find(l.T)
		}
		z := p.St.Fork()
		if z.Assume(eng.EqInt(pn, eng.Zero).Not()) {
			proofN++
			c.Must(same(z, p.Res[0], eng.Quo(maxT, pn)), "proof-difficulty", "ToDifficulty", p.Pos, "the difficulty of a proof is %v, not that of its hash", p.Res[0])
		}
	}
	c.Must(proofN > 0, "instances", "cases of ToDifficulty", td.Pos(), "no case")
	c.Sample("FromHash: %d paths, ToDifficulty: %d paths", len(ps), len(dp))
	c.Done(x, append(hp, dp...))
}

// divRisk: the divisor of every division is proven non-zero.
func (c *Ctx) divRisk(what string, n *int) func(*State, string, *T, *T, ssa.Instruction, string) {
	return func(st *State, kind string, t, _ *T, in ssa.Instruction, _ string) {
		if kind != "div" {
			return
		}
		*n++
		c.Must(st.Facts().Eval(eng.EqInt(t, eng.Zero)) == 0, "division", what+" "+eng.FuncName(in.Parent()), in.Pos(), "%v may be zero when it divides", t)
	}
}

func nanos(t *T) *T { return eng.TimeNanos(t) }

func listElem(list *T) types.Type {
	return list.Typ.Underlying().(*types.Slice).Elem()
}

// ascendingTimes: the comparison orders the times in base by instant.
func ascendingTimes(base, less *T) bool {
	var ei, ej *T
	other := false
	less.Any(func(s *T) bool {
		if s.Op == "tunix" {
			s.A[0].Any(func(a *T) bool {
				if a.Op == "ia" && a.A[1].Op == "sym" {
					if a.A[0] != base {
						other = true
					}
					switch a.A[1].S {
					case "i!sort":
						ei = s.A[0]
					case "j!sort":
						ej = s.A[0]
					}
				}
				return false
			})
		}
		return false
	})
	if ei == nil || ej == nil || other {
		return false
	}
	// the middle of 11 is the same in either direction
	c := eng.CondOf(less)
	return c == eng.Lt(nanos(ei), nanos(ej)) || c == eng.Lt(nanos(ej), nanos(ei))
}

// ---- V12: retargeting ----

func runV12(c *Ctx) {
	f := c.Func("consensus", "NextDifficulty")
	if f == nil {
		return
	}
	minD := eng.Int(1)
	lens := []int64{0, 1, 2, 10, 11, 12, 59, 60, 61, 69, 70, 71, 72, 73, 82, 100}
	if c.Thorough {
		lens = nil
		for i := int64(0); i <= 160; i++ {
			lens = append(lens, i)
		}
	}
	divs := 0
	for _, n := range lens {
		list := eng.ParamSyms(f)[0]
		eng.LenHook = func(t *T) (int64, bool) {
			if t == list {
				return n, true
			}
			return 0, false
		}
		sorted := map[*T][]*T{}
		var x *eng.Exec
		x = c.Exec(eng.Config{Unroll: 400, OnRisk: c.divRisk("NextDifficulty", &divs), OnEvent: func(st *State, e *Ev) {
			if e.Kind == "sort" {
				sorted[e.Args[0]], _ = x.Elements(st, e.Args[0])
			}
		}})
		ps := x.Run(f, []*T{list})
		returned := 0
		for _, p := range ps {
			if !c.Must(p.End == "return", "defined", "NextDifficulty "+p.End, p.Pos, "retargeting with %d blocks ends in %s when %s", n, p.End, lits(p.St)) {
				continue
			}
			returned++
			r := p.Res[0]
			switch {
			case n == 0:
				c.Must(same(p.St, r, eng.Zero), "no-history", "NextDifficulty", p.Pos, "without history the next difficulty is %v, not zero", r)
			case n < 71:
				c.Must(same(p.St, r, minD), "short-history", "NextDifficulty", p.Pos, "with %d blocks the next difficulty is %v, not the minimum", n, r)
			default:
				c.retarget(x, p, list, n, sorted)
			}
		}
		c.Must(returned > 0, "defined", "NextDifficulty", f.Pos(), "retargeting with %d blocks never returns", n)
		c.Sample("NextDifficulty with %d blocks: %d paths", n, len(ps))
		c.Done(x, ps)
	}
	eng.LenHook = nil
	// any number of blocks: nothing older than the 71 latest is taken in
	x := c.Exec(eng.Config{OnRisk: c.divRisk("NextDifficulty", &divs)})
	list := eng.ParamSyms(f)[0]
	ps := x.Run(f, []*T{list})
	for _, l := range x.Loops {
		for _, t := range l.Trans {
			for v, nx := range t.Next {
				if v.Mode == "inv" || v.Mode == "ind" {
					continue
				}
				nx.Any(func(s *T) bool {
					if s.Op == "ia" && s.A[0] == list {
						if v.Mode == "lag" {
							return false // the loop variable itself
						}
						rg := t.St.Facts().Range(s.A[1])
						c.Must(within(rg, 0, 70), "window", "NextDifficulty", l.Pos, "the value %s takes in the block at position %v, between %v and %v from the latest; only the 71 latest blocks count", v.Name(), s.A[1], rg.Lo, rg.Hi)
					}
					return false
				})
			}
		}
	}
	for _, p := range ps {
		c.Must(p.End == "return", "defined", "NextDifficulty "+p.End, p.Pos, "retargeting ends in %s", p.End)
	}
	c.Done(x, ps)
	c.Floor("divisions", divs, 1)
}

// retarget checks one path with a full window.
func (c *Ctx) retarget(x *eng.Exec, p Path, list *T, n int64, sorted map[*T][]*T) {
	st := p.St
	elem := listElem(list)
	header := func(i int64, f string) *T {
		a := eng.ElemAddr(list, eng.Int(i), elem)
		ht := eng.FieldType(elem, "Header")
		ha := eng.FieldAddr(a, elem, "Header")
		return x.Load(st, eng.FieldAddr(ha, ht, f), eng.FieldType(ht, f))
	}
	// the difficulties of the latest 60
	sum := eng.Zero
	for i := int64(0); i < 60; i++ {
		sum = eng.Add(sum, header(i, "Difficulty"))
	}
	// the medians: what was sorted, ascending by time
	begin := map[*T]bool{}
	end := map[*T]bool{}
	for i := int64(0); i < 11; i++ {
		begin[header(i, "Timestamp")] = true
		end[header(60+i, "Timestamp")] = true
	}
	var mb, me *T
	for _, e := range st.Events() {
		if e.Kind != "sort" {
			continue
		}
		els := sorted[e.Args[0]]
		if len(els) == 0 {
			c.Fail("median", "elements", e.Pos, "the sorted list %v is not understood", e.Args[0])
			continue
		}
		isB, isE := sameSet(els, begin), sameSet(els, end)
		if !c.Must(isB || isE, "median", "window", e.Pos, "with %d blocks a median is taken over %d times that are neither those of the latest 11 blocks nor those of the 11 blocks before the window", n, len(els)) {
			continue
		}
		c.Must(ascendingTimes(e.Args[0], e.Args[1]), "median", "order", e.Pos, "the times in a window are not sorted by time: %v", e.Args[1])
		// median: element 5 of the sorted list
		m := x.Load(st, eng.ElemAddr(e.Args[0], eng.Int(5), els[0].Typ), els[0].Typ)
		if isB {
			mb = m
		}
		if isE {
			me = m
		}
	}
	if !c.Must(mb != nil && me != nil, "median", "both", p.Pos, "with %d blocks the medians of the latest 11 and of the 11 before the window are not both computed", n) {
		return
	}
	span := eng.Sub(nanos(mb), nanos(me))
	ts := eng.Quo(eng.AddN(eng.Quo(span, eng.Int(1000000000)), 3*3600), eng.Int(4))
	avg3600 := eng.Mul(eng.Int(3600), eng.Quo(sum, eng.Int(60)))
	cases := []struct {
		cond []Cond
		div  *T
	}{
		{[]Cond{eng.Le(ts, eng.Int(1799))}, eng.Int(1800)},
		{[]Cond{eng.Lt(eng.Int(7200), ts)}, eng.Int(7200)},
		{[]Cond{eng.Le(eng.Int(1800), ts), eng.Le(ts, eng.Int(7200))}, ts},
	}
	done := 0
	for i, cs := range cases {
		s := st.Fork()
		ok := true
		for _, l := range cs.cond {
			ok = ok && s.Assume(l)
		}
		if !ok {
			continue
		}
		want := eng.Quo(avg3600, cs.div)
		for _, big := range []bool{true, false} {
			z := s.Fork()
			l := eng.Lt(eng.Int(1), want)
			if !big {
				l = l.Not()
			}
			if !z.Assume(l) {
				continue
			}
			done++
			w := want
			if !big {
				w = eng.Int(1)
			}
			c.Must(same(z, p.Res[0], w), "formula", fmt.Sprintf("case %d", i), p.Pos, "with a full window the next difficulty is %v; expected %v", eng.Simp(z.Facts(), p.Res[0]), w)
		}
	}
	c.Must(done > 0, "formula", "reachable", p.Pos, "a path of the retargeting does not match the damping rule: %s", lits(st))
}

func sameSet(els []*T, want map[*T]bool) bool {
	if len(els) != len(want) {
		return false
	}
	seen := map[*T]bool{}
	for _, e := range els {
		if !want[e] || seen[e] {
			return false
		}
		seen[e] = true
	}
	return true
}

func init() {
	register("V16", "symbolic value analysis of the difficulty functions (abstract interpretation over SSA, comparison with a reference term)",
		"FromHash is interpreted on an arbitrary 32-byte hash; with a zero prefix the result must be the maximum target and otherwise the quotient of 0x0fffffffffffffff and the big-endian prefix; the difficulty of a proof must be that of the proof's hash.", runV16)
	register("V12", "symbolic value analysis of the retargeting function for every history length class (abstract interpretation over SSA, comparison with a reference formula), window check on the loop summary for any length",
		"NextDifficulty is interpreted for history lengths below, at and above the window with arbitrary times and difficulties; every path must return the value of the reference formula (sum of the latest 60, medians of the right 11+11 times sorted ascending, damping, clamping, minimum); for an arbitrary length the loop summary must not take in a block beyond the 71 latest; every division has a divisor proven non-zero.", runV12,
		"sums of 60 difficulties and their product with 3600 are compared as mathematical integers")
}
