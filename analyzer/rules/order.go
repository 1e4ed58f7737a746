package rules

import (
	"go/types"

	"verif/analyzer/eng"
)

// orderLayouts is what the content hash that orders a list covers.
var orderLayouts = map[string]string{
	"consensus.Input":    "8 Features;bytes Commit",
	"consensus.Output":   "8 Features;point Commit",
	"consensus.TxKernel": "8 Features;64be Fee;64be LockHeight;point Excess;bytes ExcessSig",
}

// orderKey is what element i of list is ordered by.
func orderKey(x *eng.Exec, st *State, list, i *T, elem types.Type) *T {
	a := eng.ElemAddr(list, i, elem)
	if eng.IsByteSlice(elem) {
		return x.Content(st, x.Load(st, a, elem))
	}
	l, ok := orderLayouts[typeName(elem)]
	if !ok {
		return nil
	}
	rb := &refBuilder{x: x, st: st}
	t := rb.at(a, elem, l)
	if rb.err != "" {
		return nil
	}
	return eng.Mk("call", "blake2b.Sum256", t)
}

func canonical(x *eng.Exec, st *State, list, less, i, j *T, elem types.Type) bool {
	a, b := orderKey(x, st, list, i, elem), orderKey(x, st, list, j, elem)
	if a == nil || b == nil {
		return false
	}
	want := eng.Mk("lt", "", a, b)
	return less == want || alphaEq(eng.Unversioned(less), eng.Unversioned(want))
}

// sortable list types: named slices with Len, Less and Swap.
func (c *Ctx) sortables() []*types.Named {
	var r []*types.Named
	for _, pkg := range c.P.Packages() {
		sc := pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := named.Underlying().(*types.Slice); !ok {
				continue
			}
			all := true
			for _, m := range []string{"Len", "Less", "Swap"} {
				all = all && c.P.MethodOf(named, m) != nil
			}
			if all {
				r = append(r, named)
			}
		}
	}
	return r
}

func runV08(c *Ctx) {
	wellFormed()
	n := 0
	covered := map[string]bool{}
	for _, t := range c.sortables() {
		elem := t.Underlying().(*types.Slice).Elem()
		name := typeName(t)
		if _, ok := orderLayouts[typeName(elem)]; !ok && !eng.IsByteSlice(elem) {
			continue
		}
		n++
		covered[typeName(elem)] = true
		i, j := eng.SymT("i", types.Typ[types.Int]), eng.SymT("j", types.Typ[types.Int])
		list := eng.SymT("list", t)
		for _, m := range []string{"Len", "Less", "Swap"} {
			f := c.P.MethodOf(t, m)
			x := c.Exec(eng.Config{})
			args := []*T{list, i, j}
			if m == "Len" {
				args = args[:1]
			}
			if _, isP := f.Signature.Recv().Type().(*types.Pointer); isP {
				c.Fail("order", name+"."+m, f.Pos(), "%s.%s has a pointer receiver", name, m)
				continue
			}
			s0 := x.Start()
			if m == "Swap" {
				s0.Assume(eng.EqInt(i, j).Not())
			}
			ps := x.RunIn(f, args, s0)
			for _, p := range ps {
				if !c.Must(p.End == "return", "order", name+"."+m+" "+p.End, p.Pos, "%s.%s ends in %s", name, m, p.End) {
					continue
				}
				switch m {
				case "Len":
					c.Must(same(p.St, p.Res[0], eng.Len(list)), "length", name, p.Pos, "%s.Len is %v", name, p.Res[0])
				case "Less":
					a, b := orderKey(x, p.St, list, i, elem), orderKey(x, p.St, list, j, elem)
					lt := eng.CondOf(eng.Mk("lt", "", a, b))
					boolCases(p, func(st *State, ok bool) {
						want := 0
						if ok {
							want = 1
						}
						got := p.Res[0]
						c.Must(alphaEq(got, lt.T) || st.Facts().Eval(lt) == want, "ascending", name, p.Pos, "%s.Less compares %v; canonical order is ascending: %v", name, got, lt)
					})
				case "Swap":
					ai, aj := eng.ElemAddr(list, i, elem), eng.ElemAddr(list, j, elem)
					s0 := x.Start()
					vi, vj := x.Load(s0, ai, elem), x.Load(s0, aj, elem)
					z := p.St.Fork()
					if z.Assume(eng.EqInt(i, j).Not()) {
						gi, gj := x.Load(z, ai, elem), x.Load(z, aj, elem)
						ok := (gi == vj || swapped(gi, vj)) && (gj == vi || swapped(gj, vi))
						c.Must(ok, "swap", name, p.Pos, "%s.Swap leaves %v at i and %v at j; it must exchange whole elements", name, gi, gj)
					}
				}
			}
			c.Done(x, ps)
		}
	}
	c.Floor("ordered list types", n, 4)
	for _, e := range []string{"consensus.Input", "consensus.Output", "consensus.TxKernel", "consensus.ShortID"} {
		c.Must(covered[e], "instances", "order of "+e, 0, "no ordered list of %s found", e)
	}
	c.sortedEncoding()
}

func swapped(got, want *T) bool {
	return alphaEq(eng.Unversioned(got), eng.Unversioned(want))
}

// sortedEncoding: an encoder writes the elements of each list only after the
// list was put into canonical order.
func (c *Ctx) sortedEncoding() {
	n := 0
	for _, tn := range []string{"Block", "CompactBlock", "Transaction"} {
		t := c.Named("consensus", tn)
		f := c.Method("consensus", tn, "Bytes")
		if t == nil || f == nil {
			continue
		}
		x := c.Exec(eng.Config{})
		m := eng.SymT(tn, types.NewPointer(t))
		ps := x.Run(f, []*T{m})
		s := structOf(t)
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			out := x.Content(p.St, p.Res[0])
			for k := 0; k < s.NumFields(); k++ {
				fv := s.Field(k)
				sl, ok := fv.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				elem := sl.Elem()
				if _, ok := orderLayouts[typeName(elem)]; !ok && !eng.IsByteSlice(elem) {
					continue
				}
				n++
				list := x.Load(p.St, eng.FieldAddr(m, t, fv.Name()), fv.Type())
				found, bad := 0, ""
				out.Any(func(r *T) bool {
					if r.Op != "rep" || !r.A[0].Mentions(eng.Len(list)) && !r.A[1].Mentions(eng.Len(list)) && !r.A[2].Mentions(list) {
						return false
					}
					if len(r.A) == 3 && r.A[0] != eng.Len(list) && r.A[1] != eng.Len(list) {
						return false
					}
					r.Any(func(l *T) bool {
						if l.Op != "ld" || !readsElement(l) {
							return false
						}
						found++
						if why := c.afterSort(x, p, l, elem); why != "" {
							bad = why
						}
						return false
					})
					return false
				})
				c.Must(found > 0, "sorted-first", tn+"."+fv.Name(), p.Pos, "the elements of %s.%s are not found in the encoding", tn, fv.Name())
				c.Must(bad == "", "sorted-first", tn+"."+fv.Name(), p.Pos, "the encoding of %s writes %s: %s", tn, fv.Name(), bad)
			}
		}
		c.Done(x, ps)
	}
	c.Floor("encoded lists", n, 9)
}

func readsElement(l *T) bool {
	for a := l.A[0]; a != nil; a = a.A[0] {
		switch a.Op {
		case "ia":
			return true
		case "fa", "ld":
		default:
			return false
		}
	}
	return false
}

// afterSort: the load l of a list element happened after the list was sorted.
func (c *Ctx) afterSort(x *eng.Exec, p Path, l *T, elem types.Type) string {
	a := l
	for a.Op != "ia" {
		a = a.A[0]
	}
	base := a.A[0]
	why := "the list is not sorted before"
	for _, e := range p.St.Events() {
		if e.Kind != "sort" || e.Args[0] != base {
			continue
		}
		i, j := eng.SortIndex()
		switch {
		case e.Name != "":
			why = e.Name
		case !canonical(x, x.Start(), base, e.Args[1], i, j, elem):
			why = "the list is sorted by " + e.Args[1].String() + ", which is not canonical order"
		default:
			mark := eng.SortMark(e)
			ok := false
			l.Any(func(s *T) bool {
				if s.Op == "ld" && s.S == mark {
					ok = true
				}
				return false
			})
			if ok {
				return ""
			}
			why = "elements are read before the list is sorted (" + l.String() + ")"
		}
	}
	return why
}

// ---- V07: transactions on arrival ----

func runV07(c *Ctx) {
	t := c.Named("consensus", "Transaction")
	f := c.Method("consensus", "Transaction", "Read")
	if t == nil || f == nil {
		return
	}
	eng.LenHook, eng.RangeHook = nil, nil
	x := c.Exec(eng.Config{})
	m := eng.SymT("tx", types.NewPointer(t))
	ps := x.Run(f, []*T{m, eng.SymT("r", f.Signature.Params().At(0).Type())})
	okN := 0
	refused := map[string]bool{}
	for _, p := range ps {
		if p.End != "return" {
			continue
		}
		list := func(n string) *T {
			return x.Load(p.St, eng.FieldAddr(m, t, n), eng.FieldType(t, n))
		}
		if retNil(p) {
			okN++
		}
		for _, n := range []string{"Inputs", "Outputs", "Kernels"} {
			v := list(n)
			elem := v.Typ.Underlying().(*types.Slice).Elem()
			st := ""
			for _, e := range p.St.Events() {
				if e.Kind != "issorted" || e.Args[0] != v {
					continue
				}
				st = "checked"
				i, j := eng.SortIndex()
				if e.Name != typeName(eng.FieldType(t, n)) && !canonical(x, p.St, v, e.Args[1], i, j, elem) {
					st = "checked by " + e.Args[1].String() + ", which is not the canonical order"
				}
				switch p.St.Facts().Eval(eng.CondOf(e.Res[0])) {
				case 1:
					if st == "checked" {
						st = "sorted"
					}
				case 0:
					if st == "checked" {
						st = "unsorted"
					}
				}
			}
			if retNil(p) {
				c.Must(st == "sorted", "sorted-on-arrival", n, p.Pos, "a transaction is accepted although its %s are %s", n, orNone(st))
			} else if st == "unsorted" {
				refused[n] = true
			}
		}
	}
	c.Must(okN > 0, "accepting-path", "Transaction", f.Pos(), "no transaction is ever accepted")
	for _, n := range []string{"Inputs", "Outputs", "Kernels"} {
		c.Must(refused[n], "refuses-unsorted", n, f.Pos(), "no path refuses a transaction with unsorted %s", n)
	}
	c.Sample("Transaction.Read: %d paths, %d accepting", len(ps), okN)
	c.Done(x, ps)
}

func orNone(s string) string {
	if s == "" {
		return "not checked for order"
	}
	return s
}

func init() {
	register("V08", "comparison of the order relations with reference terms; order-version tracking of list elements through the encoders (abstract interpretation over SSA)",
		"Len, Less and Swap of every ordered list type are compared with the reference (ascending BLAKE2b of the encoding without range proof; ascending bytes for short ids; whole elements exchanged); in the encoders every element written must have been read after a sort of its list with that order.", runV08,
		"sort.Sort sorts correctly given a correct Len, Less and Swap")
	register("V07", "must-check analysis over all accepting decoder paths (abstract interpretation over SSA)",
		"Every path on which Transaction.Read succeeds must carry a positive order test, in canonical order, of exactly the lists stored in the transaction.", runV07,
		"sort.IsSorted decides order under a correct Less (V08)")
}
