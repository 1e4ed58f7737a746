package eng

import (
	"go/types"
	"math/big"
	"sort"
)

// Ival is an integer interval; nil bounds are infinite.
type Ival struct{ Lo, Hi *big.Int }

func (v Ival) empty() bool { return v.Lo != nil && v.Hi != nil && v.Lo.Cmp(v.Hi) > 0 }

// Within reports whether the interval lies inside [lo,hi].
func (v Ival) Within(lo, hi int64) bool {
	return v.Lo != nil && v.Hi != nil && v.Lo.Cmp(big.NewInt(lo)) >= 0 && v.Hi.Cmp(big.NewInt(hi)) <= 0
}

// Facts is the set of literals that hold on a path.
type Facts struct {
	lits []Cond
	val  map[*T]bool
	rng  map[*T]Ival
	ne   map[*T][]*big.Int
}

func newFacts() *Facts {
	return &Facts{val: map[*T]bool{}, rng: map[*T]Ival{}, ne: map[*T][]*big.Int{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{lits: f.lits[:len(f.lits):len(f.lits)], val: make(map[*T]bool, len(f.val)), rng: make(map[*T]Ival, len(f.rng)), ne: make(map[*T][]*big.Int, len(f.ne))}
	for k, v := range f.val {
		n.val[k] = v
	}
	for k, v := range f.rng {
		n.rng[k] = v
	}
	for k, v := range f.ne {
		n.ne[k] = v[:len(v):len(v)]
	}
	return n
}

// Lits lists the literals in the order in which they were learnt.
func (f *Facts) Lits() []Cond { return f.lits }

func typeRange(t types.Type) Ival {
	if t == nil {
		return Ival{}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Ival{}
	}
	u := func(n uint) Ival {
		return Ival{new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1))}
	}
	s := func(n uint) Ival {
		h := new(big.Int).Lsh(big.NewInt(1), n-1)
		return Ival{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
	}
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	case types.Int64, types.Int:
		return s(64)
	}
	return Ival{}
}

func meet(a, b Ival) Ival {
	r := a
	if r.Lo == nil || (b.Lo != nil && b.Lo.Cmp(r.Lo) > 0) {
		r.Lo = b.Lo
	}
	if r.Hi == nil || (b.Hi != nil && b.Hi.Cmp(r.Hi) < 0) {
		r.Hi = b.Hi
	}
	return r
}

// Range bounds the integer term t using facts and types.
func (f *Facts) Range(t *T) Ival {
	key, fac, c := keyOf(t)
	if key == nil {
		return Ival{c, c}
	}
	v := f.keyRange(key, 0)
	r := Ival{}
	lo, hi := v.Lo, v.Hi
	if fac.Sign() < 0 {
		lo, hi = hi, lo
	}
	if lo != nil {
		r.Lo = new(big.Int).Mul(lo, fac)
		r.Lo.Add(r.Lo, c)
	}
	if hi != nil {
		r.Hi = new(big.Int).Mul(hi, fac)
		r.Hi.Add(r.Hi, c)
	}
	return r
}

func (f *Facts) keyRange(key *T, d int) Ival {
	v := f.base(key, d)
	if RangeHook != nil {
		if r, ok := RangeHook(key); ok {
			v = meet(v, r)
		}
	}
	if r, ok := f.rng[key]; ok {
		v = meet(v, r)
	}
	return v
}

var maxLen = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 48), big.NewInt(1))

func (f *Facts) base(key *T, d int) Ival {
	if d > 8 {
		return typeRange(key.Typ)
	}
	switch key.Op {
	case "int":
		return Ival{key.N, key.N}
	case "len", "cap":
		return Ival{new(big.Int), maxLen}
	case "k":
		return Ival{new(big.Int), maxLen}
	case "cmp":
		return Ival{big.NewInt(-1), big.NewInt(1)}
	case "bit", "cbit":
		return Ival{new(big.Int), big.NewInt(1)}
	case "byteat":
		return Ival{new(big.Int), big.NewInt(255)}
	case "lin":
		r := Ival{new(big.Int).Set(key.N), new(big.Int).Set(key.N)}
		for i, a := range key.A {
			v := f.keyRange(a, d+1)
			lo, hi := v.Lo, v.Hi
			if key.Co[i].Sign() < 0 {
				lo, hi = hi, lo
			}
			if r.Lo != nil {
				if lo == nil {
					r.Lo = nil
				} else {
					r.Lo.Add(r.Lo, new(big.Int).Mul(lo, key.Co[i]))
				}
			}
			if r.Hi != nil {
				if hi == nil {
					r.Hi = nil
				} else {
					r.Hi.Add(r.Hi, new(big.Int).Mul(hi, key.Co[i]))
				}
			}
		}
		return r
	case "quo":
		x, y := f.Range(key.A[0]), f.Range(key.A[1])
		if x.Lo != nil && x.Lo.Sign() >= 0 && y.Lo != nil && y.Lo.Sign() > 0 {
			r := Ival{Lo: new(big.Int)}
			if y.Hi != nil {
				r.Lo = new(big.Int).Quo(x.Lo, y.Hi)
			}
			if x.Hi != nil {
				r.Hi = new(big.Int).Quo(x.Hi, y.Lo)
			}
			return r
		}
	case "rem":
		x, y := f.Range(key.A[0]), f.Range(key.A[1])
		if x.Lo != nil && x.Lo.Sign() >= 0 && y.Lo != nil && y.Lo.Sign() > 0 && y.Hi != nil {
			return Ival{new(big.Int), new(big.Int).Sub(y.Hi, big.NewInt(1))}
		}
	case "and":
		for _, a := range key.A {
			v := f.Range(a)
			if v.Lo != nil && v.Lo.Sign() >= 0 && v.Hi != nil {
				return Ival{new(big.Int), v.Hi}
			}
		}
		return meet(typeRange(key.Typ), Ival{Lo: new(big.Int)})
	case "pow2":
		return Ival{Lo: big.NewInt(1)}
	case "mul":
		r := Ival{big.NewInt(1), big.NewInt(1)}
		for _, a := range key.A {
			v := f.keyRange(a, d+1)
			if v.Lo == nil || v.Lo.Sign() < 0 {
				return typeRange(key.Typ)
			}
			r.Lo = new(big.Int).Mul(r.Lo, v.Lo)
			if r.Hi != nil {
				if v.Hi == nil {
					r.Hi = nil
				} else {
					r.Hi = new(big.Int).Mul(r.Hi, v.Hi)
				}
			}
		}
		return r
	case "ite":
		x, y := f.Range(key.A[1]), f.Range(key.A[2])
		r := Ival{}
		if x.Lo != nil && y.Lo != nil {
			r.Lo = x.Lo
			if y.Lo.Cmp(r.Lo) < 0 {
				r.Lo = y.Lo
			}
		}
		if x.Hi != nil && y.Hi != nil {
			r.Hi = x.Hi
			if y.Hi.Cmp(r.Hi) > 0 {
				r.Hi = y.Hi
			}
		}
		return r
	}
	return typeRange(key.Typ)
}

// Eval decides a literal: 1 true, 0 false, -1 unknown.
func (f *Facts) Eval(c Cond) int {
	v := f.evalAtom(c.T)
	if v >= 0 && !c.Pos {
		return 1 - v
	}
	return v
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (f *Facts) evalAtom(t *T) int {
	if t.Op == "bool" {
		return b2i(t == True)
	}
	if v, ok := f.val[t]; ok {
		return b2i(v)
	}
	switch t.Op {
	case "le":
		v := f.keyRange(t.A[0], 0)
		if v.Hi != nil && v.Hi.Cmp(t.N) <= 0 {
			return 1
		}
		if v.Lo != nil && v.Lo.Cmp(t.N) > 0 {
			return 0
		}
	case "eqi":
		v := f.keyRange(t.A[0], 0)
		if v.Lo != nil && v.Hi != nil && v.Lo.Cmp(v.Hi) == 0 && v.Lo.Cmp(t.N) == 0 {
			return 1
		}
		if (v.Hi != nil && v.Hi.Cmp(t.N) < 0) || (v.Lo != nil && v.Lo.Cmp(t.N) > 0) {
			return 0
		}
		for _, n := range f.ne[t.A[0]] {
			if n.Cmp(t.N) == 0 {
				return 0
			}
		}
	case "lt":
		if f.litTrue(EqBytes(t.S, t.A[0], t.A[1])) || f.val[Mk("lt", t.S, t.A[1], t.A[0])] {
			return 0
		}
	case "eqb":
		if f.val[Mk("lt", t.S, t.A[0], t.A[1])] || f.val[Mk("lt", t.S, t.A[1], t.A[0])] {
			return 0
		}
	case "all":
		r := 1
		for _, a := range t.A {
			switch f.Eval(CondOf(a)) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case "any":
		r := 0
		for _, a := range t.A {
			switch f.Eval(CondOf(a)) {
			case 1:
				return 1
			case -1:
				r = -1
			}
		}
		return r
	case "istype":
		// a value has only one dynamic type
		for _, l := range f.lits {
			if l.Pos && l.T.Op == "istype" && l.T.A[0] == t.A[0] && l.T.S != t.S {
				return 0
			}
		}
	}
	return -1
}

func (f *Facts) litTrue(c Cond) bool {
	if c.T.Op == "bool" {
		return c.Pos == (c.T == True)
	}
	v, ok := f.val[c.T]
	return ok && v == c.Pos
}

// Assume adds a literal; it returns false if the path becomes infeasible.
func (f *Facts) Assume(c Cond) bool {
	switch f.Eval(c) {
	case 1:
		return true
	case 0:
		return false
	}
	f.lits = append(f.lits, c)
	f.val[c.T] = c.Pos
	t := c.T
	switch t.Op {
	case "all", "any":
		if (t.Op == "all") == c.Pos {
			for _, a := range t.A {
				l := CondOf(a)
				if !c.Pos {
					l = l.Not()
				}
				if !f.Assume(l) {
					return false
				}
			}
		}
	case "le":
		r := f.rng[t.A[0]]
		if c.Pos {
			r = meet(r, Ival{nil, t.N})
		} else {
			r = meet(r, Ival{new(big.Int).Add(t.N, big.NewInt(1)), nil})
		}
		return f.setRange(t.A[0], r)
	case "eqi":
		if c.Pos {
			return f.setRange(t.A[0], meet(f.rng[t.A[0]], Ival{t.N, t.N}))
		}
		f.ne[t.A[0]] = append(f.ne[t.A[0]], t.N)
		return f.setRange(t.A[0], f.rng[t.A[0]])
	}
	return true
}

func (f *Facts) setRange(key *T, r Ival) bool {
	full := meet(f.keyRange(key, 0), r)
	for again := true; again; {
		again = false
		for _, n := range f.ne[key] {
			if full.Lo != nil && full.Lo.Cmp(n) == 0 {
				full.Lo = new(big.Int).Add(n, big.NewInt(1))
				again = true
			}
			if full.Hi != nil && full.Hi.Cmp(n) == 0 {
				full.Hi = new(big.Int).Sub(n, big.NewInt(1))
				again = true
			}
		}
	}
	f.rng[key] = full
	if full.empty() {
		return false
	}
	if key.Op == "lin" && len(key.A) <= 4 {
		return f.propagate(key, full)
	}
	return true
}

// propagate bounds each atom of a linear term by the range of the term and of
// the other atoms.
func (f *Facts) propagate(key *T, full Ival) bool {
	for i, a := range key.A {
		// c*a = key - rest
		lo, hi := full.Lo, full.Hi
		if key.N != nil && key.N.Sign() != 0 {
			return true
		}
		for j, b := range key.A {
			if j == i {
				continue
			}
			r := f.Range(Scale(b, key.Co[j]))
			if lo != nil && r.Hi != nil {
				lo = new(big.Int).Sub(lo, r.Hi)
			} else {
				lo = nil
			}
			if hi != nil && r.Lo != nil {
				hi = new(big.Int).Sub(hi, r.Lo)
			} else {
				hi = nil
			}
		}
		c := key.Co[i]
		if c.CmpAbs(big.NewInt(1)) != 0 {
			continue
		}
		if c.Sign() < 0 {
			var l, h *big.Int
			if hi != nil {
				l = new(big.Int).Neg(hi)
			}
			if lo != nil {
				h = new(big.Int).Neg(lo)
			}
			lo, hi = l, h
		}
		if lo == nil && hi == nil {
			continue
		}
		k, fac, c0 := keyOf(a)
		if k == nil || k.Op == "lin" || fac.CmpAbs(big.NewInt(1)) != 0 || fac.Sign() < 0 || c0.Sign() != 0 {
			continue
		}
		if !f.setRange(k, meet(f.rng[k], Ival{lo, hi})) {
			return false
		}
	}
	return true
}

func fromLits(ls []Cond) *Facts {
	f := newFacts()
	for _, l := range ls {
		f.Assume(l)
	}
	return f
}

type litKey struct {
	id  int
	pos bool
}

func sortedLits(ls []Cond) []litKey {
	r := make([]litKey, len(ls))
	for i, l := range ls {
		r[i] = litKey{l.T.ID, l.Pos}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].id != r[j].id {
			return r[i].id < r[j].id
		}
		return !r[i].pos && r[j].pos
	})
	return r
}

// mergeLits returns the disjunction of two conjunctions when it is again a
// conjunction: the sets are equal, or differ only in the sign of one literal.
func mergeLits(a, b []Cond) ([]Cond, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	ka, kb := sortedLits(a), sortedLits(b)
	diff := -1
	for i := range ka {
		if ka[i] == kb[i] {
			continue
		}
		if ka[i].id != kb[i].id || diff >= 0 {
			return nil, false
		}
		diff = ka[i].id
	}
	if diff < 0 {
		return a, true
	}
	var r []Cond
	for _, l := range a {
		if l.T.ID != diff {
			r = append(r, l)
		}
	}
	return r, true
}
