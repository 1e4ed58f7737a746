package eng

import "math/big"

// ProveLe decides a <= b, also where the bound is a product of variables.
func ProveLe(f *Facts, a, b *T) bool {
	switch f.Eval(Le(a, b)) {
	case 1:
		return true
	case 0:
		return false
	}
	if a.Op == "quo" && a.A[1].Op == "int" && a.A[1].N.Sign() > 0 {
		c := a.A[1].N
		if b.Op == "quo" && b.A[1] == a.A[1] {
			// monotonic
			return ProveLe(f, a.A[0], b.A[0])
		}
		// a/c <= b  <=  a <= c*b + c-1, for a >= 0
		if ProveLe(f, Zero, a.A[0]) {
			return ProveLe(f, a.A[0], AddN(Scale(b, c), c.Int64()-1))
		}
		return false
	}
	return f.nonNeg(toLin(Sub(b, a)), 6)
}

// ProveLt decides a < b.
func ProveLt(f *Facts, a, b *T) bool {
	if f.Eval(Lt(a, b)) == 1 {
		return true
	}
	if a.Op == "quo" && a.A[1].Op == "int" && a.A[1].N.Sign() > 0 {
		c := a.A[1].N
		if !ProveLe(f, Zero, a.A[0]) {
			return false
		}
		if b.Op == "quo" && b.A[1] == a.A[1] {
			return ProveLe(f, AddN(a.A[0], c.Int64()), b.A[0])
		}
		return ProveLe(f, AddN(a.A[0], 1), Scale(b, c))
	}
	return ProveLe(f, AddN(a, 1), b)
}

// nonNeg: the polynomial is never negative. Variables with a negative
// coefficient are replaced by what they are bounded by.
func (f *Facts) nonNeg(l lin, depth int) bool {
	t := l.term()
	if r := f.Range(t); r.Lo != nil {
		return r.Lo.Sign() >= 0 || f.bounded(l, depth)
	}
	return f.bounded(l, depth)
}

func (f *Facts) bounded(l lin, depth int) bool {
	ok := l.c.Sign() >= 0
	for m, c := range l.m {
		r := f.Range(m)
		if c.Sign() < 0 || r.Lo == nil || r.Lo.Sign() < 0 {
			if c.Sign() != 0 {
				ok = false
			}
		}
	}
	if ok {
		return true
	}
	if depth == 0 {
		return false
	}
	for m, c := range l.m {
		if c.Sign() >= 0 {
			continue
		}
		fs := monoFactors(m)
		for i, v := range fs {
			cof := Int(1)
			for j, w := range fs {
				if j != i {
					cof = Mul(cof, w)
				}
			}
			if r := f.Range(cof); r.Lo == nil || r.Lo.Sign() < 0 {
				continue
			}
			for _, u := range f.uppers(v) {
				if u.Any(func(t *T) bool { return t == v }) {
					continue
				}
				n := toLin(l.term())
				n.addScaled(toLin(m), new(big.Int).Neg(c))
				n.addScaled(toLin(Mul(cof, u)), c)
				if f.nonNeg(n, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// uppers are terms that v does not exceed.
func (f *Facts) uppers(v *T) []*T {
	var r []*T
	if b := f.Range(v); b.Hi != nil && b.Hi.BitLen() <= 40 {
		r = append(r, BigInt(b.Hi))
	}
	for key, b := range f.rng {
		if key == v {
			continue
		}
		k := toLin(key)
		c := k.m[v]
		if c == nil || !c.IsInt64() {
			continue
		}
		switch {
		case c.Int64() == 1 && b.Hi != nil:
			// v + rest <= hi
			r = append(r, Sub(BigInt(b.Hi), Sub(key, v)))
		case c.Int64() == -1 && b.Lo != nil:
			// rest - v >= lo
			r = append(r, Sub(Add(key, v), BigInt(b.Lo)))
		}
	}
	return r
}
