package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"verif/analyzer/eng"
)

// The standard constants of secp256k1 and of its second generator.
const (
	stdN  = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xba\xae\xdc\xe6\xaf\x48\xa0\x3b\xbf\xd2\x5e\x8c\xd0\x36\x41\x41"
	stdP  = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xff\xff\xfc\x2f"
	stdGx = "\x79\xbe\x66\x7e\xf9\xdc\xbb\xac\x55\xa0\x62\x95\xce\x87\x0b\x07\x02\x9b\xfc\xdb\x2d\xce\x28\xd9\x59\xf2\x81\x5b\x16\xf8\x17\x98"
	stdGy = "\x48\x3a\xda\x77\x26\xa3\xc4\x65\x5d\xa4\xfb\xfc\x0e\x11\x08\xa8\xfd\x17\xb4\x48\xa6\x85\x54\x19\x9c\x47\xd0\x8f\xfb\x10\xd4\xb8"
	stdHx = "\x50\x92\x9b\x74\xc1\xa0\x49\x54\xb7\x8b\x4b\x60\x35\xe9\x7a\x5e\x07\x8a\x5a\x0f\x28\xec\x96\xd5\x47\xbf\xee\x9a\xce\x80\x3a\xc0"
	stdHy = "\x31\xd3\xc6\x86\x39\x73\x92\x6e\x04\x9e\x63\x7c\xb1\xb5\xf4\x0a\x36\xda\xc2\x8a\xf1\x76\x69\x68\xc3\x0c\x23\x13\xf3\xa3\x89\x04"
)

// poly is a polynomial over atoms; keys are sorted products of atom names.
type poly map[string]*big.Int

func (p poly) add(q poly, k int64) {
	for m, c := range q {
		v := new(big.Int).Mul(c, big.NewInt(k))
		if o := p[m]; o != nil {
			v.Add(v, o)
		}
		if v.Sign() == 0 {
			delete(p, m)
		} else {
			p[m] = v
		}
	}
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for a, x := range p {
		for b, y := range q {
			ms := append(strings.Fields(a), strings.Fields(b)...)
			sort.Strings(ms)
			r.add(poly{strings.Join(ms, " "): new(big.Int).Mul(x, y)}, 1)
		}
	}
	return r
}

func (p poly) String() string {
	var s []string
	for m, c := range p {
		s = append(s, c.String()+"*"+m)
	}
	sort.Strings(s)
	return strings.Join(s, " + ")
}

func konst(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": big.NewInt(n)}
}

// algebra names group elements and scalars by what they are, not by how they
// were computed.
type algebra struct {
	x     *eng.Exec
	st    *State
	field bool // arithmetic modulo p instead of n
	names map[*T]string
	txt   map[string]string
}

func newAlgebra(x *eng.Exec, st *State) *algebra {
	return &algebra{x: x, st: st, names: map[*T]string{}, txt: map[string]string{}}
}

func (a *algebra) intern(s string) string {
	if n, ok := a.txt[s]; ok {
		return n
	}
	n := fmt.Sprintf("a%d", len(a.txt))
	a.txt[s] = n
	return n
}

// named gives a term a fixed name.
func (a *algebra) named(t *T, n string) { a.names[t] = n }

func isParam(t *T, f, bytes string) bool {
	if t.Op == "big" && t.S == "frombytes" && t.A[0].IsStr() && t.A[0].StrVal() == bytes {
		return true
	}
	s := t.String()
	return strings.HasSuffix(s, "."+f) && strings.Contains(s, "btcec.") || strings.HasSuffix(s, "bulletproofs.EC.CurveParams."+f) || strings.HasSuffix(s, "bulletproofs.EC.KoblitzCurve.CurveParams."+f)
}

func listArgs(t *T) ([]*T, bool) {
	if len(t.A) == 1 && (t.A[0].Op == "list" || t.A[0].Op == "arr") {
		return t.A[0].A, true
	}
	return nil, false
}

// scalar is t as a polynomial.
func (a *algebra) scalar(t *T) poly {
	if n, ok := a.names[t]; ok {
		return poly{n: big.NewInt(1)}
	}
	t = a.deep(t)
	if n, ok := a.names[t]; ok {
		return poly{n: big.NewInt(1)}
	}
	switch {
	case t.Op == "zero", t.Op == "big" && t.S == "0":
		return poly{}
	case t.Op == "big" && t.S == "int":
		if n, ok := t.A[0].Int64(); ok {
			return konst(n)
		}
	case t.Op == "big" && len(t.A) == 2 && (t.S == "Add" || t.S == "Sub"):
		r := poly{}
		r.add(a.scalar(t.A[0]), 1)
		k := int64(1)
		if t.S == "Sub" {
			k = -1
		}
		r.add(a.scalar(t.A[1]), k)
		return r
	case t.Op == "big" && t.S == "Mul" && len(t.A) == 2:
		return a.scalar(t.A[0]).mul(a.scalar(t.A[1]))
	case t.Op == "big" && t.S == "Neg" && len(t.A) == 1:
		r := poly{}
		r.add(a.scalar(t.A[0]), -1)
		return r
	case t.Op == "big" && t.S == "Mod" && len(t.A) == 2 && a.modulus(t.A[1]):
		return a.scalar(t.A[0])
	case t.Op == "big" && t.S == "Exp" && len(t.A) == 3 && a.modulus(t.A[2]):
		if n, ok := bigInt(t.A[1]); ok && n > 0 && n < 8 {
			r := konst(1)
			for i := int64(0); i < n; i++ {
				r = r.mul(a.scalar(t.A[0]))
			}
			return r
		}
	case a.modulus(t):
		return poly{}
	case a.field && isParam(t, "B", "\x07"):
		return konst(7)
	case t.Op == "call" && !a.field:
		switch t.S {
		case "bulletproofs.Sum", "bulletproofs.Mul":
			if as, ok := listArgs(t); ok {
				r := poly{}
				if t.S == "bulletproofs.Mul" {
					r = konst(1)
				}
				for _, e := range as {
					if t.S == "bulletproofs.Mul" {
						r = r.mul(a.scalar(e))
					} else {
						r.add(a.scalar(e), 1)
					}
				}
				return r
			}
		case "bulletproofs.Neg":
			r := poly{}
			r.add(a.scalar(t.A[0]), -1)
			return r
		case "bulletproofs.SubScalars":
			r := poly{}
			r.add(a.scalar(t.A[0]), 1)
			r.add(a.scalar(t.A[1]), -1)
			return r
		case "bulletproofs.Square":
			s := a.scalar(t.A[0])
			return s.mul(s)
		}
	}
	return poly{a.intern(a.text(t)): big.NewInt(1)}
}

func bigInt(t *T) (int64, bool) {
	if t.Op == "big" && t.S == "int" {
		return t.A[0].Int64()
	}
	return 0, false
}

func (a *algebra) modulus(t *T) bool {
	if a.field {
		return isParam(t, "P", stdP)
	}
	return isParam(t, "N", stdN)
}

// reduced: the value certainly lies in 0..n-1.
func (a *algebra) reduced(t *T) bool {
	t = a.deep(t)
	if t.Op == "call" {
		switch t.S {
		case "bulletproofs.Sum", "bulletproofs.Mul", "bulletproofs.Neg", "bulletproofs.SubScalars":
			return true
		}
	}
	return t.Op == "big" && t.S == "Mod" && a.modulus(t.A[1])
}

// deep follows pointers to the value behind them.
func (a *algebra) deep(t *T) *T {
	for i := 0; i < 4; i++ {
		e, ok := derefOf(t)
		if !ok {
			return t
		}
		t = a.x.Load(a.st, t, e)
	}
	return t
}

// point is t as a combination of base points.
func (a *algebra) point(t *T) map[string]poly {
	r := map[string]poly{}
	acc := func(q map[string]poly, k poly) {
		for b, c := range q {
			if r[b] == nil {
				r[b] = poly{}
			}
			r[b].add(c.mul(k), 1)
			if len(r[b]) == 0 {
				delete(r, b)
			}
		}
	}
	if n, ok := a.names[t]; ok {
		return map[string]poly{n: konst(1)}
	}
	t = a.deep(t)
	if n, ok := a.names[t]; ok {
		return map[string]poly{n: konst(1)}
	}
	if t.Op == "call" {
		switch t.S {
		case "bulletproofs.ScalarMulPoint":
			acc(a.point(t.A[0]), a.scalar(t.A[1]))
			return r
		case "bulletproofs.SumPoints":
			if as, ok := listArgs(t); ok {
				for _, e := range as {
					acc(a.point(e), konst(1))
				}
				return r
			}
		case "bulletproofs.ScalarMulPoints":
			if len(t.A) == 2 && t.A[0].Op == "list" && t.A[1].Op == "list" && len(t.A[0].A) == len(t.A[1].A) {
				for i, e := range t.A[1].A {
					acc(a.point(e), a.scalar(t.A[0].A[i]))
				}
				return r
			}
		}
	}
	if t.Op == "agg" && len(t.A) == 2 {
		x, y := a.deep(t.A[0]), a.deep(t.A[1])
		for n, xy := range map[string][2]string{"G": {stdGx, stdGy}, "H": {stdHx, stdHy}} {
			if isBytes(x, xy[0]) && isBytes(y, xy[1]) {
				return map[string]poly{n: konst(1)}
			}
		}
		// the coordinates of one point, possibly with the y-coordinate negated
		if b, c, ok := coordinate(x); ok && c == "X" {
			if b2, c2, ok := coordinate(y); ok && c2 == "Y" && b2 == b {
				return a.point(b)
			}
			if y.Op == "big" && y.S == "Sub" && isParam(a.deep(y.A[0]), "P", stdP) {
				if b2, c2, ok := coordinate(y.A[1]); ok && c2 == "Y" && b2 == b {
					acc(a.point(b), konst(-1))
					return r
				}
			}
		}
	}
	return map[string]poly{a.intern(a.text(t)): konst(1)}
}

func isBytes(t *T, s string) bool {
	return t.Op == "big" && t.S == "frombytes" && t.A[0].IsStr() && t.A[0].StrVal() == s
}

// coordinate: t is the X or Y of a point.
func coordinate(t *T) (*T, string, bool) {
	u := t
	if u.Op == "ld" {
		u = u.A[0]
	}
	if (u.Op == "fld" || u.Op == "fa") && (u.S == "X" || u.S == "Y") {
		return u.A[0], u.S, true
	}
	return nil, "", false
}

func pointText(p map[string]poly) string {
	var s []string
	for _, b := range sortedKeys(p) {
		s = append(s, "("+p[b].String()+")"+b)
	}
	return strings.Join(s, " + ")
}

// signed is a point up to its sign, and the sign.
func signed(p map[string]poly) (string, int) {
	q := map[string]poly{}
	for b, c := range p {
		q[b] = poly{}
		q[b].add(c, -1)
	}
	s, n := pointText(p), pointText(q)
	if n < s {
		return n, -1
	}
	return s, 1
}

// text prints a term with the algebraic parts normalised.
func (a *algebra) text(t *T) string {
	if n, ok := a.names[t]; ok {
		return n
	}
	if b, c, ok := coordinate(t); ok {
		p, sg := signed(a.point(b))
		if c == "X" {
			sg = 1
		}
		return fmt.Sprintf("%s%+d[%s]", c, sg, p)
	}
	if t.Op == "call" && strings.HasPrefix(t.S, "bulletproofs.") {
		switch t.S {
		case "bulletproofs.ScalarMulPoint", "bulletproofs.SumPoints":
			return "{" + pointText(a.point(t)) + "}"
		case "bulletproofs.Sum", "bulletproofs.Mul", "bulletproofs.Neg":
			return "{" + a.scalar(t).String() + "}"
		}
	}
	if len(t.A) == 0 || t.IsStr() || t.Op == "sym" {
		return t.String()
	}
	var s []string
	for _, e := range t.A {
		s = append(s, a.text(e))
	}
	return t.Op + ":" + t.S + "(" + strings.Join(s, ", ") + ")"
}

// ---- the pieces every rule needs ----

type sigRun struct {
	x  *eng.Exec
	ps []Path
	as []*T
}

func (c *Ctx) cryptoRun(name string, onEvent func(*State, *Ev)) *sigRun {
	f := c.Func("secp256k1zkp", name)
	if f == nil {
		return nil
	}
	x := c.Exec(eng.Config{OnEvent: onEvent})
	as := eng.ParamSyms(f)
	ps := x.Run(f, as)
	c.Done(x, ps)
	return &sigRun{x, ps, as}
}

// param finds the parameter of a type.
func (r *sigRun) param(typ string) *T {
	for _, p := range r.as {
		if p.Typ != nil && strings.TrimPrefix(typeName(p.Typ), "*") == typ {
			return p
		}
	}
	return nil
}

// challenge is the reference text of e.
func challenge(a *algebra, st *State, rx string, pub, msg *T) []string {
	var out []string
	pt := pub.Typ
	if e, ok := derefOf(pub); ok {
		pt = e
	}
	v := a.deep(pub)
	for _, tag := range []struct {
		odd int64
		b   string
	}{{0, "\x02"}, {1, "\x03"}} {
		bit := eng.Bit(a.deep(fld(v, pt, "Y")), eng.Int(0))
		if st.Facts().Eval(eng.EqInt(bit, eng.Int(tag.odd))) == 0 {
			continue
		}
		px := eng.Mk("call", "bulletproofs.GetB32", a.deep(fld(v, pt, "X")))
		rest := eng.Cat(eng.Str(tag.b), px, a.deep(msg))
		var s []string
		for _, e := range rest.A {
			s = append(s, a.text(e))
		}
		out = append(out, fmt.Sprintf("big:frombytes(call:sha256.Sum256(cat:(call:bulletproofs.GetB32(%s), %s)))", rx, strings.Join(s, ", ")))
	}
	return out
}

// byParity separates a path by the parity of the public key's y-coordinate.
func byParity(x *eng.Exec, p Path, pub *T) []Path {
	a := newAlgebra(x, p.St)
	pt := pub.Typ
	if e, ok := derefOf(pub); ok {
		pt = e
	}
	bit := eng.Bit(a.deep(fld(a.deep(pub), pt, "Y")), eng.Int(0))
	var out []Path
	for odd := int64(0); odd < 2; odd++ {
		st := p.St.Fork()
		if !st.Assume(eng.EqInt(bit, eng.Int(odd))) {
			continue
		}
		q := p
		q.St = st
		q.Res = nil
		for _, r := range p.Res {
			r = x.DeepVal(p.St, r, nil)
			q.Res = append(q.Res, eng.Simp(st.Facts(), eng.Subst(r, bit, eng.Int(odd))))
		}
		out = append(out, q)
	}
	return out
}

func (r *sigRun) byParity(pub *T) []Path {
	var out []Path
	for _, p := range r.ps {
		if p.End != "return" {
			out = append(out, p)
			continue
		}
		out = append(out, byParity(r.x, p, pub)...)
	}
	return out
}

func runK01(c *Ctx) {
	// verification
	if r := c.cryptoRun("VerifySignature", nil); r != nil {
		pub, msg, sig := r.param("bulletproofs.Point"), r.param("[32]byte"), r.param("secp256k1zkp.Signature")
		if !c.Must(pub != nil && msg != nil && sig != nil, "anchor", "VerifySignature", 0, "VerifySignature does not take a point, a message and a signature") {
			return
		}
		n := 0
		for _, p := range r.byParity(pub) {
			if !c.Must(p.End == "return", "returns", "VerifySignature", p.Pos, "verification ends in %s", p.End) {
				continue
			}
			n++
			a := newAlgebra(r.x, p.St)
			sv := a.deep(sig)
			st := sig.Typ
			if e, ok := derefOf(sig); ok {
				st = e
			}
			R := fld(sv, st, "R")
			a.named(pub, "P")
			a.named(R, "R")
			a.named(fld(sv, st, "S"), "s")
			rx, _ := signed(map[string]poly{"R": konst(1)})
			es := challenge(a, p.St, "X+1["+rx+"]", pub, msg)
			if !c.Must(len(es) == 1, "challenge", "parity", p.Pos, "the challenge does not depend on the parity of the public key") {
				continue
			}
			e := a.intern(es[0])
			res := p.Res[0]
			isEq := func(t *T) bool { return t.Op == "call" && t.S == "bulletproofs.Point.Equals" && len(t.A) == 2 }
			if v := p.St.Facts().Eval(eng.Cond{T: res, Pos: true}); v >= 0 && !isEq(res) {
				// a branch on the comparison
				for _, lit := range p.St.Lits() {
					if t := lit.T; isEq(t) && lit.Pos == (v == 1) {
						res = t
					}
				}
			}
			eq := isEq(res)
			if !c.Must(eq, "equation", "VerifySignature", p.Pos, "the result is %v, not a comparison of points", res) {
				continue
			}
			l, rr := a.point(res.A[0]), a.point(res.A[1])
			d := map[string]poly{}
			for b, q := range l {
				d[b] = poly{}
				d[b].add(q, 1)
			}
			for b, q := range rr {
				if d[b] == nil {
					d[b] = poly{}
				}
				d[b].add(q, -1)
				if len(d[b]) == 0 {
					delete(d, b)
				}
			}
			want := map[string]poly{"G": {"s": big.NewInt(1)}, "R": konst(-1), "P": {e: big.NewInt(-1)}}
			g, _ := signed(d)
			w, _ := signed(want)
			c.Must(g == w, "equation", "VerifySignature", p.Pos, "verification compares %s = 0, not %s = 0, with %v", g, w, a.txt)
		}
		c.Floor("verification paths", n, 1)
	}
	// signing
	if r := c.cryptoRun("SignMessage", nil); r != nil {
		pub, priv, msg := r.param("bulletproofs.Point"), r.param("big.Int"), r.param("[32]byte")
		if !c.Must(pub != nil && priv != nil && msg != nil, "anchor", "SignMessage", 0, "SignMessage does not take a point, a private key and a message") {
			return
		}
		n := 0
		for _, p := range r.byParity(pub) {
			if p.End != "return" {
				continue
			}
			n++
			a := newAlgebra(r.x, p.St)
			a.named(pub, "P")
			a.named(priv, "x")
			a.named(a.deep(priv), "x")
			S, R := r.signature(p)
			if !c.Must(S != nil, "signature", "SignMessage", p.Pos, "the result %v has no s and R", p.Res) {
				continue
			}
			rp := a.point(R)
			k := rp["G"]
			if !c.Must(len(rp) == 1 && len(k) > 0, "nonce point", "SignMessage", p.Pos, "R is %s, not a multiple of G", pointText(rp)) {
				continue
			}
			rx, _ := signed(rp)
			es := challenge(a, p.St, "X+1["+rx+"]", pub, msg)
			if !c.Must(len(es) == 1, "challenge", "parity in signing", p.Pos, "the challenge does not depend on the parity of the public key") {
				continue
			}
			want := poly{}
			want.add(k, 1)
			want.add(poly{a.intern(es[0]): big.NewInt(1)}.mul(poly{"x": big.NewInt(1)}), 1)
			got := a.scalar(S)
			c.Must(got.String() == want.String(), "response", "SignMessage", p.Pos, "s is %v, not k + e*x = %v, with %v", got, want, a.txt)
			c.Must(a.reduced(S), "reduced", "SignMessage", p.Pos, "s is not reduced modulo the curve order, its serialisation may lose bits: %v", S)
			// the y-coordinate of R is the one the decoder picks
			qr := false
			for _, l := range p.St.Lits() {
				if l.T.Op != "call" || l.T.S != "bulletproofs.IsQuadraticResidue" {
					continue
				}
				b, co, ok := coordinate(l.T.A[0])
				if !ok || co != "Y" {
					continue
				}
				q := a.point(b)
				neg := map[string]poly{}
				for n, v := range q {
					neg[n] = poly{}
					neg[n].add(v, -1)
				}
				if l.Pos && pointText(q) == pointText(rp) || !l.Pos && pointText(neg) == pointText(rp) {
					qr = true
				}
			}
			c.Must(qr, "same R", "SignMessage", p.Pos, "nothing ensures that the y-coordinate of R is the one the decoder reconstructs (path condition %s)", lits(p.St))
		}
		c.Floor("signing paths", n, 1)
	}
	// decoding: y is the square root of x^3 + 7
	if r := c.cryptoRun("DecodeSignature", nil); r != nil {
		for _, p := range r.ps {
			if !c.Must(p.End == "return", "returns", "DecodeSignature", p.Pos, "decoding ends in %s", p.End) {
				continue
			}
			c.decodedPoint(r, p)
		}
	}
}

// signature are s and R of the returned signature.
func (r *sigRun) signature(p Path) (S, R *T) {
	if len(p.Res) != 1 {
		return nil, nil
	}
	v := p.Res[0]
	t := v.Typ
	if e, ok := derefOf(v); ok {
		v, t = r.x.Load(p.St, v, e), e
	}
	if t == nil {
		return nil, nil
	}
	return fld(v, t, "S"), fld(v, t, "R")
}

func (c *Ctx) decodedPoint(r *sigRun, p Path) {
	a := newAlgebra(r.x, p.St)
	a.field = true
	_, R := r.signature(p)
	if !c.Must(R != nil, "signature", "DecodeSignature", p.Pos, "no R in %v", p.Res) {
		return
	}
	R = a.deep(R)
	x := eng.Mk("big", "frombytes", eng.SubBytes(r.x.Content(p.St, r.as[0]), eng.Int(0), eng.Int(32)))
	pt := R.Typ
	gx, gy := a.deep(fld(R, pt, "X")), a.deep(fld(R, pt, "Y"))
	c.Must(same(p.St, gx, x), "R.x", "DecodeSignature", p.Pos, "the x-coordinate of R is %v, not the first 32 bytes", gx)
	ok := gy.Op == "call" && (gy.S == "bulletproofs.ModSqrtFast" || gy.S == "bulletproofs.ModSqrtOrig")
	if !c.Must(ok, "R.y", "DecodeSignature", p.Pos, "the y-coordinate of R is %v, not a square root", gy) {
		return
	}
	a.named(x, "x")
	got := a.scalar(gy.A[0])
	want := poly{"x x x": big.NewInt(1), "": big.NewInt(7)}
	c.Must(got.String() == want.String(), "R.y", "DecodeSignature", p.Pos, "the y-coordinate of R is the root of %v, not of x^3+7", got)
}

func runK02(c *Ctx) {
	n, evs := 0, 0
	secretIn := func(t *T, secrets map[*T]bool) bool {
		var rec func(t *T) bool
		rec = func(t *T) bool {
			if secrets[t] {
				return true
			}
			if t.Op == "call" && t.S == "bulletproofs.ScalarMulPoint" {
				return rec(t.A[0])
			}
			for _, a := range t.A {
				if rec(a) {
					return true
				}
			}
			return false
		}
		return rec(t)
	}
	type seen struct {
		ev   *Ev
		args []*T
	}
	var x *eng.Exec
	var log []seen
	f := c.Func("secp256k1zkp", "SignMessage")
	if f == nil {
		return
	}
	x = c.Exec(eng.Config{OnEvent: func(st *State, e *Ev) {
		switch e.Kind {
		case "rand", "loop", "alloc", "once", "lock", "copy":
			return
		}
		var as []*T
		for _, a := range e.Args {
			v := a
			if a.Op == "iface" || a.Op == "sl" {
				v = a
			}
			as = append(as, v, x.DeepVal(st, v, nil))
			if len(a.A) > 0 && strings.HasPrefix(a.Op, "iface") {
				as = append(as, x.DeepVal(st, a.A[0], nil))
			}
		}
		log = append(log, seen{e, as})
	}})
	as := eng.ParamSyms(f)
	r := &sigRun{x: x, as: as}
	r.ps = x.Run(f, as)
	c.Done(x, r.ps)
	priv := r.param("big.Int")
	if !c.Must(priv != nil, "anchor", "SignMessage", f.Pos(), "SignMessage takes no private key") {
		return
	}
	secrets := map[*T]bool{priv: true}
	for _, p := range r.ps {
		if p.End != "return" {
			continue
		}
		n++
		a := newAlgebra(x, p.St)
		secrets[a.deep(priv)] = true
		_, R := r.signature(p)
		if !c.Must(R != nil, "signature", "SignMessage", p.Pos, "no R in %v", p.Res) {
			continue
		}
		k := nonceOf(a, R)
		if !c.Must(k != nil, "nonce", "SignMessage", p.Pos, "R is %s, not a multiple of G by a nonce", pointText(a.point(R))) {
			continue
		}
		secrets[k] = true
		// the nonce comes from the system's random source, in this very call
		fresh := false
		src := "nothing"
		if k.Op == "big" && k.S == "frombytes" {
			src = k.A[0].String()
			fresh = k.A[0].Op == "rand" && k.A[0].A[0] == eng.Int(32)
		}
		if k.Op == "call" && k.S == "rand.Int" {
			fresh = true
		}
		c.Must(fresh, "random", "SignMessage", p.Pos, "the nonce %v is not 32 fresh bytes of the cryptographic random source (%s)", k, src)
		drawn := 0
		for _, e := range p.St.Events() {
			if e.Kind == "rand" {
				drawn++
				c.Must(strings.HasPrefix(e.Name, "crypto/rand."), "random", "source", e.Pos, "randomness from %s", e.Name)
			}
		}
		c.Must(drawn > 0, "random", "drawn", p.Pos, "no randomness is drawn for this signature")
		fs := p.St.Facts()
		zero := eng.Mk("big", "0")
		c.Must(fs.Eval(eng.EqBytes("big", k, zero)) == 0 || bigLess(p.St, zero, k), "range", "zero", p.Pos, "a zero nonce is not rejected (path condition %s)", lits(p.St))
		c.Must(belowOrder(p.St, k), "range", "order", p.Pos, "a nonce not below the curve order is not rejected (path condition %s)", lits(p.St))
	}
	// if the source fails no signature is made: every returning path has the nil error
	for _, p := range r.ps {
		if p.End != "return" {
			continue
		}
		for _, l := range p.St.Lits() {
			if strings.Contains(l.T.String(), "rand.err") {
				c.Must(l.T.Op == "isnil" && l.Pos, "failure", "SignMessage", p.Pos, "a signature is made although the random source failed")
			}
		}
	}
	for _, s := range log {
		evs++
		for _, v := range s.args {
			if v != nil && secretIn(v, secrets) {
				c.Fail("secret", fmt.Sprintf("%s %s", s.ev.Kind, s.ev.Name), s.ev.Pos, "a nonce or private key reaches %s %s: %v", s.ev.Kind, s.ev.Name, v)
			}
		}
	}
	// nothing secret stays in memory that outlives the call
	for _, p := range r.ps {
		for _, w := range x.Writes(p.St) {
			root := eng.Root(w.Addr)
			if root.Op != "glob" && root.Op != "sym" {
				continue
			}
			v := w.Val
			if v.Typ != nil {
				v = x.DeepVal(p.St, v, nil)
			}
			c.Must(!secretIn(w.Val, secrets) && !secretIn(v, secrets), "secret", "kept in "+w.Addr.String(), p.Pos, "a nonce or private key is kept in %v", w.Addr)
		}
	}
	c.Floor("signing paths", n, 1)
	c.Cover["events inspected for secrets"] = evs
	// no other function of the package draws randomness elsewhere
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "secp256k1zkp" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s := in.String(); strings.Contains(s, "math/rand") {
					c.Fail("random", eng.FuncName(fn), in.Pos(), "%s uses math/rand", eng.FuncName(fn))
				}
			}
		}
	}
	// the exported generators
	if g := c.P.Func("secp256k1zkp", "RandomInt"); g != nil {
		y := c.Exec(eng.Config{})
		ps := y.Run(g, nil)
		c.Done(y, ps)
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			k := newAlgebra(y, p.St).deep(p.Res[0])
			ok := k.Op == "big" && k.S == "frombytes" && k.A[0].Op == "rand" && k.A[0].A[0] == eng.Int(32) || k.Op == "call" && k.S == "rand.Int"
			c.Must(ok, "random", "RandomInt", p.Pos, "RandomInt returns %v, not 32 fresh random bytes", k)
			zero := eng.Mk("big", "0")
			c.Must(p.St.Facts().Eval(eng.EqBytes("big", k, zero)) == 0 || bigLess(p.St, zero, k), "range", "RandomInt zero", p.Pos, "RandomInt may return zero")
			c.Must(belowOrder(p.St, k), "range", "RandomInt order", p.Pos, "RandomInt may return a value not below the curve order (path condition %s)", lits(p.St))
		}
	}
}

// nonceOf finds the scalar k (up to sign) of R = k*G.
func nonceOf(a *algebra, R *T) *T {
	R = a.deep(R)
	if R.Op == "agg" && len(R.A) == 2 {
		if b, _, ok := coordinate(a.deep(R.A[0])); ok {
			return nonceOf(a, b)
		}
	}
	if R.Op != "call" || R.S != "bulletproofs.ScalarMulPoint" {
		return nil
	}
	k := a.deep(R.A[1])
	for k.Op == "call" && k.S == "bulletproofs.Neg" || k.Op == "big" && k.S == "Sub" && isParam(a.deep(k.A[0]), "N", stdN) {
		k = a.deep(k.A[len(k.A)-1])
	}
	return k
}

func bigLess(st *State, l, r *T) bool {
	for _, q := range st.Lits() {
		if q.Pos && q.T.Op == "lt" && q.T.S == "big" && q.T.A[0] == l && q.T.A[1] == r {
			return true
		}
	}
	return false
}

func belowOrder(st *State, k *T) bool {
	if k.Op == "call" && k.S == "rand.Int" {
		return isParam(k.A[len(k.A)-1], "N", stdN)
	}
	for _, q := range st.Lits() {
		if q.Pos && q.T.Op == "lt" && q.T.S == "big" && q.T.A[0] == k && isParam(q.T.A[1], "N", stdN) {
			return true
		}
	}
	return false
}

func runK03(c *Ctx) {
	wellFormed()
	// signature
	if f := c.Method("secp256k1zkp", "Signature", "Bytes"); f != nil {
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		c.Done(x, ps)
		for _, p := range ps {
			if !c.Must(p.End == "return", "returns", "Signature.Bytes", p.Pos, "ends in %s", p.End) {
				continue
			}
			a := newAlgebra(x, p.St)
			v := a.deep(as[0])
			t := as[0].Typ
			if e, ok := derefOf(as[0]); ok {
				t = e
			}
			R := fld(v, t, "R")
			rx := a.deep(fld(R, eng.FieldType(t, "R"), "X"))
			want := eng.Cat(eng.Mk("call", "bulletproofs.GetB32", rx), eng.Mk("call", "bulletproofs.GetB32", fld(v, t, "S")))
			got := x.Content(p.St, p.Res[0])
			c.Must(a.text(got) == a.text(want) || same(p.St, got, want), "layout", "Signature.Bytes", p.Pos, "a signature is serialised as %v, not as the x-coordinate of R and s", got)
			c.Obl++
			c.Disch++
		}
	}
	if r := c.cryptoRun("DecodeSignature", nil); r != nil {
		for _, p := range r.ps {
			if !c.Must(p.End == "return", "returns", "DecodeSignature", p.Pos, "ends in %s", p.End) {
				continue
			}
			a := newAlgebra(r.x, p.St)
			S, _ := r.signature(p)
			if !c.Must(S != nil, "layout", "DecodeSignature", p.Pos, "no s in %v", p.Res) {
				continue
			}
			want := eng.Mk("big", "frombytes", eng.SubBytes(r.x.Content(p.St, r.as[0]), eng.Int(32), eng.Int(64)))
			c.Must(same(p.St, a.deep(S), want), "layout", "DecodeSignature s", p.Pos, "s is decoded from %v, not from bytes 32 to 64", a.deep(S))
			c.decodedPoint(r, p)
		}
	}
	if r := c.cryptoRun("CompressPubkey", nil); r != nil {
		n := 0
		for _, p := range r.ps {
			if !c.Must(p.End == "return", "returns", "CompressPubkey", p.Pos, "ends in %s", p.End) {
				continue
			}
			a := newAlgebra(r.x, p.St)
			v := a.deep(r.as[0])
			t := r.as[0].Typ
			if e, ok := derefOf(r.as[0]); ok {
				t = e
			}
			px := eng.Mk("call", "bulletproofs.GetB32", a.deep(fld(v, t, "X")))
			bit := eng.Bit(a.deep(fld(v, t, "Y")), eng.Int(0))
			got := r.x.Content(p.St, p.Res[0])
			for odd, tag := range []string{"\x02", "\x03"} {
				st := p.St.Fork()
				if !st.Assume(eng.EqInt(bit, eng.Int(int64(odd)))) {
					continue
				}
				n++
				want := eng.Cat(eng.Str(tag), px)
				c.Must(same(st, eng.Simp(st.Facts(), eng.Subst(got, bit, eng.Int(int64(odd)))), want), "layout", fmt.Sprintf("CompressPubkey parity %d", odd), p.Pos, "with a y-coordinate of parity %d the key is serialised as %v", odd, got)
			}
		}
		c.Floor("parities", n, 2)
	}
}

func runK04(c *Ctx) {
	f := c.Method("consensus", "Hash", "ShortID")
	if f == nil {
		return
	}
	x := c.Exec(eng.Config{})
	as := eng.ParamSyms(f)
	if !c.Must(len(as) == 2, "anchor", "Hash.ShortID", f.Pos(), "Hash.ShortID takes %d arguments", len(as)) {
		return
	}
	ps := x.Run(f, as)
	c.Done(x, ps)
	n := 0
	for _, p := range ps {
		if !c.Must(p.End == "return", "returns", "Hash.ShortID", p.Pos, "ends in %s", p.End) {
			continue
		}
		n++
		h, b := x.Content(p.St, as[0]), x.Content(p.St, as[1])
		if e, ok := derefOf(as[0]); ok {
			h = x.Content(p.St, x.Load(p.St, as[0], e))
		}
		key := func(i int64) *T {
			return eng.Num("64le", eng.SubBytes(b, eng.Int(i), eng.Int(i+8)), types.Typ[types.Uint64])
		}
		d := eng.MkT(types.Typ[types.Uint64], "call", "siphash.Hash", key(0), key(8), h)
		want := eng.SubBytes(eng.U("64le", d), eng.Int(0), eng.Int(6))
		got := x.Content(p.St, p.Res[0])
		c.Must(same(p.St, got, want), "digest", "Hash.ShortID", p.Pos, "the short id is %v, not %v", got, want)
	}
	c.Floor("paths", n, 1)
}

func runK05(c *Ctx) {
	if r := c.cryptoRun("CommitValue", nil); r != nil {
		n := 0
		for _, p := range r.ps {
			if !c.Must(p.End == "return" && len(r.as) == 2, "returns", "CommitValue", p.Pos, "ends in %s", p.End) {
				continue
			}
			n++
			a := newAlgebra(r.x, p.St)
			for i, nm := range []string{"blind", "value"} {
				a.named(r.as[i], nm)
				a.named(a.deep(r.as[i]), nm)
			}
			got := pointText(a.point(p.Res[0]))
			c.Must(got == "(1*blind)G + (1*value)H", "commitment", "CommitValue", p.Pos, "a commitment is %s, not blind*G + value*H with the standard generators (%v)", got, a.txt)
		}
		c.Floor("commitment paths", n, 1)
	}
	// the constants themselves
	pkg := c.P.Pkg("secp256k1zkp")
	if pkg == nil {
		c.Fail("anchor", "secp256k1zkp", 0, "package secp256k1zkp not found")
		return
	}
	x := c.Exec(eng.Config{})
	st := x.Start()
	for name, want := range map[string]string{"CurveOrders": stdN, "Gx": stdGx, "Gy": stdGy, "Hx": stdHx, "Hy": stdHy} {
		g := pkg.Var(name)
		if g == nil {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		v := x.Content(st, x.Load(st, x.GlobalAddr(g), t))
		c.Must(v.IsStr() && v.StrVal() == want, "constant", name, g.Pos(), "%s is %v, not the standard constant", name, v)
	}
	for name, want := range map[string][2]string{"G": {stdGx, stdGy}, "H": {stdHx, stdHy}} {
		g := pkg.Var(name)
		if !c.Must(g != nil, "anchor", name, 0, "generator %s not found", name) {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		a := newAlgebra(x, st)
		v := a.deep(x.Load(st, x.GlobalAddr(g), t))
		pt := t
		if e, ok := t.Underlying().(*types.Pointer); ok {
			pt = e.Elem()
		}
		gx, gy := a.deep(fld(v, pt, "X")), a.deep(fld(v, pt, "Y"))
		c.Must(isBytes(gx, want[0]) && isBytes(gy, want[1]), "constant", name, g.Pos(), "generator %s is (%v, %v), not the standard one", name, gx, gy)
	}
	c.Must(pkg.Var("CurveOrders") != nil, "anchor", "CurveOrders", 0, "the curve order is gone")
}

func init() {
	register("K01", "symbolic value analysis of signing, verifying and decoding, compared in a normal form of the scalar and group algebra (abstract interpretation over SSA)",
		"The comparison VerifySignature returns, on every path, is s*G - R - e*P = 0 with e the hash of R.x, the compressed key (by parity) and the message; SignMessage returns k + e*x reduced, with R = k*G, the same e, and a path condition that fixes the y-coordinate of R to the residue; DecodeSignature takes the root of x^3+7.", runK01,
		"the bulletproofs and btcec libraries compute the group operations; ModSqrtFast returns the root that is a quadratic residue (p = 3 mod 4)")
	register("K02", "value-flow (taint) analysis from the random source to R and from secrets to every output (abstract interpretation over SSA)",
		"On every signing path the nonce is exactly 32 bytes drawn from crypto/rand in this call, the path condition excludes 0 and values from the curve order on, a failing source reaches no return, and no event argument or global contains nonce or private key except under multiplication with a base point.", runK02,
		"crypto/rand is the operating system's source")
	register("K03", "comparison of the symbolic serialisation with a reference layout (abstract interpretation over SSA)",
		"Signature.Bytes, DecodeSignature and CompressPubkey are interpreted on arbitrary inputs and their results compared with the fixed layouts, for both parities.", runK03,
		"GetB32 is the 32-byte big-endian form")
	register("K04", "comparison of the symbolic result with a reference term (abstract interpretation over SSA)",
		"Hash.ShortID on arbitrary hash and block id equals the first 6 bytes, little-endian, of siphash.Hash keyed by the first two little-endian words of the block id.", runK04,
		"github.com/dchest/siphash implements SipHash-2-4")
	register("K05", "constant evaluation of the generators and comparison of the commitment in a normal form of the group algebra (abstract interpretation over SSA)",
		"The package's generators and curve order are evaluated from their initialisers and compared with the standard constants; CommitValue is blind*G + value*H.", runK05)
}
