// Package eng is a path-sensitive abstract interpreter over go/ssa with
// hash-consed value numbers. It never runs the analysed code.
package eng

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is a hash-consed term (a value number). Two SSA values with the same *T
// are equal on every execution along the path on which they were computed.
type T struct {
	Op string
	S  string
	A  []*T
	N  *big.Int
	Co []*big.Int // coefficients of a linear form, parallel to A
	// Typ is the Go type where it is known; not part of the identity.
	Typ types.Type
	Fn  *ssa.Function // for Op "fn"
	ID  int
	ks  int // bit 1: mentions a bound index J
}

var (
	interned = map[string]*T{}
	termList []*T
)

func mk(t T) *T {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.S)
	if t.N != nil {
		b.WriteByte('#')
		b.WriteString(t.N.String())
	}
	for i, a := range t.A {
		fmt.Fprintf(&b, ",%d", a.ID)
		if t.Co != nil {
			b.WriteByte('*')
			b.WriteString(t.Co[i].String())
		}
	}
	k := b.String()
	if o, ok := interned[k]; ok {
		if o.Typ == nil && t.Typ != nil {
			o.Typ = t.Typ
		}
		return o
	}
	n := t
	n.A = append([]*T(nil), t.A...)
	n.ID = len(termList)
	interned[k] = &n
	termList = append(termList, &n)
	return &n
}

// Mk builds an uninterpreted term.
func Mk(op, s string, args ...*T) *T { return mk(T{Op: op, S: s, A: args}) }

func mkT(typ types.Type, op, s string, args ...*T) *T {
	return mk(T{Op: op, S: s, A: args, Typ: typ})
}

// MkT builds an uninterpreted term of a Go type.
func MkT(typ types.Type, op, s string, args ...*T) *T { return mkT(typ, op, s, args...) }

func Int(n int64) *T           { return mk(T{Op: "int", N: big.NewInt(n)}) }
func BigInt(n *big.Int) *T     { return mk(T{Op: "int", N: n}) }
func Str(s string) *T          { return mk(T{Op: "str", S: s}) }
func Sym(s string, a ...*T) *T { return mk(T{Op: "sym", S: s, A: a}) }

var (
	True  = mk(T{Op: "bool", S: "true"})
	False = mk(T{Op: "bool", S: "false"})
	Nil   = mk(T{Op: "nil"})
	// J is the bound variable of loop templates.
	J = mk(T{Op: "sym", S: "j!"})
	// Zero and One are integer constants.
	Zero = Int(0)
	One  = Int(1)
)

func Bool(b bool) *T {
	if b {
		return True
	}
	return False
}

func (t *T) IsInt() bool { return t.Op == "int" }

// Int64 returns the constant value; ok is false when t is not a small constant.
func (t *T) Int64() (int64, bool) {
	if t.Op == "int" && t.N.IsInt64() {
		return t.N.Int64(), true
	}
	return 0, false
}

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if d > 24 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.A {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "int":
		return t.N.String()
	case "str":
		return fmt.Sprintf("%q", t.S)
	case "bool":
		return t.S
	case "nil":
		return "nil"
	case "sym":
		if len(t.A) > 0 {
			return t.S + "(" + args() + ")"
		}
		return t.S
	case "lin":
		var p []string
		for i, a := range t.A {
			c := t.Co[i]
			if c.IsInt64() && c.Int64() == 1 {
				p = append(p, a.str(d+1))
			} else if c.IsInt64() && c.Int64() == -1 {
				p = append(p, "-"+a.str(d+1))
			} else {
				p = append(p, c.String()+"*"+a.str(d+1))
			}
		}
		if t.N.Sign() != 0 {
			p = append(p, t.N.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case "fa":
		return "&" + derefStr(t.A[0], d) + "." + t.S
	case "ia":
		return "&" + derefStr(t.A[0], d) + "[" + t.A[1].str(d+1) + "]"
	case "ld":
		s := t.A[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.S != "" {
			s += "@" + t.S
		}
		return s
	case "le":
		return t.A[0].str(d+1) + "<=" + t.N.String()
	case "eqi":
		return t.A[0].str(d+1) + "==" + t.N.String()
	case "eq", "eqb":
		return t.A[0].str(d+1) + "==" + t.A[1].str(d+1)
	case "fld":
		return t.A[0].str(d+1) + "." + t.S
	case "glob":
		return "&" + t.S
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + "(" + args() + ")"
}

func derefStr(t *T, d int) string {
	s := t.str(d + 1)
	if strings.HasPrefix(s, "&") {
		return s[1:]
	}
	return s
}

// ---- linear integer forms ----

type lin struct {
	c *big.Int
	m map[*T]*big.Int
}

func toLin(t *T) lin {
	l := lin{new(big.Int), map[*T]*big.Int{}}
	switch t.Op {
	case "int":
		l.c.Set(t.N)
	case "lin":
		l.c.Set(t.N)
		for i, a := range t.A {
			l.m[a] = new(big.Int).Set(t.Co[i])
		}
	default:
		l.m[t] = big.NewInt(1)
	}
	return l
}

func (l lin) term() *T {
	var ms []*T
	for m, c := range l.m {
		if c.Sign() != 0 {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return BigInt(l.c)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	if len(ms) == 1 && l.c.Sign() == 0 && l.m[ms[0]].Cmp(big.NewInt(1)) == 0 {
		return ms[0]
	}
	t := T{Op: "lin", N: new(big.Int).Set(l.c), A: ms}
	for _, m := range ms {
		t.Co = append(t.Co, new(big.Int).Set(l.m[m]))
	}
	return mk(t)
}

func (l lin) addScaled(o lin, k *big.Int) {
	l.c.Add(l.c, new(big.Int).Mul(o.c, k))
	for m, c := range o.m {
		if l.m[m] == nil {
			l.m[m] = new(big.Int)
		}
		l.m[m].Add(l.m[m], new(big.Int).Mul(c, k))
	}
}

func Add(a, b *T) *T {
	l := toLin(a)
	l.addScaled(toLin(b), big.NewInt(1))
	return l.term()
}

func Sub(a, b *T) *T {
	l := toLin(a)
	l.addScaled(toLin(b), big.NewInt(-1))
	return l.term()
}

func Scale(a *T, k *big.Int) *T {
	l := lin{new(big.Int), map[*T]*big.Int{}}
	l.addScaled(toLin(a), k)
	return l.term()
}

func AddN(a *T, n int64) *T { return Add(a, Int(n)) }

func monoFactors(t *T) []*T {
	if t.Op == "mul" {
		return t.A
	}
	return []*T{t}
}

func Mul(a, b *T) *T {
	if a.Op == "int" {
		return Scale(b, a.N)
	}
	if b.Op == "int" {
		return Scale(a, b.N)
	}
	la, lb := toLin(a), toLin(b)
	r := lin{new(big.Int).Mul(la.c, lb.c), map[*T]*big.Int{}}
	add := func(m *T, c *big.Int) {
		if r.m[m] == nil {
			r.m[m] = new(big.Int)
		}
		r.m[m].Add(r.m[m], c)
	}
	for m, c := range la.m {
		add(m, new(big.Int).Mul(c, lb.c))
	}
	for m, c := range lb.m {
		add(m, new(big.Int).Mul(c, la.c))
	}
	for m1, c1 := range la.m {
		for m2, c2 := range lb.m {
			f := append(append([]*T{}, monoFactors(m1)...), monoFactors(m2)...)
			sort.Slice(f, func(i, j int) bool { return f[i].ID < f[j].ID })
			add(mk(T{Op: "mul", A: f}), new(big.Int).Mul(c1, c2))
		}
	}
	return r.term()
}

// isPow2 returns the exponent when n is a power of two.
func isPow2(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	b := uint(n.BitLen() - 1)
	return b, new(big.Int).Lsh(big.NewInt(1), b).Cmp(n) == 0
}

func Quo(a, b *T) *T {
	if a.Op == "num" && b.Op == "int" {
		// the top byte of a decoded number
		if e, ok := isPow2(b.N); ok && int64(e) == 8*(widths[a.S]-1) && e > 0 {
			if strings.HasSuffix(a.S, "le") {
				return ByteAt(a.A[0], Int(widths[a.S]-1))
			}
			return ByteAt(a.A[0], Zero)
		}
	}
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.N, b.N))
	}
	if b.Op == "int" && b.N.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if q, _, ok := divides(a, b); ok {
		return q
	}
	return Mk("quo", "", a, b)
}

// Bit is bit i of x, 0 or 1.
func Bit(x, i *T) *T {
	if x.Op == "int" && i.Op == "int" && i.N.IsInt64() {
		return Int(int64(x.N.Bit(int(i.N.Int64()))))
	}
	if x.Op == "cv" && i.Op == "int" {
		// a conversion keeps the low bits
		if r := typeRange(x.Typ); r.Hi != nil && int64(r.Hi.BitLen()) > i.N.Int64() {
			return Bit(x.A[0], i)
		}
	}
	// bit P mod 8 of byte P/8 of a byte string is bit P of the string
	if x.Op == "byteat" && i.Op == "rem" && i.A[1].Op == "int" && i.A[1].N.Cmp(big.NewInt(8)) == 0 {
		d := Sub(x.A[1], Mk("quo", "", i.A[0], Int(8)))
		if !d.Mentions(i.A[0]) {
			return CBit(x.A[0], Add(i.A[0], Scale(d, big.NewInt(8))))
		}
	}
	return mkT(types.Typ[types.Uint8], "bit", "", x, i)
}

// CBit is bit p (counted from the low end of each byte) of a byte string.
func CBit(c, p *T) *T {
	if c.Op == "sub" {
		return CBit(c.A[0], Add(p, Scale(c.A[1], big.NewInt(8))))
	}
	return mkT(types.Typ[types.Uint8], "cbit", "", c, p)
}

// SetBit sets bit p of the byte string or number v; ok recognises the store
// of byte b at index i of v as such.
func setBitOf(v, i, b *T) (*T, bool) {
	if b.Op != "or" || len(b.A) != 2 {
		return nil, false
	}
	for n := 0; n < 2; n++ {
		old, m := b.A[n], b.A[1-n]
		if old != ByteAt(v, i) {
			continue
		}
		if m.Op == "cv" {
			m = m.A[0]
		}
		if m.Op != "pow2" {
			continue
		}
		e := m.A[0]
		if e.Op != "rem" || e.A[1].Op != "int" || e.A[1].N.Cmp(big.NewInt(8)) != 0 {
			continue
		}
		d := Sub(i, Mk("quo", "", e.A[0], Int(8)))
		if d.Mentions(e.A[0]) {
			continue
		}
		return Mk("sb", "", v, Mk("sb1", "", Add(e.A[0], Scale(d, big.NewInt(8))), True)), true
	}
	return nil, false
}

func Rem(a, b *T) *T {
	if b.Op == "int" && b.N.Cmp(big.NewInt(2)) == 0 {
		if a.Op == "quo" && a.A[1].Op == "pow2" {
			return Bit(a.A[0], a.A[1].A[0])
		}
		if a.Op == "quo" && a.A[1].Op == "int" {
			if e, ok := isPow2(a.A[1].N); ok {
				return Bit(a.A[0], Int(int64(e)))
			}
		}
		if a.Op != "int" && a.Op != "lin" {
			return Bit(a, Zero)
		}
	}
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		return BigInt(new(big.Int).Rem(a.N, b.N))
	}
	if b.Op == "int" && b.N.Cmp(big.NewInt(1)) == 0 {
		return Zero
	}
	if _, r, ok := divides(a, b); ok {
		return BigInt(r)
	}
	return Mk("rem", "", a, b)
}

// divides writes a non-negative a as m*q + r with a constant r.
func divides(a, m *T) (q *T, r *big.Int, ok bool) {
	if a.Op != "lin" || m.Op != "int" || m.N.Sign() <= 0 || a.N.Sign() < 0 {
		return nil, nil, false
	}
	l := lin{new(big.Int), map[*T]*big.Int{}}
	for i, t := range a.A {
		if t.Typ == nil || a.Co[i].Sign() < 0 {
			return nil, nil, false
		}
		if lo := typeRange(t.Typ).Lo; lo == nil || lo.Sign() < 0 {
			return nil, nil, false
		}
		k, rest := new(big.Int).QuoRem(a.Co[i], m.N, new(big.Int))
		if rest.Sign() != 0 {
			return nil, nil, false
		}
		l.m[t] = k
	}
	k, rest := new(big.Int).QuoRem(a.N, m.N, new(big.Int))
	l.c.Set(k)
	return l.term(), rest, true
}

func Shl(a, b *T) *T {
	if b.Op == "int" && b.N.IsInt64() && b.N.Int64() < 4096 && b.N.Sign() >= 0 {
		return Scale(a, new(big.Int).Lsh(big.NewInt(1), uint(b.N.Int64())))
	}
	return Mul(a, Mk("pow2", "", b))
}

func Shr(a, b *T) *T {
	if b.Op == "int" && b.N.IsInt64() && b.N.Int64() < 4096 && b.N.Sign() >= 0 {
		return Quo(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.N.Int64()))))
	}
	return Mk("quo", "", a, Mk("pow2", "", b))
}

func flat(op string, a, b *T) []*T {
	var r []*T
	for _, x := range []*T{a, b} {
		if x.Op == op {
			r = append(r, x.A...)
		} else {
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func And(a, b *T) *T {
	if a.Op == "int" && b.Op == "int" {
		return BigInt(new(big.Int).And(a.N, b.N))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.N.Sign() == 0 {
			return Zero
		}
		// x & (2^n-1) is x mod 2^n
		if _, ok := isPow2(new(big.Int).Add(b.N, big.NewInt(1))); ok {
			return Rem(a, BigInt(new(big.Int).Add(b.N, big.NewInt(1))))
		}
	}
	if a == b {
		return a
	}
	// x & (1<<i) is 2^i times bit i of x
	for _, p := range [][2]*T{{a, b}, {b, a}} {
		m := p[1]
		if m.Op == "pow2" {
			return Mul(m, Bit(p[0], m.A[0]))
		}
		if m.Op == "cv" && m.A[0].Op == "pow2" && p[0].Typ != nil {
			r, q := typeRange(p[0].Typ), typeRange(m.Typ)
			if r.Lo != nil && r.Lo.Sign() >= 0 && q.Hi != nil && r.Hi.Cmp(q.Hi) <= 0 && q.Lo.Sign() == 0 {
				return Mul(m.A[0], Bit(p[0], m.A[0].A[0]))
			}
		}
		if m.Op == "int" {
			if e, ok := isPow2(m.N); ok {
				return Mul(m, Bit(p[0], Int(int64(e))))
			}
		}
	}
	return mk(T{Op: "and", A: flat("and", a, b)})
}

// lowBits: a number below 2^k joined with a multiple of 2^k.
func lowBits(a, b *T) (*T, bool) {
	for _, p := range [][2]*T{{a, b}, {b, a}} {
		c, m := p[0], p[1]
		if c.Op != "int" || c.N.Sign() <= 0 || m.Op != "lin" {
			continue
		}
		low := new(big.Int).Lsh(big.NewInt(1), uint(c.N.BitLen()))
		ok := new(big.Int).Mod(m.N, low).Sign() == 0
		for _, k := range m.Co {
			ok = ok && new(big.Int).Mod(k, low).Sign() == 0
		}
		if ok {
			return Add(a, b), true
		}
	}
	return nil, false
}

func Or(a, b *T) *T {
	if a.Op == "int" && b.Op == "int" {
		return BigInt(new(big.Int).Or(a.N, b.N))
	}
	if t, ok := lowBits(a, b); ok {
		return t
	}
	if a == Zero {
		return b
	}
	if b == Zero || a == b {
		return a
	}
	for _, p := range [][2]*T{{a, b}, {b, a}} {
		if q := p[1]; q.Op == "quo" && q.A[1].Op == "int" {
			if e, ok := isPow2(q.A[1].N); ok && e < 64 && e > 0 {
				if Scale(q.A[0], new(big.Int).Lsh(big.NewInt(1), 64-e)) == p[0] {
					return RotL(q.A[0], int64(64-e))
				}
			}
		}
	}
	// no bit in common
	for _, p := range [][2]*T{{a, b}, {b, a}} {
		c, m := p[0], p[1]
		if m.Op != "lin" || c.Op == "or" || c.Op == "int" {
			continue
		}
		key, fac, off := keyOf(c)
		r := noFacts.base(key, 0)
		if r.Lo == nil || r.Hi == nil || r.Lo.Sign() < 0 || fac.Sign() <= 0 || off.Sign() < 0 {
			continue
		}
		hi := new(big.Int).Mul(r.Hi, fac)
		if hi.Add(hi, off).BitLen() > 64 {
			continue
		}
		low := new(big.Int).Lsh(big.NewInt(1), uint(hi.BitLen()))
		ok := new(big.Int).Mod(m.N, low).Sign() == 0
		for _, k := range m.Co {
			ok = ok && new(big.Int).Mod(k, low).Sign() == 0
		}
		if ok {
			return Add(a, b)
		}
	}
	return mk(T{Op: "or", A: flat("or", a, b)})
}

func RotL(a *T, n int64) *T {
	return mk(T{Op: "rotl", A: []*T{a}, N: big.NewInt(((n % 64) + 64) % 64)})
}

func Xor(a, b *T) *T {
	if a.Op == "int" && b.Op == "int" {
		return BigInt(new(big.Int).Xor(a.N, b.N))
	}
	if t, ok := lowBits(a, b); ok {
		return t
	}
	fs := flat("xor", a, b)
	var r []*T
	for _, f := range fs {
		if n := len(r); n > 0 && r[n-1] == f {
			r = r[:n-1]
			continue
		}
		r = append(r, f)
	}
	c := new(big.Int)
	var q []*T
	for _, f := range r {
		if f.Op == "int" {
			c.Xor(c, f.N)
		} else {
			q = append(q, f)
		}
	}
	if c.Sign() != 0 {
		q = append(q, BigInt(c))
		sort.Slice(q, func(i, j int) bool { return q[i].ID < q[j].ID })
	}
	switch len(q) {
	case 0:
		return Zero
	case 1:
		return q[0]
	}
	return mk(T{Op: "xor", A: q})
}

func AndNot(a, b *T) *T {
	if a.Op == "int" && b.Op == "int" {
		return BigInt(new(big.Int).AndNot(a.N, b.N))
	}
	// x &^ (2^n-1) == x - x mod 2^n
	if b.Op == "int" {
		if _, ok := isPow2(new(big.Int).Add(b.N, big.NewInt(1))); ok {
			return Sub(a, Rem(a, BigInt(new(big.Int).Add(b.N, big.NewInt(1)))))
		}
	}
	return Sub(a, And(a, b))
}

// ---- atoms ----

// Cond is a literal: an atom and its polarity.
type Cond struct {
	T   *T
	Pos bool
}

func (c Cond) String() string {
	if c.Pos {
		return c.T.String()
	}
	return "¬(" + c.T.String() + ")"
}

func (c Cond) Not() Cond { return Cond{c.T, !c.Pos} }

// Term returns the boolean term of the literal.
func (c Cond) Term() *T {
	if c.Pos {
		return c.T
	}
	if c.T == True {
		return False
	}
	if c.T == False {
		return True
	}
	return Mk("not", "", c.T)
}

// CondOf turns a boolean term into a literal.
func CondOf(t *T) Cond {
	if t.Op == "not" {
		return CondOf(t.A[0]).Not()
	}
	if t == False {
		return Cond{True, false}
	}
	return Cond{t, true}
}

// keyOf splits a linear form into a canonical key (constant-free, leading
// coefficient positive, gcd 1), the factor and the constant: t = f*key + c.
func keyOf(t *T) (key *T, f, c *big.Int) {
	l := toLin(t)
	c = new(big.Int).Set(l.c)
	l.c = new(big.Int)
	k := l.term()
	if k.Op == "int" {
		return nil, big.NewInt(1), c
	}
	if k.Op != "lin" {
		return k, big.NewInt(1), c
	}
	g := new(big.Int)
	for _, x := range k.Co {
		g.GCD(nil, nil, g, new(big.Int).Abs(x))
	}
	if k.Co[0].Sign() < 0 {
		g.Neg(g)
	}
	r := lin{new(big.Int), map[*T]*big.Int{}}
	for i, a := range k.A {
		r.m[a] = new(big.Int).Quo(k.Co[i], g)
	}
	return r.term(), g, c
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean
	if b.Sign() < 0 && m.Sign() != 0 {
		q.Sub(q, big.NewInt(1))
	}
	return q
}

// LE is the literal t <= 0.
func leZero(t *T) Cond {
	key, f, c := keyOf(t)
	if key == nil {
		return Cond{True, c.Sign() <= 0}
	}
	nc := new(big.Int).Neg(c)
	if f.Sign() > 0 { // key <= floor(-c/f)
		return mkLE(key, floorDiv(nc, f))
	}
	// -|f|*key <= -c  <=>  key >= ceil(c/|f|)  <=> not key <= ceil-1
	af := new(big.Int).Abs(f)
	ceil := new(big.Int).Neg(floorDiv(nc, af))
	return mkLE(key, ceil.Sub(ceil, big.NewInt(1))).Not()
}

func mkLE(key *T, n *big.Int) Cond {
	if key.Op == "cmp" && n.IsInt64() {
		switch v := n.Int64(); {
		case v < -1:
			return Cond{True, false}
		case v == -1:
			return Cond{Mk("lt", key.S, key.A[0], key.A[1]), true}
		case v == 0:
			return Cond{Mk("lt", key.S, key.A[1], key.A[0]), false}
		default:
			return Cond{True, true}
		}
	}
	// at the edge of the static range the comparison is an equality
	r := noFacts.base(key, 0)
	if r.Lo != nil {
		if r.Lo.Cmp(n) > 0 {
			return Cond{True, false}
		}
		if r.Lo.Cmp(n) == 0 {
			return eqAtom(key, n)
		}
	}
	if r.Hi != nil {
		if r.Hi.Cmp(n) <= 0 {
			return Cond{True, true}
		}
		if m := new(big.Int).Add(n, big.NewInt(1)); r.Hi.Cmp(m) == 0 {
			return eqAtom(key, m).Not()
		}
	}
	return Cond{mk(T{Op: "le", A: []*T{key}, N: n}), true}
}

var noFacts = newFacts()

func eqAtom(key *T, q *big.Int) Cond {
	if (key.Op == "bit" || key.Op == "cbit") && q.IsInt64() {
		switch q.Int64() {
		case 0:
			return Cond{mk(T{Op: "eqi", A: []*T{key}, N: new(big.Int)}), true}
		case 1:
			return Cond{mk(T{Op: "eqi", A: []*T{key}, N: new(big.Int)}), false}
		}
		return Cond{True, false}
	}
	if key.Op == "mul" && q.Sign() == 0 {
		var rest []*T
		for _, a := range key.A {
			if a.Op != "pow2" {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 {
			return eqAtom(rest[0], q)
		}
	}
	return Cond{mk(T{Op: "eqi", A: []*T{key}, N: q}), true}
}

// Le is the literal a <= b over the integers.
func Le(a, b *T) Cond { return leZero(Sub(a, b)) }

// Lt is the literal a < b over the integers.
func Lt(a, b *T) Cond { return leZero(AddN(Sub(a, b), 1)) }

// EqInt is the literal a == b over the integers.
func EqInt(a, b *T) Cond {
	key, f, c := keyOf(Sub(a, b))
	if key == nil {
		return Cond{True, c.Sign() == 0}
	}
	nc := new(big.Int).Neg(c)
	q, m := new(big.Int).QuoRem(nc, f, new(big.Int))
	if m.Sign() != 0 {
		return Cond{True, false}
	}
	if key.Op == "cmp" && q.IsInt64() {
		switch q.Int64() {
		case 0:
			return EqBytes(key.S, key.A[0], key.A[1])
		case -1:
			return Cond{Mk("lt", key.S, key.A[0], key.A[1]), true}
		case 1:
			return Cond{Mk("lt", key.S, key.A[1], key.A[0]), true}
		default:
			return Cond{True, false}
		}
	}
	return eqAtom(key, q)
}

// EqBytes is equality of two byte strings (or big integers, kind "big").
func EqBytes(kind string, a, b *T) Cond {
	if a == b {
		return Cond{True, true}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return Cond{Mk("eqb", kind, a, b), true}
}

// IsNil is the literal x == nil.
func IsNil(x *T) Cond {
	switch x.Op {
	case "nil":
		return Cond{True, true}
	case "al", "fa", "ia", "iface", "err", "fn", "mkslice", "mkmap", "mkchan", "glob", "cat", "coll", "append", "brd", "bufrd":
		return Cond{True, false}
	case "call":
		if x.S == "net.IP.To4!" {
			return Cond{True, false}
		}
	}
	return Cond{Mk("isnil", "", x), true}
}

// Eq is equality of two non-integer terms.
func Eq(a, b *T) Cond {
	if a == b {
		return Cond{True, true}
	}
	if a.Op == "nil" {
		return IsNil(b)
	}
	if b.Op == "nil" {
		return IsNil(a)
	}
	if a.Op == "bool" && b.Op != "bool" {
		a, b = b, a
	}
	if b.Op == "bool" {
		c := CondOf(a)
		if b == False {
			return c.Not()
		}
		return c
	}
	if a.Op == "str" && b.Op == "str" {
		return Cond{True, a.S == b.S}
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.S != b.S {
			return Cond{True, false}
		}
		return Eq(a.A[0], b.A[0])
	}
	if b.Op == "str" && b.S == "" {
		return EqInt(Len(a), Zero)
	}
	if a.Op == "str" && a.S == "" {
		return EqInt(Len(b), Zero)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return Cond{Mk("eq", "", a, b), true}
}

// Len is the length of a slice, string, map or byte string.
func Len(x *T) *T {
	switch x.Op {
	case "nil":
		return Zero
	case "str":
		return Int(int64(len(x.S)))
	case "sl":
		return Sub(x.A[2], x.A[1])
	case "mkslice":
		return x.A[0]
	case "append":
		r := Len(x.A[0])
		return AddN(r, int64(len(x.A)-1))
	case "appends":
		return Add(Len(x.A[0]), Len(x.A[1]))
	case "coll":
		return Add(Len(x.A[0]), x.A[2])
	case "cat":
		r := Zero
		for _, p := range x.A {
			r = Add(r, ByteLen(p))
		}
		return r
	case "u", "zeros", "sub":
		return ByteLen(x)
	case "upd", "upd1", "sb":
		return Len(x.A[0])
	case "rep":
		n, j, b := x.A[0], x.A[1], x.A[2]
		if len(x.A) == 4 {
			n, j, b = Sub(x.A[1], x.A[0]), x.A[2], x.A[3]
		}
		if l := ByteLen(b); !l.Mentions(j) {
			return Mul(n, l)
		}
	case "ite":
		if a, b := Len(x.A[1]), Len(x.A[2]); a == b {
			return a
		}
	case "call":
		switch x.S {
		case "bytes.Repeat":
			return Mul(Len(x.A[0]), x.A[1])
		}
		if n, ok := FixedLen[x.S]; ok {
			return Int(n)
		}
	}
	if LenHook != nil {
		if n, ok := LenHook(x); ok {
			return Int(n)
		}
	}
	if x.Typ != nil {
		if a, ok := x.Typ.Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
		if n, ok := x.Typ.(*types.Named); ok && (x.Op == "ld" || x.Op == "sym" || x.Op == "fld" || x.Op == "elem") {
			if l, ok := TypeLen[TypeKey(n)]; ok {
				return Int(l)
			}
		}
	}
	return mkT(types.Typ[types.Int], "len", "", x)
}

// LenHook and RangeHook let a rule assume the length or range of what it
// starts from.
var (
	LenHook   func(x *T) (int64, bool)
	RangeHook func(x *T) (Ival, bool)
)

// TypeLen are the assumed lengths of the values of named slice types.
var TypeLen = map[string]int64{}

// FixedLen lists pure functions with a result of known length.
var FixedLen = map[string]int64{}

// ByteLen is the length of a part of a byte string.
func ByteLen(p *T) *T {
	switch p.Op {
	case "u":
		switch p.S {
		case "8":
			return Int(1)
		case "16be", "16le":
			return Int(2)
		case "32be", "32le":
			return Int(4)
		case "64be", "64le":
			return Int(8)
		}
	case "zeros":
		return p.A[0]
	case "sub":
		return Sub(p.A[2], p.A[1])
	}
	return Len(p)
}

// Cat concatenates byte strings.
func Cat(parts ...*T) *T {
	var r []*T
	push := func(p *T) {
		if n := len(r); n > 0 {
			q := r[n-1]
			if p.Op == "str" && q.Op == "str" {
				r[n-1] = Str(q.S + p.S)
				return
			}
			if p.Op == "sub" && q.Op == "sub" && p.A[0] == q.A[0] && q.A[2] == p.A[1] {
				m := SubBytes(p.A[0], q.A[1], p.A[2])
				r[n-1] = m
				return
			}
		}
		r = append(r, p)
	}
	for _, p := range parts {
		switch {
		case p.Op == "cat":
			for _, q := range p.A {
				push(q)
			}
		case p.Op == "nil":
		case p.Op == "str" && p.S == "":
		case p.Op != "rep" && ByteLen(p) == Zero:
		default:
			push(p)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk(T{Op: "cat", A: r})
}

// CatParts lists the parts of a byte string.
func CatParts(t *T) []*T {
	if t.Op == "cat" {
		return t.A
	}
	if t.Op == "nil" {
		return nil
	}
	return []*T{t}
}

// ---- substitution and inspection ----

// Subst replaces the term from by to, rebuilding normal forms.
func Subst(t, from, to *T) *T {
	return SubstMap(t, map[*T]*T{from: to})
}

func SubstMap(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	for k, v := range m {
		memo[k] = v
	}
	return subst(t, memo)
}

func subst(t *T, memo map[*T]*T) *T {
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.A) == 0 {
		return t
	}
	changed := false
	na := make([]*T, len(t.A))
	for i, a := range t.A {
		na[i] = subst(a, memo)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *T, na []*T) *T {
	switch t.Op {
	case "lin":
		r := BigInt(t.N)
		for i, a := range na {
			r = Add(r, Scale(a, t.Co[i]))
		}
		return r
	case "mul":
		r := na[0]
		for _, a := range na[1:] {
			r = Mul(r, a)
		}
		return r
	case "quo":
		return Quo(na[0], na[1])
	case "rem":
		return Rem(na[0], na[1])
	case "and", "or", "xor":
		f := map[string]func(a, b *T) *T{"and": And, "or": Or, "xor": Xor}[t.Op]
		r := na[0]
		for _, a := range na[1:] {
			r = f(r, a)
		}
		return r
	case "le":
		return mkTermLE(na[0], t.N)
	case "eqi":
		return EqInt(na[0], BigInt(t.N)).Term()
	case "eqb":
		return EqBytes(t.S, na[0], na[1]).Term()
	case "eq":
		return Eq(na[0], na[1]).Term()
	case "isnil":
		return IsNil(na[0]).Term()
	case "not":
		return CondOf(na[0]).Not().Term()
	case "len":
		return Len(na[0])
	case "cat":
		return Cat(na...)
	case "sub":
		return SubBytes(na[0], na[1], na[2])
	case "byteat":
		return ByteAt(na[0], na[1])
	case "u":
		return U(t.S, na[0])
	case "num":
		return Num(t.S, na[0], t.Typ)
	case "zeros":
		return Zeros(na[0])
	case "bit":
		return Bit(na[0], na[1])
	case "cbit":
		return CBit(na[0], na[1])
	case "sbrep":
		if na[0] == Zero {
			return Mk("sb0", "")
		}
	case "sb":
		if na[1].Op == "sb0" {
			return na[0]
		}
	case "nb":
		return NBits(t.Typ, na[0], na[1])
	case "ld":
		return Ld(na[0], t.S, t.Typ)
	case "fld":
		return Fld(na[0], t.S, t.Typ)
	case "elem":
		return Elem(na[0], na[1], t.Typ)
	case "ia":
		return IA(na[0], na[1], t.Typ)
	case "sl":
		return Sl(na[0], na[1], na[2])
	case "cv":
		if na[0].Op == "int" {
			if r := typeRange(t.Typ); r.Lo != nil && r.Lo.Cmp(na[0].N) <= 0 && r.Hi.Cmp(na[0].N) >= 0 {
				return na[0]
			}
		}
	case "pow2":
		return Shl(One, na[0])
	case "ite":
		return Ite(na[0], na[1], na[2])
	case "fa":
		var ft types.Type
		if t.Typ != nil {
			ft = pointee(t.Typ)
		}
		r := FA(na[0], t.S, ft)
		if o := faOwner[t]; o != nil && faOwner[r] == nil {
			faOwner[r] = o
		}
		return r
	case "rep":
		if len(na) == 4 {
			return RepFrom(na[0], na[1], na[2], na[3])
		}
		if na[0] == Zero {
			return Cat()
		}
		if n, ok := na[0].Int64(); ok && n == 1 {
			return Subst(na[2], na[1], Zero)
		}
	case "from":
		return From(na[0], na[1])
	case "append":
		if na[0].Op == "append" {
			n := *t
			n.A = append(append([]*T{}, na[0].A...), na[1:]...)
			return mk(n)
		}
	case "coll":
		if na[2] == Zero {
			return na[0]
		}
	case "cmp":
		if na[0] == na[1] {
			return Zero
		}
	}
	n := *t
	n.A = na
	return mk(n)
}

func mkTermLE(x *T, n *big.Int) *T { return leZero(Sub(x, BigInt(n))).Term() }

// Mentions reports whether x occurs in t.
func (t *T) Mentions(x *T) bool { return t.Any(func(s *T) bool { return s == x }) }

// Any reports whether f holds for some subterm of t.
func (t *T) Any(f func(*T) bool) bool {
	seen := map[*T]bool{}
	var walk func(*T) bool
	walk = func(s *T) bool {
		if seen[s] {
			return false
		}
		seen[s] = true
		if f(s) {
			return true
		}
		for _, a := range s.A {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// Size is the number of distinct subterms.
func (t *T) Size() int {
	n := 0
	t.Any(func(*T) bool { n++; return false })
	return n
}

// NBits is the number init with further bits set.
func NBits(typ types.Type, init, body *T) *T {
	if body.Op == "sb0" {
		return init
	}
	// all bits of x below n
	if init == Zero && body.Op == "sbrep" && body.A[2].Op == "sb1" && body.A[2].A[0] == body.A[1] {
		c := CondOf(body.A[2].A[1])
		if !c.Pos && c.T.Op == "eqi" && c.T.N.Sign() == 0 && c.T.A[0].Op == "bit" && c.T.A[0].A[1] == body.A[1] && !c.T.A[0].A[0].Mentions(body.A[1]) {
			x := c.T.A[0].A[0]
			if x.Typ != nil && typ != nil && typeRange(x.Typ).Hi != nil && typeRange(typ).Hi != nil && typeRange(x.Typ).Hi.Cmp(typeRange(typ).Hi) <= 0 {
				return mkT(typ, "lowbits", "", body.A[0], x)
			}
		}
	}
	return mkT(typ, "nb", "", init, body)
}
