package eng

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// ---- byte strings ----
//
// A byte string is a term: "cat" of parts, a part, or any opaque term that
// stands for its own bytes. Parts:
//   u:<width><order>(x)   x written in 1/2/4/8 bytes
//   sub(c,lo,hi)          bytes lo..hi of c
//   zeros(n)              n zero bytes
//   rep(n, body)          body for j = 0..n-1
//   str "..."             constant bytes

var widths = map[string]int64{"8": 1, "16be": 2, "16le": 2, "32be": 4, "32le": 4, "64be": 8, "64le": 8}

// U is the part that encodes x with the given width and order.
func U(w string, x *T) *T {
	if x.Op == "num" && x.S == w {
		return x.A[0]
	}
	if w == "8" && x.Op == "byteat" {
		if i, ok := x.A[1].Int64(); ok {
			return SubBytes(x.A[0], Int(i), Int(i+1))
		}
		return SubBytes(x.A[0], x.A[1], AddN(x.A[1], 1))
	}
	if x.Op == "int" {
		n := int(widths[w])
		b := make([]byte, n)
		v := new(big.Int).Set(x.N)
		if v.Sign() < 0 {
			v.Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
		}
		for i := 0; i < n; i++ {
			d := byte(new(big.Int).Rsh(v, uint(8*i)).Uint64() & 0xff)
			if strings.HasSuffix(w, "le") {
				b[i] = d
			} else {
				b[n-1-i] = d
			}
		}
		return Str(string(b))
	}
	// 256*hi + lo of two bytes
	if (w == "16be" || w == "16le") && x.Op == "lin" && len(x.A) == 2 && x.N.Sign() == 0 {
		var hi, lo *T
		for i, a := range x.A {
			if x.Co[i].IsInt64() && isByte(a) {
				switch x.Co[i].Int64() {
				case 256:
					hi = a
				case 1:
					lo = a
				}
			}
		}
		if hi != nil && lo != nil {
			if w == "16be" {
				return Cat(U("8", hi), U("8", lo))
			}
			return Cat(U("8", lo), U("8", hi))
		}
	}
	return Mk("u", w, x)
}

func isByte(a *T) bool {
	if a.Op == "byteat" {
		return true
	}
	if a.Typ != nil {
		if b, ok := a.Typ.Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	}
	return false
}

// Num decodes the byte string c of the right length as an unsigned integer.
func Num(w string, c *T, typ types.Type) *T {
	if c.Op == "u" && c.S == w {
		return c.A[0]
	}
	if c.Op == "cat" && len(c.A) == 1 && c.A[0].Op == "u" && c.A[0].S == w {
		return c.A[0].A[0]
	}
	if c.Op == "zeros" {
		return Zero
	}
	if c.Op == "str" && int64(len(c.S)) == widths[w] {
		v := new(big.Int)
		for i := range c.S {
			b := c.S[i]
			if strings.HasSuffix(w, "le") {
				b = c.S[len(c.S)-1-i]
			}
			v.Lsh(v, 8)
			v.Or(v, big.NewInt(int64(b)))
		}
		return BigInt(v)
	}
	if w == "8" {
		if c.Op == "sub" {
			return ByteAt(c.A[0], c.A[1])
		}
		return ByteAt(c, Zero)
	}
	return mkT(numType(w), "num", w, c)
}

func numType(w string) types.Type {
	switch widths[w] {
	case 1:
		return types.Typ[types.Uint8]
	case 2:
		return types.Typ[types.Uint16]
	case 4:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

// ByteAt is byte i of c.
func ByteAt(c, i *T) *T {
	switch c.Op {
	case "str":
		if n, ok := i.Int64(); ok && n >= 0 && n < int64(len(c.S)) {
			return Int(int64(c.S[n]))
		}
	case "zeros":
		return Zero
	case "sub":
		return ByteAt(c.A[0], Add(c.A[1], i))
	case "u":
		if c.S == "8" && i == Zero {
			return c.A[0]
		}
	case "cat":
		off := Zero
		for _, p := range c.A {
			d := Sub(i, off)
			n, ok := d.Int64()
			pl, ok2 := ByteLen(p).Int64()
			if !ok || !ok2 {
				break
			}
			if n < pl {
				if n < 0 {
					break
				}
				return ByteAt(p, d)
			}
			off = Add(off, ByteLen(p))
		}
	}
	return mkT(types.Typ[types.Uint8], "byteat", "", c, i)
}

// SubBytes is the part lo..hi of the byte string c.
func SubBytes(c, lo, hi *T) *T {
	if lo == hi {
		return Cat()
	}
	if lo == Zero && hi == Len(c) {
		return c
	}
	switch c.Op {
	case "sub":
		return SubBytes(c.A[0], Add(c.A[1], lo), Add(c.A[1], hi))
	case "zeros":
		return Zeros(Sub(hi, lo))
	case "str":
		l, ok1 := lo.Int64()
		h, ok2 := hi.Int64()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(c.S)) {
			return Str(c.S[l:h])
		}
	case "cat":
		// walk the parts as long as the offsets are decided
		off := Zero
		var out []*T
		for _, p := range c.A {
			end := Add(off, ByteLen(p))
			a, ok1 := Sub(lo, off).Int64()
			b, ok2 := Sub(end, lo).Int64()
			if !ok1 && out == nil {
				break
			}
			if out == nil {
				if !ok2 {
					// the part has symbolic length; it must start here
					if a != 0 {
						break
					}
				} else if b <= 0 {
					off = end
					continue
				}
			}
			ps, pe := Zero, ByteLen(p)
			if out == nil {
				ps = Int(a)
			}
			r, ok3 := Sub(hi, end).Int64()
			if !ok3 {
				return mk(T{Op: "sub", A: []*T{c, lo, hi}})
			}
			if r < 0 {
				pe = Sub(hi, off)
			}
			out = append(out, SubBytes(p, ps, pe))
			if r <= 0 {
				return Cat(out...)
			}
			off = end
		}
	}
	return mk(T{Op: "sub", A: []*T{c, lo, hi}})
}

// Zeros is n zero bytes.
func Zeros(n *T) *T {
	if n == Zero {
		return Cat()
	}
	if v, ok := n.Int64(); ok && v > 0 && v <= 4096 {
		return Str(strings.Repeat("\x00", int(v)))
	}
	return Mk("zeros", "", n)
}

// Rep is body[j] for j=0..n-1, body given as a function of k.
func Rep(k, n, body *T) *T {
	j := bound(body)
	return Mk("rep", "", n, j, Subst(body, k, j))
}

func bound(body *T) *T {
	d := 0
	body.Any(func(t *T) bool {
		if t.Op == "sym" && strings.HasPrefix(t.S, "j!") {
			if n, err := strconv.Atoi(t.S[2:]); err == nil && n >= d {
				d = n + 1
			}
		}
		return false
	})
	return Sym("j!" + strconv.Itoa(d))
}

// Splice replaces bytes lo.. of content c (length n) by part p.
func Splice(c, n, lo, p *T) *T {
	hi := Add(lo, ByteLen(p))
	return Cat(SubBytes(c, Zero, lo), p, SubBytes(c, hi, n))
}
