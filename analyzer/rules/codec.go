package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// codec is a type that is encoded by Bytes and decoded by Read.
type codec struct {
	name  string
	typ   *types.Named
	bytes *ssa.Function
	read  *ssa.Function
	code  *T // message code, nil if the type is not a message
}

// codecs finds every type with Bytes() []byte and Read(io.Reader) error.
func (c *Ctx) codecs() []*codec {
	var r []*codec
	for _, pkg := range c.P.Packages() {
		sc := pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok || structOf(named) == nil {
				continue
			}
			b := c.P.MethodOf(types.NewPointer(named), "Bytes")
			rd := c.P.MethodOf(types.NewPointer(named), "Read")
			if b == nil || rd == nil {
				continue
			}
			if s := b.Signature; s.Params().Len() != 0 || s.Results().Len() != 1 || !eng.IsByteSlice(s.Results().At(0).Type()) {
				continue
			}
			if s := rd.Signature; s.Params().Len() != 1 || s.Results().Len() != 1 || s.Params().At(0).Type().String() != "io.Reader" {
				continue
			}
			cd := &codec{name: typeName(named), typ: named, bytes: b, read: rd}
			if tf := c.P.MethodOf(types.NewPointer(named), "Type"); tf != nil && tf.Signature.Results().Len() == 1 {
				x := c.Exec(eng.Config{})
				ps := x.Run(tf, nil)
				if len(ps) == 1 && ps[0].End == "return" {
					cd.code = ps[0].Res[0]
				}
			}
			r = append(r, cd)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

const (
	maxList = 1000000
	maxMsg  = 20000000
)

// ipLen is the assumed length of IP addresses; both forms are tried.
var ipLen int64

// wellFormed makes the engine assume that what is encoded is a message the
// protocol can express.
func wellFormed() {
	eng.LenHook = func(t *T) (int64, bool) {
		if t.Op != "ld" && t.Op != "sym" && t.Op != "fld" && t.Op != "elem" {
			return 0, false
		}
		if t.Typ != nil {
			if n, ok := t.Typ.(*types.Named); ok && eng.IsByteSlice(n) {
				switch n.Obj().Name() {
				case "IP":
					return ipLen, ipLen > 0
				case "Hash":
					return 32, true
				case "ShortID":
					return 6, true
				case "Commitment":
					return 33, true
				}
			}
		}
		if o, f := eng.Owner(t); o == "consensus.Proof" && f == "Nonces" {
			return 42, true
		}
		return 0, false
	}
	eng.RangeHook = func(t *T) (eng.Ival, bool) {
		if t.Op == "ld" {
			if o, f := eng.Owner(t); o == "consensus.Proof" && f == "EdgeBits" {
				return eng.Ival{Lo: big.NewInt(1), Hi: big.NewInt(64)}, true
			}
		}
		if t.Op == "ld" {
			if o, f := eng.Owner(t); o == "net.TCPAddr" && f == "Port" {
				return eng.Ival{Lo: big.NewInt(0), Hi: big.NewInt(65535)}, true
			}
		}
		if t.Op == "len" {
			a := t.A[0]
			o, f := eng.Owner(a)
			hi := int64(0)
			switch {
			case o == "consensus.CompactBlock" && (f == "Outputs" || f == "Kernels"):
				hi = 255
			case f == "Inputs" || f == "Outputs" || f == "Kernels" || f == "KernelIDs":
				hi = maxList
			case a.Typ != nil && a.Op == "ld" && types.Identical(a.Typ.Underlying(), types.Typ[types.String]):
				hi = maxMsg
			}
			if hi > 0 {
				return eng.Ival{Lo: big.NewInt(0), Hi: big.NewInt(hi)}, true
			}
		}
		return eng.Ival{}, false
	}
}

// deepEq compares the object at a in st with the object at b.
type deepEq struct {
	x      *eng.Exec
	why    string
	leaf   int
	splits int
}

func (d *deepEq) fail(path, f string, a ...any) bool {
	if d.why == "" {
		d.why = path + ": " + fmt.Sprintf(f, a...)
	}
	return false
}

func (d *deepEq) at(st *State, a, b *T, typ types.Type, path string, depth int) bool {
	va, vb := d.x.Load(st, a, typ), d.x.Load(st, b, typ)
	return d.val(st, va, vb, a, b, typ, path, depth)
}

func sameType(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name()+"."+n.Obj().Name() == name
}

// val compares two values; a and b are the addresses they were read from.
func (d *deepEq) val(st *State, va, vb, a, b *T, typ types.Type, path string, depth int) bool {
	if depth > 12 {
		return d.fail(path, "too deep")
	}
	f := st.Facts()
	va, vb = eng.Simp(f, va), eng.Simp(f, vb)
	for _, t := range []*T{va, vb, d.x.Content(st, va), d.x.Content(st, vb)} {
		if cd, ok := eng.Undecided(f, t); ok && d.splits < 200 {
			d.splits++
			s1, s2 := st.Fork(), st.Fork()
			return (!s1.Assume(cd) || d.val(s1, va, vb, a, b, typ, path, depth)) && (!s2.Assume(cd.Not()) || d.val(s2, va, vb, a, b, typ, path, depth))
		}
	}
	switch {
	case sameType(typ, "time.Time"):
		d.leaf++
		x, y := eng.TUnix(va), eng.TUnix(vb)
		if x != y {
			return d.fail(path, "%v is decoded as %v", va, vb)
		}
		return true
	case sameType(typ, "net.IP"):
		d.leaf++
		x, y := eng.Simp(f, d.x.Content(st, va)), eng.Simp(f, d.x.Content(st, vb))
		if x == y || sameIP(f, x, y) {
			return true
		}
		return d.fail(path, "%v is decoded as %v", x, y)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		d.leaf++
		if va == vb {
			return true
		}
		if u.Info()&types.IsString != 0 {
			if d.x.Content(st, va) == d.x.Content(st, vb) {
				return true
			}
		} else if f.Eval(eng.EqInt(va, vb)) == 1 || bitsEq(f, va, vb) {
			return true
		}
		return d.fail(path, "%v is decoded as %v", va, vb)
	case *types.Slice:
		la, lb := eng.Len(va), eng.Len(vb)
		if eng.IsByteSlice(typ) {
			d.leaf++
			if x, y := eng.Simp(f, d.x.Content(st, va)), eng.Simp(f, d.x.Content(st, vb)); x != y {
				return d.fail(path, "%v is decoded as %v", x, y)
			}
			return true
		}
		if la != lb && f.Eval(eng.EqInt(la, lb)) != 1 {
			return d.fail(path, "%v elements are decoded as %v", la, lb)
		}
		i := eng.SymT(fmt.Sprintf("i%d", depth), types.Typ[types.Int])
		s2 := st.Fork()
		if !s2.Assume(eng.Le(eng.Zero, i)) || !s2.Assume(eng.Lt(i, la)) || !s2.Assume(eng.Lt(i, lb)) {
			return true
		}
		return d.at(s2, eng.ElemAddr(va, i, u.Elem()), eng.ElemAddr(vb, i, u.Elem()), u.Elem(), path+"["+i.String()+"]", depth+1)
	case *types.Array:
		if eng.IsByteSlice(types.NewSlice(u.Elem())) {
			d.leaf++
			if x, y := eng.Simp(f, d.x.Content(st, a)), eng.Simp(f, d.x.Content(st, b)); x != y {
				return d.fail(path, "%v is decoded as %v", x, y)
			}
			return true
		}
		for i := int64(0); i < u.Len(); i++ {
			if !d.at(st, eng.ElemAddr(a, eng.Int(i), u.Elem()), eng.ElemAddr(b, eng.Int(i), u.Elem()), u.Elem(), fmt.Sprintf("%s[%d]", path, i), depth+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		if va == vb {
			return true
		}
		if va == eng.Nil || vb == eng.Nil {
			return d.fail(path, "%v is decoded as %v", va, vb)
		}
		return d.at(st, va, vb, u.Elem(), path, depth+1)
	case *types.Struct:
		if n, ok := typ.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "gringo") && n.Obj().Pkg().Path() != "net" {
			// a foreign type is one value
			d.leaf++
			if x, y := d.x.DeepVal(st, va, typ), d.x.DeepVal(st, vb, typ); x != y {
				return d.fail(path, "%v is decoded as %v", x, y)
			}
			return true
		}
		ok := true
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			if notOnWire(typ, fl.Name()) {
				continue
			}
			fa, fb := eng.FA(a, fl.Name(), fl.Type()), eng.FA(b, fl.Name(), fl.Type())
			if !d.at(st, fa, fb, fl.Type(), path+"."+fl.Name(), depth+1) {
				ok = false
			}
		}
		return ok
	}
	return d.fail(path, "no rule for type %s", typ)
}

// notOnWire lists the fields that are not part of a message.
func notOnWire(t types.Type, f string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f {
	case "consensus.BlockHeader.Difficulty", // derived by the receiver, not in the v1 header
		"consensus.BlockHeader.TotalKernelSum", // not in the v1 header either
		"net.TCPAddr.Zone":                     // local to a host
		return true
	}
	return false
}

// sameIP: y is the 4- or 16-byte form of x that the path has established.
func sameIP(f *eng.Facts, x, y *T) bool {
	strip := func(t *T) *T {
		if t.Op == "sub" && t.A[1] == eng.Zero && (t.A[2] == eng.Int(16) || t.A[2] == eng.Int(4)) && (t.A[2] == eng.Len(t.A[0]) || f.Eval(eng.EqInt(t.A[2], eng.Len(t.A[0]))) == 1) {
			t = t.A[0]
		}
		return t
	}
	y = strip(y)
	if y == x {
		return true
	}
	if y.Op == "call" && (y.S == "net.IP.To4!" || y.S == "net.IP.To16") && len(y.A) == 1 && y.A[0] == x {
		return true
	}
	return false
}

// bitsEq: b holds the low bits of a as unpacked from a packed bit string.
func bitsEq(f *eng.Facts, a, b *T) bool {
	b = eng.ResolveBits(f, b)
	return b.Op == "lowbits" && b.A[1] == a
}

func runC01(c *Ctx) {
	wellFormed()
	cds := c.codecs()
	leaves := 0
	for _, n := range []int64{16, 4} {
		ipLen = n
		leaves += c.roundTrips(cds)
	}
	c.Floor("encoder/decoder pairs", len(cds), 17)
	c.Cover["fields compared"] = leaves
}

func (c *Ctx) roundTrips(cds []*codec) int {
	leaves := 0
	for _, cd := range cds {
		x := c.Exec(eng.Config{})
		m := eng.SymT(cd.typ.Obj().Name(), types.NewPointer(cd.typ))
		ps := x.Run(cd.bytes, []*T{m})
		n := 0
		all := ps
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			n++
			content := x.Content(p.St, p.Res[0])
			r := eng.SymT("r", cd.read.Signature.Params().At(0).Type())
			c.assumeValid(x, p.St, m, cd)
			x.SetRest(p.St, r, content)
			d := eng.NewObject("decoded", cd.typ)
			base := len(p.St.Lits())
			ds := x.RunIn(cd.read, []*T{d, r}, p.St.Fork())
			all = append(all, ds...)
			okN := 0
			for _, q := range ds {
				if q.End != "return" {
					c.Fail("decode-own", cd.name+" "+q.End, q.Pos, "decoding an encoded %s ends in %s when %s", cd.name, q.End, lits(q.St))
					continue
				}
				if !retNil(q) {
					if c.sortedRefusal(p, q) {
						continue
					}
					c.Must(retErr(q) && false, "decode-own", cd.name+" refused", q.Pos, "the decoder of %s refuses what the encoder wrote when %v: returns %v", cd.name, q.St.Lits()[base:], q.Res[0])
					continue
				}
				okN++
				rest := x.Rest(q.St, r)
				c.Must(rest != nil && (rest == eng.Cat() || eng.Len(rest) == eng.Zero), "consumes-all", cd.name, q.Pos, "after decoding %s the input %v is left over", cd.name, rest)
				de := &deepEq{x: x}
				ok := de.at(q.St, m, d, cd.typ, cd.name, 0)
				leaves += de.leaf
				c.Must(ok, "round-trip", cd.name, q.Pos, "decoding what %s.Bytes wrote does not give the message back: %s", cd.name, de.why)
			}
			c.Must(okN > 0, "decodable", cd.name, p.Pos, "no path of the decoder of %s accepts the encoding %v", cd.name, content)
			c.Sample("%s: %v", cd.name, content)
		}
		c.Must(n > 0, "encodable", cd.name, cd.bytes.Pos(), "no path of %s.Bytes returns", cd.name)
		c.Done(x, all)
	}
	return leaves
}

// sortedRefusal: the decoder refuses an unsorted list, but the encoder sorts
// (that both use the same order is V07 and V08).
func (c *Ctx) sortedRefusal(enc, dec Path) bool {
	ls := dec.St.Lits()
	l := ls[len(ls)-1]
	if l.Pos || l.T.Op != "issorted" {
		return false
	}
	for _, e := range enc.St.Events() {
		if e.Kind == "sort" {
			return true
		}
	}
	return false
}

// assumeValid adds what every message of ours satisfies: the network magic
// and the protocol version.
func (c *Ctx) assumeValid(x *eng.Exec, st *State, m *T, cd *codec) {
	s := structOf(cd.typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		a := eng.FA(m, f.Name(), f.Type())
		if arr, ok := f.Type().Underlying().(*types.Array); ok && arr.Len() == 2 && cd.name == "p2p.Header" {
			if g := c.P.Pkg("consensus").Var("MagicCode"); g != nil {
				st.Assume(eng.EqBytes("", x.Content(st, x.GlobalAddr(g)), x.Content(st, a)))
			}
		}
		if f.Name() == "Version" && c.P.Pkg("p2p").Pkg == cd.typ.Obj().Pkg() {
			if k := c.P.Const("consensus", "ProtocolVersion"); k != nil {
				st.Assume(eng.EqInt(x.Load(st, a, f.Type()), k))
			}
		}
	}
}

func init() {
	register("C01", "abstract interpretation of encoder and decoder over SSA; decoder composed with the encoder's symbolic output, loops summarised", "For every type with Bytes/Read, the value computed by the encoder for an arbitrary well-formed message is fed to the decoder, both interpreted abstractly over their SSA form (loops summarised as repetitions); every accepting path must consume the whole input and fill an object equal to the message, field by field and element by element.", runC01,
		"messages are well-formed: hashes of 32 bytes, 42 nonces, 1..64 edge bits, each nonce below 2^edgebits, lists within the protocol limits (255 full outputs and kernels in a compact block, whose counts are one byte on the wire)",
		"Point.Read/BulletProof.Read invert Point.Bytes/BulletProof.Bytes")
}
