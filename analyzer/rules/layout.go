package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"verif/analyzer/eng"
)

// layouts is the reference: what the Grin v1 protocol puts on the wire for
// each type. "w F": integer field F in width and order w; "w #F": the number
// of elements of F; bytes, unix, str, addr, point, proof, bits: the encodings
// of those kinds; sub F: the encoding of the struct F; list F: the encodings of
// the elements of F one after another; "@[2]byte": the field of that type.
var layouts = map[string]string{
	"consensus.Proof":        "8 EdgeBits;bits Nonces",
	"consensus.BlockHeader":  "16be Version;64be Height;unix Timestamp;bytes Previous;bytes PreviousRoot;bytes UTXORoot;bytes RangeProofRoot;bytes KernelRoot;bytes TotalKernelOffset;64be OutputMmrSize;64be KernelMmrSize;64be TotalDifficulty;32be ScalingDifficulty;64be Nonce;sub POW",
	"consensus.Block":        "sub Header;64be #Inputs;64be #Outputs;64be #Kernels;list Inputs;list Outputs;list Kernels",
	"consensus.CompactBlock": "sub Header;8 #Outputs;8 #Kernels;64be #KernelIDs;list Outputs;list Kernels;list KernelIDs",
	"consensus.Input":        "8 Features;bytes Commit",
	"consensus.Output":       "8 Features;point Commit;proof RangeProof",
	"consensus.TxKernel":     "8 Features;64be Fee;64be LockHeight;point Excess;bytes ExcessSig",
	"consensus.Transaction":  "bytes KernelOffset;64be #Inputs;64be #Outputs;64be #Kernels;list Inputs;list Outputs;list Kernels",
	"consensus.Locator":      "8 #Hashes;list Hashes",
	"p2p.Header":             "bytes @[2]byte;8 Type;64be Len",
	"code 1":                 "32be Version;32be Capabilities;64be Nonce;64be TotalDifficulty;addr SenderAddr;addr ReceiverAddr;str UserAgent;bytes Genesis",
	"code 2":                 "32be Version;32be Capabilities;64be TotalDifficulty;str UserAgent;bytes Genesis",
	"p2p.Ping":               "64be TotalDifficulty;64be Height",
	"p2p.Pong":               "sub Ping",
	"p2p.GetPeerAddrs":       "32be Capabilities",
	"p2p.PeerAddrs":          "32be #@[]*net.TCPAddr;list @[]*net.TCPAddr",
	"p2p.PeerError":          "32be Code;str Message",
	"p2p.GetBlockHeaders":    "sub Locator",
	"p2p.BlockHeaders":       "16be #Headers;list Headers",
	"p2p.BlockHeader":        "sub Header",
	"p2p.GetBlock":           "bytes Hash",
}

var codes = map[string]int64{"p2p.PeerError": 0, "p2p.Ping": 3, "p2p.Pong": 4, "p2p.GetPeerAddrs": 5, "p2p.PeerAddrs": 6,
	"p2p.GetBlockHeaders": 7, "p2p.BlockHeader": 8, "p2p.BlockHeaders": 9, "p2p.GetBlock": 10, "consensus.Block": 11,
	"consensus.CompactBlock": 13, "consensus.Transaction": 15}

// protocolConsts are the numbers both ends have to agree on.
var protocolConsts = map[string]int64{
	"MsgTypeError": 0, "MsgTypeHand": 1, "MsgTypeShake": 2, "MsgTypePing": 3, "MsgTypePong": 4, "MsgTypeGetPeerAddrs": 5,
	"MsgTypePeerAddrs": 6, "MsgTypeGetHeaders": 7, "MsgTypeHeader": 8, "MsgTypeHeaders": 9, "MsgTypeGetBlock": 10,
	"MsgTypeBlock": 11, "MsgTypeGetCompactBlock": 12, "MsgTypeCompactBlock": 13, "MsgTypeStemTransaction": 14,
	"MsgTypeTransaction": 15, "MsgTypeTxHashSetRequest": 16, "MsgTypeTxHashSetArchive": 17, "MsgTypeBanReason": 18,
	"ProtocolVersion": 1, "HeaderLen": 11, "MaxMsgLen": 20000000, "MaxLocators": 14, "MaxBlockHeaders": 512, "MaxPeerAddrs": 256,
	"CapUnknown": 0, "CapFullHist": 1, "CapUtxoHist": 2, "CapPeerList": 4, "CapFastSyncNode": 6, "CapFullNode": 7,
}

// layoutOf is the reference layout for a codec.
func layoutOf(cd *codec) (string, bool) {
	if l, ok := layouts[cd.name]; ok {
		return l, true
	}
	if cd.code != nil && cd.code.IsInt() {
		l, ok := layouts["code "+cd.code.N.String()]
		return l, ok
	}
	return "", false
}

type refBuilder struct {
	x   *eng.Exec
	st  *State
	err string
}

func (r *refBuilder) field(t types.Type, name string) *types.Var {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if strings.HasPrefix(name, "@") {
			if f.Type().Underlying().String() == name[1:] {
				return f
			}
		} else if f.Name() == name {
			return f
		}
	}
	return nil
}

// at builds the encoding of the object of type typ at address a.
func (r *refBuilder) at(a *T, typ types.Type, layout string) *T {
	var parts []*T
	for _, it := range strings.Split(layout, ";") {
		kind, name, _ := strings.Cut(it, " ")
		cnt := strings.HasPrefix(name, "#")
		name = strings.TrimPrefix(name, "#")
		f := r.field(typ, name)
		if f == nil {
			r.err = fmt.Sprintf("%s has no field %s", typ, name)
			return eng.Cat()
		}
		fa := eng.FA(a, f.Name(), f.Type())
		v := r.x.Load(r.st, fa, f.Type())
		switch kind {
		case "8", "16be", "32be", "64be":
			if cnt {
				v = eng.Len(v)
			}
			parts = append(parts, eng.U(kind, v))
		case "unix":
			parts = append(parts, eng.U("64be", eng.TUnix(v)))
		case "bytes":
			parts = append(parts, r.bytesOf(fa, v, f.Type()))
		case "str":
			c := r.x.Content(r.st, v)
			parts = append(parts, eng.U("64be", eng.Len(v)), c)
		case "addr":
			parts = append(parts, r.tcp(v, f.Type()))
		case "point":
			parts = append(parts, r.point(v, f.Type()))
		case "proof":
			b := eng.Mk("call", "bulletproofs.BulletProof.Bytes", r.x.DeepVal(r.st, v, f.Type()))
			parts = append(parts, eng.U("64be", eng.Len(b)), b)
		case "bits":
			parts = append(parts, r.bits(a, typ, v))
		case "sub":
			parts = append(parts, r.typed(fa, f.Type()))
		case "list":
			sl, ok := f.Type().Underlying().(*types.Slice)
			if !ok {
				r.err = "not a list: " + name
				return eng.Cat()
			}
			k := eng.SymT("refk", types.Typ[types.Int])
			ea := eng.ElemAddr(v, k, sl.Elem())
			var body *T
			switch {
			case eng.IsByteSlice(sl.Elem()):
				body = r.x.Content(r.st, r.x.Load(r.st, ea, sl.Elem()))
			case strings.HasSuffix(sl.Elem().String(), "net.TCPAddr"):
				body = r.tcp(r.x.Load(r.st, ea, sl.Elem()), sl.Elem())
			default:
				body = r.typed(ea, sl.Elem())
			}
			parts = append(parts, eng.Rep(k, eng.Len(v), body))
		default:
			r.err = "unknown kind " + kind
		}
	}
	return eng.Cat(parts...)
}

func (r *refBuilder) bytesOf(fa, v *T, t types.Type) *T {
	if _, ok := t.Underlying().(*types.Array); ok {
		return r.x.Content(r.st, fa)
	}
	return r.x.Content(r.st, v)
}

func (r *refBuilder) typed(a *T, t types.Type) *T {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		a, t = r.x.Load(r.st, a, t), p.Elem()
	}
	l, ok := layouts[typeName(t)]
	if !ok {
		r.err = "no layout for " + typeName(t)
		return eng.Cat()
	}
	return r.at(a, t, l)
}

func (r *refBuilder) point(v *T, t types.Type) *T {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v, t = r.x.Load(r.st, v, p.Elem()), p.Elem()
	}
	return eng.Mk("call", "bulletproofs.Point.Bytes", r.x.DeepVal(r.st, v, t))
}

// tcp: family byte, 4 or 16 address bytes, port.
func (r *refBuilder) tcp(v *T, t types.Type) *T {
	tcp := t.Underlying().(*types.Pointer).Elem()
	load := func(f string) *T {
		ft := eng.FieldType(tcp, f)
		return r.x.Load(r.st, eng.FA(v, f, ft), ft)
	}
	ip := load("IP")
	c := r.x.Content(r.st, ip)
	port := eng.U("16be", load("Port"))
	if eng.Len(c) == eng.Int(4) {
		return eng.Cat(eng.Str("\x00"), c, port)
	}
	is6 := eng.IsNil(eng.Mk("call", "net.IP.To4", c)).Term()
	t4 := eng.Mk("call", "net.IP.To4!", c)
	return eng.Ite(is6, eng.Cat(eng.Str("\x01"), c, port), eng.Cat(eng.Str("\x00"), t4, port))
}

// bits: each nonce in EdgeBits bits, low bit first, packed into bytes.
func (r *refBuilder) bits(a *T, typ types.Type, nonces *T) *T {
	f := r.field(typ, "EdgeBits")
	eb := r.x.Load(r.st, eng.FA(a, "EdgeBits", f.Type()), f.Type())
	n := eng.Len(nonces)
	J, j := eng.Sym("refJ"), eng.Sym("refj")
	el := eng.FieldType(typ, "Nonces").Underlying().(*types.Slice).Elem()
	nv := r.x.Load(r.st, eng.ElemAddr(nonces, J, el), el)
	size := eng.Quo(eng.AddN(eng.Mul(n, eb), 7), eng.Int(8))
	body := eng.Mk("sb1", "", eng.Add(eng.Mul(eb, J), j), eng.EqInt(eng.Bit(nv, j), eng.Zero).Not().Term())
	return eng.Mk("sb", "", eng.Zeros(size), eng.Mk("sbrep", "", n, J, eng.Mk("sbrep", "", eb, j, body)))
}

// alphaEq compares two terms up to the names of bound variables.
func alphaEq(a, b *T) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op || a.S != b.S || len(a.A) != len(b.A) {
		return false
	}
	switch a.Op {
	case "sbrep", "rep":
		if len(a.A) == 3 && a.A[1] != b.A[1] {
			if !alphaEq(a.A[0], b.A[0]) {
				return false
			}
			v := eng.Sym(fmt.Sprintf("α%d", a.Size()))
			return alphaEq(eng.Subst(a.A[2], a.A[1], v), eng.Subst(b.A[2], b.A[1], v))
		}
	case "lin":
		return false
	}
	if (a.N == nil) != (b.N == nil) || (a.N != nil && a.N.Cmp(b.N) != 0) {
		return false
	}
	for i := range a.A {
		if !alphaEq(a.A[i], b.A[i]) {
			return false
		}
	}
	return len(a.A) > 0
}

// sameUnder compares two byte strings under the facts of a state, splitting
// on the conditions they contain.
func sameUnder(st *State, a, b *T, depth int) bool {
	f := st.Facts()
	a, b = eng.Simp(f, a), eng.Simp(f, b)
	if alphaEq(a, b) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, t := range []*T{a, b} {
		if cd, ok := eng.Undecided(f, t); ok && !boundIn(cd.T) {
			s1, s2 := st.Fork(), st.Fork()
			return (!s1.Assume(cd) || sameUnder(s1, a, b, depth-1)) && (!s2.Assume(cd.Not()) || sameUnder(s2, a, b, depth-1))
		}
	}
	return false
}

func boundIn(t *T) bool {
	return t.Any(func(s *T) bool { return s.Op == "sym" && strings.HasPrefix(s.S, "j!") })
}

func runC02(c *Ctx) {
	wellFormed()
	seen := map[string]bool{}
	cds := c.codecs()
	for _, n := range []int64{16, 4} {
		ipLen = n
		for _, cd := range cds {
			l, ok := layoutOf(cd)
			if !c.Must(ok, "layout-known", cd.name, cd.bytes.Pos(), "there is no reference layout for the message type %s (code %v)", cd.name, cd.code) {
				continue
			}
			seen[l] = true
			if want, ok := codes[cd.name]; ok {
				c.Must(cd.code != nil && cd.code == eng.Int(want), "message-code", cd.name, cd.bytes.Pos(), "%s has message code %v, the protocol's is %d", cd.name, cd.code, want)
			}
			c.checkLayout(cd, l)
		}
	}
	for _, k := range sortedKeys(layouts) {
		c.Must(seen[layouts[k]], "layout-used", k, token.NoPos, "no encoder/decoder pair found for %s", k)
	}
	for _, k := range sortedKeys(protocolConsts) {
		v := c.P.Const("consensus", k)
		c.Must(v != nil && v == eng.Int(protocolConsts[k]), "constant", k, token.NoPos, "consensus.%s is %v, the protocol's value is %d", k, v, protocolConsts[k])
	}
	if g := c.P.Pkg("consensus").Var("MagicCode"); c.Must(g != nil, "constant", "MagicCode", token.NoPos, "consensus.MagicCode not found") {
		x := c.Exec(eng.Config{})
		v := x.Content(x.Start(), x.GlobalAddr(g))
		c.Must(v == eng.Str("\x54\x34"), "constant", "MagicCode", g.Pos(), "the network magic is %v, the protocol's is 54 34", v)
	}
	c.Floor("encoder/decoder pairs", len(cds), 20)
}

// checkLayout: the encoder writes the reference layout and the decoder
// restores the message from the reference layout.
func (c *Ctx) checkLayout(cd *codec, layout string) {
	x := c.Exec(eng.Config{})
	m := eng.SymT(cd.typ.Obj().Name(), types.NewPointer(cd.typ))
	ps := x.Run(cd.bytes, []*T{m})
	all := ps
	n := 0
	for _, p := range ps {
		if p.End != "return" {
			continue
		}
		n++
		r := &refBuilder{x: x, st: p.St}
		ref := r.at(m, cd.typ, layout)
		if !c.Must(r.err == "", "layout", cd.name, cd.bytes.Pos(), "%s: %s", cd.name, r.err) {
			continue
		}
		got := x.Content(p.St, p.Res[0])
		c.Must(sameUnder(p.St, got, ref, 6), "encodes-layout", cd.name, p.Pos, "%s is written as %v; the protocol's layout is %v", cd.name, got, ref)
		c.Sample("%s: %v", cd.name, ref)
		c.assumeValid(x, p.St, m, cd)
		rd := eng.SymT("r", cd.read.Signature.Params().At(0).Type())
		x.SetRest(p.St, rd, eng.Simp(p.St.Facts(), ref))
		d := eng.NewObject("decoded", cd.typ)
		ds := x.RunIn(cd.read, []*T{d, rd}, p.St.Fork())
		all = append(all, ds...)
		okN := 0
		for _, q := range ds {
			if q.End == "return" && !retNil(q) && c.sortedRefusal(p, q) {
				continue
			}
			if !c.Must(q.End == "return" && retNil(q), "decodes-layout", cd.name, q.Pos, "the decoder of %s does not accept the protocol's layout (%s) when %v", cd.name, q.End, lits(q.St)) {
				continue
			}
			okN++
			rest := x.Rest(q.St, rd)
			c.Must(rest != nil && (rest == eng.Cat() || eng.Len(rest) == eng.Zero), "consumes-layout", cd.name, q.Pos, "after decoding %s the input %v is left over", cd.name, rest)
			de := &deepEq{x: x}
			c.Must(de.at(q.St, m, d, cd.typ, cd.name, 0), "decodes-layout", cd.name, q.Pos, "from the protocol's layout of %s the decoder restores a different message: %s", cd.name, de.why)
		}
		c.Must(okN > 0, "decodes-layout", cd.name, p.Pos, "no path of the decoder of %s accepts the protocol's layout", cd.name)
	}
	c.Must(n > 0, "encodable", cd.name, cd.bytes.Pos(), "no path of %s.Bytes returns", cd.name)
	c.Done(x, all)
}

var _ = big.NewInt

func init() {
	register("C02", "comparison of the encoder's symbolic output with a reference layout table, and decoding of the reference layout, by abstract interpretation over SSA",
		"For every type with Bytes/Read the byte string computed by the encoder is compared, term by term, with the reference layout of the Grin v1 protocol built for the same message, and the decoder is run on the reference layout; message codes, magic and limits are compared with the protocol's values.", runC02,
		"the reference table in rules/layout.go", "messages are well-formed as in C01")
}
