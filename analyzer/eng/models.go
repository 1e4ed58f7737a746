package eng

import (
	"fmt"
	"go/types"
	"math/big"
	"net/netip"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	FixedLen["bulletproofs.Point.Bytes"] = 33
	FixedLen["bulletproofs.BulletProof.Bytes"] = 675
	FixedLen["bulletproofs.GetB32"] = 32
	FixedLen["blake2b.Sum256"] = 32
	FixedLen["sha256.Sum256"] = 32
	FixedLen["net.IP.To4!"] = 4
}

// externWrites reports whether an external function may write through its
// n-th argument.
func externWrites(f *ssa.Function, n int) bool {
	name := FuncName(f)
	switch name {
	case "io.ReadFull", "rand.Read", "binary.Read", "binary.littleEndian.PutUint64", "binary.bigEndian.PutUint64",
		"binary.littleEndian.PutUint32", "binary.bigEndian.PutUint32", "binary.littleEndian.PutUint16", "binary.bigEndian.PutUint16":
		return true
	}
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "math/big":
			return n == 0
		case "sort":
			return n == 0 && !strings.HasPrefix(f.Name(), "IsSorted") && !strings.Contains(f.Name(), "Search") && !strings.HasSuffix(f.Name(), "AreSorted")
		case "encoding/hex":
			return n == 0 && (f.Name() == "Encode" || f.Name() == "Decode")
		case "slices":
			return n == 0 && (strings.HasPrefix(f.Name(), "Sort") || f.Name() == "Reverse")
		case "bytes", "sync", "sync/atomic":
			return n == 0 && f.Signature.Recv() != nil
		}
	}
	if f.Signature.Recv() != nil && f.Name() == "Read" {
		return n == 0
	}
	return false
}

// BufVal is the content of a bytes.Buffer.
func (x *Exec) bufVal(st *State, a *T) *T {
	v := x.read(st, a, pointee(a.Typ))
	if v.Op == "zero" {
		return Cat()
	}
	return v
}

// dynamic strips interface and wrapper layers from a value.
func dynamic(t *T) *T {
	for t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

func dynType(t *T) types.Type {
	if t.Op == "iface" {
		return typeTable[t.S]
	}
	return t.Typ
}

func (fr *frame) newObj(it *item, call ssa.CallInstruction, what string, typ types.Type, val *T) *T {
	a := fr.fresh("al", what, call, types.NewPointer(typ))
	for c := range it.st.mem {
		if below(c, a) || c == a {
			delete(it.st.mem, c)
		}
	}
	it.st.mem[a] = val
	return a
}

// variadic lists the elements of a variadic argument.
func (fr *frame) variadic(st *State, s *T) []*T {
	if s == Nil {
		return nil
	}
	n, ok := Len(s).Int64()
	if !ok || n > 64 {
		return []*T{s}
	}
	et := elemType(s.Typ)
	var r []*T
	for i := int64(0); i < n; i++ {
		r = append(r, fr.x.read(st, IA(s, Int(i), ptrTo(et)), et))
	}
	return r
}

// deepArgs are the values an external pure function depends on.
func (fr *frame) deepArgs(st *State, f *ssa.Function, args []*T) []*T {
	sig := f.Signature
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	var r []*T
	for i, a := range args {
		if i >= len(ts) {
			r = append(r, a)
			continue
		}
		if sig.Variadic() && i == len(ts)-1 {
			et := ts[i].(*types.Slice).Elem()
			var l []*T
			for _, e := range fr.variadic(st, a) {
				l = append(l, fr.deepAny(st, e, et))
			}
			r = append(r, Mk("list", "", l...))
			continue
		}
		r = append(r, fr.deepAny(st, a, ts[i]))
	}
	return r
}

func (fr *frame) deepAny(st *State, a *T, t types.Type) *T {
	if a.Op == "iface" {
		return Mk("iface", a.S, fr.deepAny(st, a.A[0], typeTable[a.S]))
	}
	return fr.x.DeepVal(st, a, t)
}

func (fr *frame) pure(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) []callOut {
	name := FuncName(f)
	da := fr.deepArgs(it.st, f, args)
	fr.clobber(it, call, f, args)
	res := f.Signature.Results()
	var vals []*T
	for i := 0; i < res.Len(); i++ {
		n := name
		if res.Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		t := res.At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			vals = append(vals, fr.newObj(it, call, n, p.Elem(), mkT(p.Elem(), "call", n, da...)))
			continue
		}
		vals = append(vals, callTerm(t, n, da...))
	}
	switch len(vals) {
	case 0:
		return []callOut{{it, Nil}}
	case 1:
		return []callOut{{it, vals[0]}}
	}
	return []callOut{{it, Mk("tuple", "", vals...)}}
}

func callTerm(t types.Type, name string, args ...*T) *T {
	return mkT(t, "call", name, args...)
}

// clobber forgets the slices an external function may write into.
func (fr *frame) clobber(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) {
	for n, a := range args {
		a = dynamic(a)
		t := a.Typ
		if t == nil || !externWrites(f, n) {
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			continue
		}
		if IsByteSlice(t) {
			fr.x.setContent(it.st, a, MkT(t, "sym", "clobbered", fr.fresh("sym", "clobbered", call, t)))
			continue
		}
		fr.x.write(it.st, IA(a, fr.fresh("sym", "anywhere", call, types.Typ[types.Int]), ptrTo(elemType(t))), fr.fresh("sym", "clobbered", call, elemType(t)))
	}
}

func (fr *frame) event(it *item, call ssa.CallInstruction, kind, name string, args []*T, sig *types.Signature) []callOut {
	if f := call.Common().StaticCallee(); f != nil {
		fr.clobber(it, call, f, args)
	}
	res := fr.results(name, call, sig, nil)
	fr.emit(it, &Ev{Kind: kind, Name: name, Args: args, Res: res.A, Pos: call.Pos(), Instr: call})
	return []callOut{{it, untuple(res)}}
}

// orderOf is "be" or "le" for a byte order argument.
func orderOf(t *T) string {
	d := t.S
	if t.Op == "iface" {
		d = t.S
	}
	switch {
	case strings.Contains(d, "bigEndian") || strings.Contains(d, "BigEndian"):
		return "be"
	case strings.Contains(d, "littleEndian") || strings.Contains(d, "LittleEndian"):
		return "le"
	}
	return ""
}

func widthOf(t types.Type, order string) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Bool:
		return "8"
	case types.Uint16, types.Int16:
		return "16" + order
	case types.Uint32, types.Int32:
		return "32" + order
	case types.Uint64, types.Int64:
		return "64" + order
	}
	return ""
}

// encode is what binary.Write produces for a value.
func (fr *frame) encode(st *State, v *T, typ types.Type, order string) *T {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		return fr.encode(st, fr.x.read(st, v, p.Elem()), p.Elem(), order)
	}
	if w := widthOf(typ, order); w != "" {
		if v.Op == "bool" || (v.Typ != nil && isBool(v.Typ)) {
			v = Ite(v, One, Zero)
		}
		return U(w, v)
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		if isByteType(u.Elem()) {
			return fr.x.content(st, v)
		}
		if n, ok := Len(v).Int64(); ok && n <= 64 {
			r := Cat()
			for i := int64(0); i < n; i++ {
				e := fr.encode(st, fr.x.read(st, IA(v, Int(i), ptrTo(u.Elem())), u.Elem()), u.Elem(), order)
				if e == nil {
					return nil
				}
				r = Cat(r, e)
			}
			return r
		}
		k := Sym("k!enc")
		e := fr.encode(st, fr.x.read(st, IA(v, k, ptrTo(u.Elem())), u.Elem()), u.Elem(), order)
		if e == nil {
			return nil
		}
		return Rep(k, Len(v), e)
	case *types.Array:
		if isByteType(u.Elem()) {
			return v
		}
		r := Cat()
		for i := int64(0); i < u.Len() && i < 256; i++ {
			e := fr.encode(st, Elem(v, Int(i), u.Elem()), u.Elem(), order)
			if e == nil {
				return nil
			}
			r = Cat(r, e)
		}
		return r
	case *types.Struct:
		r := Cat()
		for i := 0; i < u.NumFields(); i++ {
			e := fr.encode(st, Fld(v, u.Field(i).Name(), u.Field(i).Type()), u.Field(i).Type(), order)
			if e == nil {
				return nil
			}
			r = Cat(r, e)
		}
		return r
	}
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- writers ----

// writeTo appends bytes to a writer; the continuations carry the error.
func (fr *frame) writeTo(it *item, call ssa.CallInstruction, w, data *T) []callOut {
	d := dynamic(w)
	t := dynType(w)
	if d.Op == "hasher" {
		c := Mk("cell", "hash", d)
		v, ok := it.st.mem[c]
		if !ok {
			v = Cat()
		}
		it.st.mem[c] = Cat(v, data)
		return []callOut{{it, Nil}}
	}
	if t != nil && t.String() == "*bytes.Buffer" {
		fr.risk(it, "nil", d, nil, call)
		it.st.mem[d] = Cat(fr.x.bufVal(it.st, d), data)
		return []callOut{{it, Nil}}
	}
	return fr.forkErr(it, call, "write", &Ev{Kind: "write", Name: writerKind(w), Args: []*T{d, data}, Pos: call.Pos(), Instr: call})
}

func writerKind(w *T) string {
	if t := dynType(w); t != nil {
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	}
	return ""
}

// forkErr splits into a success (nil) and a failure (non-nil error); ev
// happens on both, its result is the error.
func (fr *frame) forkErr(it *item, call ssa.CallInstruction, what string, ev *Ev) []callOut {
	e := fr.fresh("res", what+".err", call, types.Universe.Lookup("error").Type())
	o := it.fork()
	var r []callOut
	if ev != nil {
		bad := *ev
		ev.Res, bad.Res = []*T{Nil}, []*T{e}
		fr.emit(it, ev)
		fr.emit(o, &bad)
	}
	if it.st.facts.Assume(IsNil(e)) {
		r = append(r, callOut{it, Nil})
	}
	if o.st.facts.Assume(IsNil(e).Not()) {
		r = append(r, callOut{o, e})
	}
	return r
}

// ---- readers ----

func restCell(r *T) *T { return Mk("cell", "rest", r) }

// From is the byte string c without its first p bytes.
func From(c, p *T) *T {
	if p == Zero {
		return c
	}
	if c.Op == "from" {
		return From(c.A[0], Add(c.A[1], p))
	}
	return Mk("from", "", c, p)
}

// rest is the input a reader has still to deliver.
func (x *Exec) rest(st *State, r *T) *T {
	if v, ok := st.mem[restCell(r)]; ok {
		return v
	}
	if r.Op == "bufrd" {
		return x.rest(st, r.A[0])
	}
	for i := len(st.tmpl) - 1; i >= 0; i-- {
		if v, ok := x.fromTmpl(st, st.tmpl[i], restCell(r), nil); ok {
			return v
		}
	}
	return Mk("stream", "", r)
}

// take splits n bytes from the front of c; ok is false when it is not known
// that so many bytes are there.
func (x *Exec) take(st *State, c, n *T) (got, rest *T, ok bool) {
	if n == Zero {
		return Cat(), c, true
	}
	switch c.Op {
	case "stream":
		return SubBytes(c, Zero, n), From(c, n), false
	case "from":
		return SubBytes(c.A[0], c.A[1], Add(c.A[1], n)), From(c, n), false
	case "w", "sym":
		return SubBytes(c, Zero, n), From(c, n), false
	}
	parts := append([]*T{}, CatParts(c)...)
	var out []*T
	need := n
	for need != Zero {
		if len(parts) == 0 {
			return nil, nil, false
		}
		p := parts[0]
		if p.Op == "rep" {
			lo, m, j, body := Zero, p.A[0], p.A[1], p.A[2]
			if len(p.A) == 4 {
				lo, m, j, body = p.A[0], p.A[1], p.A[2], p.A[3]
			}
			// the whole rest of the repetition
			if bl := ByteLen(body); len(bl.A) == 0 && Sub(need, Mul(Sub(m, lo), bl)) == Zero {
				out = append(out, p)
				parts = parts[1:]
				need = Zero
				continue
			}
			switch st.facts.Eval(Lt(lo, m)) {
			case 1:
				nb := []*T{Subst(body, j, lo)}
				if q := RepFrom(AddN(lo, 1), m, j, body); q.Op == "rep" {
					nb = append(nb, q)
				}
				parts = append(append([]*T{}, CatParts(Cat(nb...))...), parts[1:]...)
				continue
			case 0:
				parts = parts[1:]
				continue
			}
			return nil, nil, false
		}
		if p.Op == "ite" {
			switch st.facts.Eval(CondOf(p.A[0])) {
			case 1:
				parts = append(append([]*T{}, CatParts(p.A[1])...), parts[1:]...)
				continue
			case 0:
				parts = append(append([]*T{}, CatParts(p.A[2])...), parts[1:]...)
				continue
			}
			cd := CondOf(p.A[0])
			x.stuck = &cd
			return nil, nil, false
		}
		pl := ByteLen(p)
		d := Sub(need, pl)
		if v, ok := d.Int64(); ok {
			if v >= 0 {
				out = append(out, p)
				parts = parts[1:]
				need = d
				continue
			}
			out = append(out, SubBytes(p, Zero, need))
			parts[0] = SubBytes(p, need, pl)
			return Cat(out...), Cat(parts...), true
		}
		switch st.facts.Eval(Le(pl, need)) {
		case 1:
			out = append(out, p)
			parts = parts[1:]
			need = d
			continue
		}
		if st.facts.Eval(Le(need, pl)) == 1 {
			out = append(out, SubBytes(p, Zero, need))
			parts[0] = SubBytes(p, need, pl)
			return Cat(out...), Cat(parts...), true
		}
		return nil, nil, false
	}
	return Cat(out...), Cat(parts...), true
}

// RepFrom is body[j] for j = lo..n-1.
func RepFrom(lo, n, j, body *T) *T {
	if lo == n {
		return Cat()
	}
	if lo == Zero {
		return Mk("rep", "", n, j, body)
	}
	return Mk("rep", "", lo, n, j, body)
}

type readOut struct {
	it  *item
	got *T
	err *T
}

// readN reads exactly n bytes.
func (fr *frame) readN(it *item, call ssa.CallInstruction, fn string, r, n *T) []readOut {
	x := fr.x
	d := dynamic(r)
	if t := dynType(r); t != nil && t.String() == "*io.LimitedReader" {
		nt := types.Typ[types.Int64]
		na := FA(d, "N", nt)
		left := x.read(it.st, na, nt)
		under := x.read(it.st, FA(d, "R", nil), nil)
		var out []readOut
		o := it.fork()
		if it.st.facts.Assume(Le(n, left)) {
			x.write(it.st, na, Sub(left, n))
			out = append(out, fr.readN(it, call, fn, under, n)...)
		}
		if o.st.facts.Assume(Le(n, left).Not()) {
			e := fr.fresh("res", "read.err", call, types.Universe.Lookup("error").Type())
			o.st.facts.Assume(IsNil(e).Not())
			x.write(o.st, na, Zero)
			fr.emit(o, &Ev{Kind: "read", Name: fn, Args: []*T{d, n}, Res: []*T{Nil, e}, Pos: call.Pos(), Instr: call})
			out = append(out, readOut{o, nil, e})
		}
		return out
	}
	if d.Op == "ite" {
		o := it.fork()
		var out []readOut
		if it.st.facts.Assume(CondOf(d.A[0])) {
			out = append(out, fr.readN(it, call, fn, d.A[1], n)...)
		}
		if o.st.facts.Assume(CondOf(d.A[0]).Not()) {
			out = append(out, fr.readN(o, call, fn, d.A[2], n)...)
		}
		return out
	}
	if t := dynType(r); t != nil && t.String() == "*bytes.Buffer" {
		c := x.bufVal(it.st, d)
		got, rest, ok := x.take(it.st, c, n)
		if ok {
			it.st.mem[d] = rest
			return []readOut{{it, got, Nil}}
		}
	}
	c := x.rest(it.st, d)
	x.stuck = nil
	got, rest, sure := x.take(it.st, c, n)
	if got == nil && x.stuck != nil {
		// what comes next depends on a condition
		cd := *x.stuck
		o := it.fork()
		var out []readOut
		if it.st.facts.Assume(cd) {
			out = append(out, fr.readN(it, call, fn, r, n)...)
		}
		if o.st.facts.Assume(cd.Not()) {
			out = append(out, fr.readN(o, call, fn, r, n)...)
		}
		return out
	}
	if got == nil {
		got, rest = SubBytes(c, Zero, n), From(c, n)
	}
	var out []readOut
	if !sure {
		e := fr.fresh("res", "read.err", call, types.Universe.Lookup("error").Type())
		o := it.fork()
		if o.st.facts.Assume(IsNil(e).Not()) {
			o.st.mem[restCell(d)] = Mk("broken", "", c)
			fr.emit(o, &Ev{Kind: "read", Name: fn, Args: []*T{d, n}, Res: []*T{Nil, e}, Pos: call.Pos(), Instr: call})
			out = append(out, readOut{o, nil, e})
		}
		if !it.st.facts.Assume(IsNil(e)) {
			return out
		}
		if dt := dynType(r); dt != nil && dt.String() == "*bytes.Reader" && finite(c) {
			// there were so many bytes
			if !it.st.facts.Assume(Le(n, Len(c))) {
				return out
			}
			if g, q, ok := x.take(it.st, c, n); ok {
				got, rest = g, q
			}
		}
	}
	it.st.mem[restCell(d)] = rest
	fr.emit(it, &Ev{Kind: "read", Name: fn, Args: []*T{d, n}, Res: []*T{got, Nil}, Pos: call.Pos(), Instr: call})
	return append(out, readOut{it, got, Nil})
}

// finite: c is a byte string of its own, not what a stream has still to deliver.
func finite(c *T) bool {
	switch c.Op {
	case "stream", "w", "sym", "broken":
		return false
	case "from":
		return finite(c.A[0])
	}
	return true
}

// decode stores a byte string into the object at p as binary.Read does.
func (fr *frame) decode(st *State, p *T, typ types.Type, got *T, order string) bool {
	x := fr.x
	if w := widthOf(typ, order); w != "" {
		v := Num(w, got, typ)
		if isBool(typ) {
			v = EqInt(v, Zero).Not().Term()
		}
		x.write(st, p, v)
		return true
	}
	switch u := typ.Underlying().(type) {
	case *types.Array:
		if isByteType(u.Elem()) {
			x.write(st, p, got)
			return true
		}
		n := sizeOf(u.Elem())
		if n < 0 {
			return false
		}
		for i := int64(0); i < u.Len(); i++ {
			if !fr.decode(st, IA(p, Int(i), ptrTo(u.Elem())), u.Elem(), SubBytes(got, Int(i*n), Int((i+1)*n)), order) {
				return false
			}
		}
		return true
	case *types.Struct:
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n := sizeOf(f.Type())
			if n < 0 || !fr.decode(st, FA(p, f.Name(), f.Type()), f.Type(), SubBytes(got, Int(off), Int(off+n)), order) {
				return false
			}
			off += n
		}
		return true
	}
	return false
}

// sizeOf is the encoded size of a fixed-size type, -1 otherwise.
func sizeOf(t types.Type) int64 {
	if w := widthOf(t, "be"); w != "" {
		return widths[w]
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if n := sizeOf(u.Elem()); n >= 0 {
			return n * u.Len()
		}
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := sizeOf(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (fr *frame) binaryRead(it *item, call ssa.CallInstruction, args []*T) []callOut {
	r, order, data := args[0], orderOf(args[1]), args[2]
	t := dynType(data)
	d := dynamic(data)
	var n *T
	var slice types.Type
	var elem types.Type
	if t != nil {
		if e := pointee(t); e != nil {
			if s := sizeOf(e); s >= 0 {
				n, elem = Int(s), e
			}
		} else if s, ok := t.Underlying().(*types.Slice); ok {
			if es := sizeOf(s.Elem()); es > 0 {
				n, slice = Scale(Len(d), big.NewInt(es)), s.Elem()
			}
		}
	}
	if n == nil || order == "" {
		fr.x.problem("%s: binary.Read into %v is not modelled", fr.x.P.Pos(call.Pos()), t)
		return fr.forkErr(it, call, "read", nil)
	}
	var out []callOut
	for _, o := range fr.readN(it, call, "binary.Read", r, n) {
		if o.got != nil {
			if elem != nil {
				fr.decode(o.it.st, d, elem, o.got, order)
			} else if isByteType(slice) {
				fr.x.setContent(o.it.st, d, o.got)
			} else {
				es := sizeOf(slice)
				if c, ok := Len(d).Int64(); ok && c <= 256 {
					for i := int64(0); i < c; i++ {
						fr.decode(o.it.st, IA(d, Int(i), ptrTo(slice)), slice, SubBytes(o.got, Int(i*es), Int((i+1)*es)), order)
					}
				} else {
					j := Sym("j!rd", fr.fresh("sym", "rd", call, nil))
					v := Num(widthOf(slice, order), SubBytes(o.got, Scale(j, big.NewInt(es)), AddN(Scale(j, big.NewInt(es)), es)), slice)
					o.it.st.tmpl = append(o.it.st.tmpl, Tmpl{Addr: IA(d, j, ptrTo(slice)), Val: v, J: []*T{j}, N: []*T{Len(d)}})
				}
			}
		}
		out = append(out, callOut{o.it, o.err})
	}
	return out
}

// ---- time ----

var billion = big.NewInt(1e9)

// TimeNS is the instant of a time value in nanoseconds.
func TimeNS(t *T) *T {
	if t.Op == "time" {
		return t.A[0]
	}
	if t.Op == "ite" {
		return Ite(t.A[0], TimeNS(t.A[1]), TimeNS(t.A[2]))
	}
	if t.Op == "zero" {
		return BigInt(new(big.Int).Mul(big.NewInt(time.Time{}.Unix()), billion))
	}
	return Add(Scale(mkT(types.Typ[types.Int64], "tunix", "", t), billion), mkT(types.Typ[types.Uint32], "tsub", "", t))
}

// UnixOf is the instant in whole seconds.
func UnixOf(t *T) *T {
	ns := TimeNS(t)
	l := toLin(ns)
	q := lin{new(big.Int), map[*T]*big.Int{}}
	exact := true
	m := new(big.Int)
	q.c.DivMod(l.c, billion, m)
	if m.Sign() != 0 {
		exact = false
	}
	for k, c := range l.m {
		if k.Op == "tsub" && c.Cmp(big.NewInt(1)) == 0 {
			continue
		}
		d, r := new(big.Int).QuoRem(c, billion, new(big.Int))
		if r.Sign() != 0 {
			exact = false
		}
		q.m[k] = d
	}
	if exact {
		return q.term()
	}
	return Quo(ns, BigInt(billion))
}

func timeT(typ types.Type, ns *T) *T { return mkT(typ, "time", "", ns) }

// ---- calls of external functions ----

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func stripMutex(t *T) *T { return t }

func (fr *frame) lockOp(it *item, call ssa.CallInstruction, op string, key *T) []callOut {
	fr.emit(it, &Ev{Kind: "lock", Name: op, Args: []*T{key}, Pos: call.Pos(), Instr: call})
	st := it.st
	switch op {
	case "Lock", "RLock":
		st.epoch = fr.fresh("sym", "epoch", call, nil)
		for c := range st.mem {
			if fr.x.isShared(c) {
				if _, stable := fr.x.kept(st, c); !stable {
					delete(st.mem, c)
				}
			}
		}
		st.held = append(st.held[:len(st.held):len(st.held)], Lock{key, op == "RLock", st.epoch})
	case "Unlock", "RUnlock":
		var n []Lock
		done := false
		for i := len(st.held) - 1; i >= 0; i-- {
			l := st.held[i]
			if !done && l.Key == key && l.R == (op == "RUnlock") {
				done = true
				continue
			}
			n = append([]Lock{l}, n...)
		}
		st.held = n
	}
	return []callOut{{it, Nil}}
}

func (fr *frame) extern(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) []callOut {
	x := fr.x
	st := it.st
	name := FuncName(f)
	sig := f.Signature
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	ret := func(v *T) []callOut { return []callOut{{it, v}} }
	if r := sig.Recv(); r != nil && len(args) > 0 && pointee(r.Type()) != nil {
		fr.risk(it, "recv", args[0], nil, call)
	}
	if x.Cfg.OnRisk != nil {
		for i, a := range args {
			if r := sig.Recv(); r != nil && i == 0 && pointee(r.Type()) != nil {
				continue // a method may fill its receiver in
			}
			fr.bigParts(it, a, a.Typ, call)
		}
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	if x.Cfg.init && f.Name() == "init" {
		return ret(Nil)
	}
	switch name {
	case "bytes.Buffer.Write", "bytes.Buffer.WriteString":
		var out []callOut
		data := x.content(st, args[1])
		for _, o := range fr.writeTo(it, call, mkT(nil, "iface", TypeKey(args0Type(f)), args[0]), data) {
			out = append(out, callOut{o.it, Mk("tuple", "", Len(data), o.val)})
		}
		return out
	case "bytes.Buffer.WriteByte":
		st.mem[args[0]] = Cat(x.bufVal(st, args[0]), U("8", args[1]))
		return ret(Nil)
	case "bytes.Buffer.Bytes", "bytes.Buffer.String":
		return ret(x.bufVal(st, args[0]))
	case "bytes.Buffer.Len":
		return ret(Len(x.bufVal(st, args[0])))
	case "bytes.Buffer.Reset":
		st.mem[args[0]] = Cat()
		return ret(Nil)
	case "bytes.Buffer.Grow":
		return ret(Nil)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		pt := sig.Results().At(0).Type()
		return ret(fr.newObj(it, call, "buffer", pointee(pt), x.content(st, args[0])))
	case "bytes.NewReader", "strings.NewReader":
		r := fr.fresh("brd", "reader", call, sig.Results().At(0).Type())
		st.mem[restCell(r)] = x.content(st, args[0])
		return ret(r)
	case "bytes.Reader.Len", "strings.Reader.Len":
		return ret(Len(x.rest(st, args[0])))
	case "binary.Write":
		order := orderOf(args[1])
		var enc *T
		if t := dynType(args[2]); t != nil && args[2].Op == "iface" && order != "" {
			enc = fr.encode(st, args[2].A[0], t, order)
		}
		if enc == nil {
			x.problem("%s: binary.Write of %v is not modelled", x.P.Pos(call.Pos()), args[2])
			enc = fr.fresh("sym", "enc", call, bytesT)
		}
		return fr.writeTo(it, call, args[0], enc)
	case "binary.Read":
		return fr.binaryRead(it, call, args)
	case "io.ReadFull", "io.ReadAtLeast":
		if args[0].String() == "crypto/rand.Reader" || args[0].String() == "*crypto/rand.Reader" {
			return fr.randRead(it, call, args[1:2])
		}
		n := Len(args[1])
		if name == "io.ReadAtLeast" && args[2] != n {
			x.problem("%s: io.ReadAtLeast with another length is not modelled", x.P.Pos(call.Pos()))
		}
		var out []callOut
		for _, o := range fr.readN(it, call, name, args[0], n) {
			if o.got != nil {
				x.setContent(o.it.st, args[1], o.got)
				out = append(out, callOut{o.it, Mk("tuple", "", n, Nil)})
			} else {
				x.setContent(o.it.st, args[1], MkT(bytesT, "partial", "", n, fr.fresh("sym", "partial", call, nil)))
				out = append(out, callOut{o.it, Mk("tuple", "", fr.fresh("res", "short", call, types.Typ[types.Int]), o.err)})
			}
		}
		return out
	case "io.WriteString":
		var out []callOut
		for _, o := range fr.writeTo(it, call, args[0], args[1]) {
			out = append(out, callOut{o.it, Mk("tuple", "", Len(args[1]), o.val)})
		}
		return out
	case "io.LimitReader":
		lt := x.P.SSA.ImportedPackage("io").Type("LimitedReader").Type()
		a := fr.fresh("al", "limited", call, types.NewPointer(lt))
		x.write(st, FA(a, "R", nil), args[0])
		x.write(st, FA(a, "N", types.Typ[types.Int64]), args[1])
		return ret(mkT(sig.Results().At(0).Type(), "iface", TypeKey(types.NewPointer(lt)), a))
	case "io.Copy", "io.CopyN", "ioutil.ReadAll", "io.ReadAll":
		src := args[0]
		if strings.HasPrefix(name, "io.Copy") {
			src = args[1]
		}
		d := dynamic(src)
		n := Nil
		if name == "io.CopyN" {
			n = args[2]
		}
		if t := dynType(src); t != nil && t.String() == "*io.LimitedReader" {
			na := FA(d, "N", types.Typ[types.Int64])
			n = x.read(st, na, types.Typ[types.Int64])
		}
		e := fr.fresh("res", "copy.err", call, types.Universe.Lookup("error").Type())
		cnt := fr.fresh("res", "copied", call, types.Typ[types.Int64])
		o := it.fork()
		var out []callOut
		fr.emit(it, &Ev{Kind: "drain", Name: name, Args: []*T{d, n, dynamic(args[0])}, Res: []*T{Nil}, Pos: call.Pos(), Instr: call})
		fr.emit(o, &Ev{Kind: "drain", Name: name, Args: []*T{d, n, dynamic(args[0])}, Res: []*T{e}, Pos: call.Pos(), Instr: call})
		if it.st.facts.Assume(IsNil(e)) {
			if t := dynType(src); t != nil && t.String() == "*io.LimitedReader" {
				x.write(it.st, FA(d, "N", types.Typ[types.Int64]), Zero)
			} else {
				it.st.mem[restCell(d)] = fr.fresh("sym", "drained", call, nil)
			}
			out = append(out, callOut{it, Mk("tuple", "", cnt, Nil)})
		}
		if o.st.facts.Assume(IsNil(e).Not()) {
			out = append(out, callOut{o, Mk("tuple", "", cnt, e)})
		}
		return out
	case "bufio.NewReader", "bufio.NewReaderSize":
		r := fr.fresh("bufrd", "bufio", call, sig.Results().At(0).Type())
		r = mkT(r.Typ, "bufrd", r.S, append([]*T{dynamic(args[0])}, r.A...)...)
		fr.emit(it, &Ev{Kind: "call", Name: name, Args: args, Res: []*T{r}, Pos: call.Pos(), Instr: call})
		return ret(r)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		r := fr.fresh("bufwr", "bufio", call, sig.Results().At(0).Type())
		r = mkT(r.Typ, "bufwr", r.S, append([]*T{dynamic(args[0])}, r.A...)...)
		fr.emit(it, &Ev{Kind: "call", Name: name, Args: args, Res: []*T{r}, Pos: call.Pos(), Instr: call})
		return ret(r)
	case "bufio.Writer.Write", "bufio.Writer.WriteString":
		var out []callOut
		data := x.content(st, args[1])
		for _, o := range fr.writeTo(it, call, args[0], data) {
			out = append(out, callOut{o.it, Mk("tuple", "", Len(data), o.val)})
		}
		return out
	case "bufio.Writer.WriteByte":
		return fr.writeTo(it, call, args[0], U("8", args[1]))
	case "bufio.Writer.Flush":
		return fr.forkErr(it, call, "flush", &Ev{Kind: "flush", Args: args[:1], Pos: call.Pos(), Instr: call})
	case "bytes.Compare":
		a, b := x.content(st, args[0]), x.content(st, args[1])
		if a == b {
			return ret(Zero)
		}
		return ret(mkT(types.Typ[types.Int], "cmp", "", a, b))
	case "bytes.Equal":
		return ret(EqBytes("", x.content(st, args[0]), x.content(st, args[1])).Term())
	case "bits.RotateLeft64":
		if n, ok := args[1].Int64(); ok {
			return ret(RotL(args[0], n))
		}
		return fr.pure(it, call, f, args)
	case "bytes.Repeat":
		c := x.content(st, args[0])
		if c.Op == "str" && len(c.S) == 1 && c.S[0] == 0 {
			return ret(Zeros(args[1]))
		}
		return fr.pure(it, call, f, args)
	case "bytes.HasPrefix":
		a, b := x.content(st, args[0]), x.content(st, args[1])
		if st.facts.Eval(Le(Len(b), Len(a))) == 1 {
			return ret(EqBytes("", SubBytes(a, Zero, Len(b)), b).Term())
		}
		return fr.pure(it, call, f, args)
	case "errors.New":
		return ret(mkT(sig.Results().At(0).Type(), "err", "errors.New", args[0]))
	case "fmt.Errorf":
		return ret(mkT(sig.Results().At(0).Type(), "err", "fmt.Errorf", append([]*T{args[0]}, fr.variadic(st, args[1])...)...))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return fr.pure(it, call, f, args)
	case "os.Exit":
		fr.emit(it, &Ev{Kind: "exit", Name: name, Args: args, Pos: call.Pos(), Instr: call})
		fr.outs = append(fr.outs, Path{st, nil, "fatal", call.Pos()})
		return nil
	case "time.Sleep":
		fr.emit(it, &Ev{Kind: "sleep", Name: name, Args: args, Pos: call.Pos(), Instr: call})
		return ret(Nil)
	case "time.Now":
		t := fr.fresh("sym", "now", call, nil)
		tt := sig.Results().At(0).Type()
		v := timeT(tt, Add(Scale(mkT(types.Typ[types.Int64], "tunix", "", t), billion), mkT(types.Typ[types.Uint32], "tsub", "", t)))
		fr.emit(it, &Ev{Kind: "now", Res: []*T{v}, Pos: call.Pos(), Instr: call})
		return ret(v)
	case "time.Unix":
		return ret(timeT(sig.Results().At(0).Type(), Add(Scale(args[0], billion), args[1])))
	case "time.Date":
		ok := true
		var n [7]int64
		for i := 0; i < 7; i++ {
			v, c := args[i].Int64()
			n[i], ok = v, ok && c
		}
		loc := args[7].String()
		if ok && (strings.Contains(loc, "UTC") || strings.Contains(loc, "utc")) {
			d := time.Date(int(n[0]), time.Month(n[1]), int(n[2]), int(n[3]), int(n[4]), int(n[5]), int(n[6]), time.UTC)
			return ret(timeT(sig.Results().At(0).Type(), BigInt(new(big.Int).Add(new(big.Int).Mul(big.NewInt(d.Unix()), billion), big.NewInt(int64(d.Nanosecond()))))))
		}
		return fr.pure(it, call, f, args)
	case "time.Time.UTC", "time.Time.Local", "time.Time.In", "time.Time.Round":
		return ret(args[0])
	case "time.Time.Unix":
		return ret(UnixOf(args[0]))
	case "time.Time.UnixNano":
		// undefined outside 1678..2262
		if n := TimeNS(args[0]); n.Any(func(s *T) bool { return s.Op == "tunix" && !isNow(s.A[0]) }) {
			return fr.pure(it, call, f, args)
		} else {
			return ret(n)
		}
	case "time.Time.Sub":
		return ret(Sub(TimeNS(args[0]), TimeNS(args[1])))
	case "time.Time.Add":
		return ret(timeT(sig.Results().At(0).Type(), Add(TimeNS(args[0]), args[1])))
	case "time.Time.After":
		return ret(Lt(TimeNS(args[1]), TimeNS(args[0])).Term())
	case "time.Time.Before":
		return ret(Lt(TimeNS(args[0]), TimeNS(args[1])).Term())
	case "time.Time.Equal":
		return ret(EqInt(TimeNS(args[0]), TimeNS(args[1])).Term())
	case "time.Since":
		t := fr.fresh("sym", "now", call, nil)
		return ret(Sub(Add(Scale(mkT(types.Typ[types.Int64], "tunix", "", t), billion), mkT(types.Typ[types.Uint32], "tsub", "", t)), TimeNS(args[0])))
	case "time.Duration.Seconds":
		return fr.pure(it, call, f, args)
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock":
		fr.risk(it, "nil", Root(args[0]), nil, call)
		return fr.lockOp(it, call, f.Name(), args[0])
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait":
		fr.emit(it, &Ev{Kind: "wg", Name: f.Name(), Args: args, Pos: call.Pos(), Instr: call})
		return ret(Nil)
	case "sync.Once.Do":
		first := Cond{fr.fresh("res", "once", call, types.Typ[types.Bool]), true}
		// what the path itself knows of earlier calls
		bt := types.Typ[types.Uint32]
		done := FA(args[0], "done", bt)
		if v, ok := x.read(st, done, bt).Int64(); ok {
			first = Cond{True, v == 0}
		}
		x.write(st, done, Int(1))
		fr.emit(it, &Ev{Kind: "once", Name: name, Args: args, Res: []*T{first.Term()}, Pos: call.Pos(), Instr: call})
		o := it.fork()
		var out []callOut
		if it.st.facts.Assume(first) {
			out = append(out, fr.invoke(it, call, args[1], nil)...)
		}
		if o.st.facts.Assume(first.Not()) {
			out = append(out, callOut{o, Nil})
		}
		return out
	case "sort.Sort", "sort.Stable", "sort.IsSorted":
		return fr.sorting(it, call, f, args)
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
		return fr.sorting(it, call, f, args)
	case "sha256.New":
		h := fr.fresh("hasher", "sha256", call, sig.Results().At(0).Type())
		delete(st.mem, Mk("cell", "hash", h))
		return ret(h)
	case "blake2b.Sum256", "sha256.Sum256":
		return ret(callTerm(sig.Results().At(0).Type(), name, x.content(st, args[0])))
	case "rand.Read":
		if pkg == "crypto/rand" {
			return fr.randRead(it, call, args)
		}
	case "net.ResolveTCPAddr", "net.DialTCP", "net.Dial", "net.DialTimeout", "net.Listen", "net.ListenTCP":
		res := fr.results(name, call, sig, args)
		e := res.A[1]
		if name == "net.ResolveTCPAddr" && len(args) == 2 && args[1].Op == "str" {
			if _, err := netip.ParseAddrPort(args[1].S); err == nil {
				it.st.facts.Assume(IsNil(e)) // a literal address
			}
		}
		o := it.fork()
		var out []callOut
		if it.st.facts.Assume(IsNil(e)) {
			it.st.facts.Assume(IsNil(res.A[0]).Not())
			fr.emit(it, &Ev{Kind: "call", Name: name, Args: args, Res: []*T{res.A[0], Nil}, Pos: call.Pos(), Instr: call})
			out = append(out, callOut{it, Mk("tuple", "", res.A[0], Nil)})
		}
		if o.st.facts.Assume(IsNil(e).Not()) {
			fr.emit(o, &Ev{Kind: "call", Name: name, Args: args, Res: []*T{Nil, e}, Pos: call.Pos(), Instr: call})
			out = append(out, callOut{o, Mk("tuple", "", Nil, e)})
		}
		return out
	case "net.conn.Close", "net.TCPConn.Close":
		c := args[0]
		if c.Op == "fa" {
			c = c.A[0]
		}
		return fr.event(it, call, "call", "net.Conn.Close", []*T{c}, sig)
	case "net.conn.Write", "net.TCPConn.Write", "net.conn.Read", "net.TCPConn.Read":
		c := args[0]
		if c.Op == "fa" {
			c = c.A[0]
		}
		if strings.HasSuffix(name, "Read") {
			return fr.partialRead(it, call, c, args[1], sig)
		}
		data := x.content(it.st, args[1])
		var out []callOut
		for _, o := range fr.writeTo(it, call, c, data) {
			out = append(out, callOut{o.it, Mk("tuple", "", Len(data), o.val)})
		}
		return out
	}
	switch pkg {
	case "sync/atomic":
		if o, ok := fr.ownAtomic(it, call, f, args, sig); ok {
			return o
		}
		res := fr.results(name, call, sig, args[:1])
		fr.emit(it, &Ev{Kind: "atomic", Name: f.Name(), Args: args, Res: res.A, Pos: call.Pos(), Instr: call})
		if !strings.HasPrefix(f.Name(), "Load") {
			for c := range st.mem {
				if c == args[0] || below(c, args[0]) {
					delete(st.mem, c)
				}
			}
			st.epoch = fr.fresh("sym", "epoch", call, nil)
		}
		return ret(untuple(res))
	case "github.com/sirupsen/logrus", "log":
		var as []*T
		for _, a := range args {
			if _, ok := a.Typ.(*types.Slice); ok || a.Op == "sl" || a.Op == "mkslice" {
				for _, e := range fr.variadic(st, a) {
					as = append(as, e)
				}
			} else {
				as = append(as, a)
			}
		}
		fr.emit(it, &Ev{Kind: "log", Name: f.Name(), Args: as, Pos: call.Pos(), Instr: call})
		if strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic") {
			fr.outs = append(fr.outs, Path{st, nil, "fatal", call.Pos()})
			return nil
		}
		if sig.Results().Len() == 0 {
			return ret(Nil)
		}
		return ret(untuple(fr.results(name, call, sig, nil)))
	case "encoding/binary":
		order := ""
		if sig.Recv() != nil {
			order = orderOf(Mk("", sig.Recv().Type().String()))
		}
		n := f.Name()
		if order != "" {
			var bits string
			for _, w := range []string{"16", "32", "64"} {
				if strings.HasSuffix(n, w) {
					bits = w
				}
			}
			if bits != "" {
				w := bits + order
				l := Int(widths[w])
				switch {
				case strings.HasPrefix(n, "Uint"):
					c := x.content(st, args[1])
					fr.risk(it, "index", AddN(l, -1), Len(c), call)
					return ret(Num(w, SubBytes(c, Zero, l), sig.Results().At(0).Type()))
				case strings.HasPrefix(n, "Put"):
					fr.risk(it, "index", AddN(l, -1), Len(args[1]), call)
					x.setContent(st, Sl(args[1], Zero, l), U(w, args[2]))
					return ret(Nil)
				case strings.HasPrefix(n, "Append"):
					return ret(Cat(x.content(st, args[1]), U(w, args[2])))
				}
			}
		}
		if n == "Size" {
			if t := dynType(args[0]); t != nil && sizeOf(t) >= 0 {
				return ret(Int(sizeOf(t)))
			}
		}
	case "math/big":
		return fr.bigInt(it, call, f, args)
	}
	if sig.Recv() != nil && f.Name() == "Read" && sig.Params().Len() == 1 {
		if n, ok := fixedReaders[name]; ok {
			var out []callOut
			for _, o := range fr.readN(it, call, name, args[1], Int(n)) {
				if o.got != nil {
					p := args[0]
					pt := pointee(p.Typ)
					v := mkT(pt, "call", name, o.got)
					if o.got.Op == "call" && o.got.S == strings.TrimSuffix(name, "Read")+"Bytes" {
						v = o.got.A[0]
					}
					// the point may also be refused
					e := fr.fresh("res", "decode.err", call, types.Universe.Lookup("error").Type())
					if v.Op == "call" && v.S == name {
						b := o.it.fork()
						if b.st.facts.Assume(IsNil(e).Not()) {
							out = append(out, callOut{b, e})
						}
						o.it.st.facts.Assume(IsNil(e))
					}
					x.write(o.it.st, p, v)
					out = append(out, callOut{o.it, Nil})
				} else {
					out = append(out, callOut{o.it, o.err})
				}
			}
			return out
		}
	}
	if fr.consumes(it, call, f, args) {
		return fr.event(it, call, "call", name, args, sig)
	}
	switch pkg {
	case "bytes", "strings", "strconv", "math", "math/bits", "encoding/hex", "github.com/yoss22/bulletproofs",
		"github.com/btcsuite/btcd/btcec", "github.com/dchest/siphash", "golang.org/x/crypto/blake2b", "crypto/sha256",
		"unicode", "path", "net", "fmt", "errors", "time":
		switch name {
		case "net.IP.To4":
			// nil unless the address is one of 4 bytes
			if n, ok := Len(fr.x.content(st, args[0])).Int64(); ok && n == 4 {
				return ret(args[0])
			}
			var out []callOut
			for _, o := range fr.pure(it, call, f, args) {
				alt := o.it.fork()
				if o.it.st.facts.Assume(IsNil(o.val).Not()) {
					out = append(out, callOut{o.it, mkT(o.val.Typ, "call", "net.IP.To4!", o.val.A...)})
				}
				if alt.st.facts.Assume(IsNil(o.val)) && alt.st.facts.Assume(EqInt(Len(fr.x.content(alt.st, args[0])), Int(4)).Not()) {
					out = append(out, callOut{alt, Nil})
				}
			}
			return out
		}
		if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") {
			as := append([]*T{}, args...)
			fr.emit(it, &Ev{Kind: "log", Name: name, Args: append(as[:len(as)-1:len(as)-1], fr.variadic(st, args[len(args)-1])...), Pos: call.Pos(), Instr: call})
			return ret(untuple(fr.results(name, call, sig, nil)))
		}
		return fr.pure(it, call, f, args)
	}
	return fr.event(it, call, "call", name, args, sig)
}

// consumes: f may change the state of a reader or buffer it is given; what
// that holds afterwards is unknown.
func (fr *frame) consumes(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) bool {
	switch f.Name() {
	case "Len", "Size", "Cap", "Buffered", "Available", "String", "Bytes", "Peek", "NewReader", "NewReaderSize", "NewWriter", "NewWriterSize", "MultiReader", "TeeReader":
		return false
	}
	r := false
	for _, a := range args {
		d := dynamic(a)
		if d.Typ == nil {
			continue
		}
		p, ok := d.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		switch types.TypeString(p.Elem(), nil) {
		case "bufio.Reader", "bytes.Reader", "strings.Reader":
			it.st.mem[restCell(d)] = fr.fresh("sym", "unread", call, nil)
			r = true
		case "bytes.Buffer", "strings.Builder":
			it.st.mem[d] = fr.fresh("sym", "buffered", call, p.Elem())
			r = true
		case "io.LimitedReader":
			fr.x.write(it.st, FA(d, "N", types.Typ[types.Int64]), fr.fresh("sym", "left", call, types.Typ[types.Int64]))
			r = true
		}
	}
	return r
}

func lenOr(t *T, d int64) int64 {
	if n, ok := Len(t).Int64(); ok {
		return n
	}
	return d
}

// fixedReaders lists external decoders that read a fixed number of bytes.
var fixedReaders = map[string]int64{"bulletproofs.Point.Read": 33, "bulletproofs.BulletProof.Read": 675}

func args0Type(f *ssa.Function) types.Type { return f.Signature.Recv().Type() }

// bigInt models math/big.Int by values.
func (fr *frame) bigInt(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) []callOut {
	x, st := fr.x, it.st
	sig := f.Signature
	ret := func(v *T) []callOut { return []callOut{{it, v}} }
	val := func(p *T) *T {
		v := x.read(st, p, pointee(p.Typ))
		if v.Op == "zero" {
			return Mk("big", "0")
		}
		return v
	}
	if f.Name() == "NewInt" {
		return ret(fr.newObj(it, call, "big", pointee(sig.Results().At(0).Type()), bigConst(args[0])))
	}
	if sig.Recv() == nil {
		return fr.pure(it, call, f, args)
	}
	setsRecv := sig.Results().Len() >= 1 && types.Identical(sig.Results().At(0).Type(), sig.Recv().Type())
	switch f.Name() {
	case "Cmp":
		a, b := val(args[0]), val(args[1])
		if a == b {
			return ret(Zero)
		}
		return ret(mkT(types.Typ[types.Int], "cmp", "big", a, b))
	case "Sign":
		a := val(args[0])
		if a.Op == "big" && a.S == "frombytes" {
			// never negative
		}
		return ret(mkT(types.Typ[types.Int], "cmp", "big", a, Mk("big", "0")))
	case "SetBytes":
		x.write(st, args[0], Mk("big", "frombytes", x.content(st, args[1])))
		return ret(args[0])
	case "Set":
		x.write(st, args[0], val(args[1]))
		return ret(args[0])
	case "SetInt64", "SetUint64":
		x.write(st, args[0], bigConst(args[1]))
		return ret(args[0])
	case "Bit":
		return ret(mkT(types.Typ[types.Uint], "bit", "", val(args[0]), args[1]))
	case "Bytes":
		return ret(mkT(sig.Results().At(0).Type(), "call", "big.Bytes", val(args[0])))
	}
	var as []*T
	for i, a := range args {
		if i == 0 && setsRecv {
			continue
		}
		if pointee(a.Typ) != nil && a != Nil {
			as = append(as, val(a))
		} else {
			as = append(as, a)
		}
	}
	switch f.Name() {
	case "Add", "Mul":
		if len(as) == 2 && as[0].ID > as[1].ID {
			as[0], as[1] = as[1], as[0]
		}
	}
	if setsRecv {
		x.write(st, args[0], Mk("big", f.Name(), as...))
		if sig.Results().Len() == 1 {
			return ret(args[0])
		}
		return ret(Mk("tuple", "", args[0], fr.fresh("res", f.Name(), call, nil)))
	}
	return ret(callTerm(sig.Results().At(0).Type(), "big."+f.Name(), as...))
}

func isNow(t *T) bool { return t.Op == "sym" && strings.HasPrefix(t.S, "now") }

func bigConst(n *T) *T {
	if n == Zero {
		return Mk("big", "0")
	}
	return Mk("big", "int", n)
}

// ---- sorting ----

var (
	sortI = Sym("i!sort")
	sortJ = Sym("j!sort")
)

// Order is the meaning of a less function: a boolean term over the elements i
// and j of the sequence.
type Order struct {
	Less *T
	Base *T
	Swap string // "" when Swap exchanges the elements, otherwise what is wrong
}

func (fr *frame) sorting(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T) []callOut {
	x, st := fr.x, it.st
	i, j := sortI, sortJ
	var base, less *T
	var swap, tname string
	probe := func(fn *T, as ...*T) *T {
		if fn == nil {
			return nil
		}
		x.quiet++
		defer func() { x.quiet-- }()
		s2 := st.fork()
		n := len(s2.facts.lits)
		var ps []Path
		if fn.Op == "fn" || fn.Op == "clo" {
			ps = x.call(fnTable[fn.S], as, fn.A, s2, fr.ctx+"sort>")
		}
		return boolOf(ps, n)
	}
	if strings.HasPrefix(f.Name(), "Slice") {
		base = dynamic(args[0])
		less = probe(args[1], i, j)
	} else if d := args[0]; d.Op == "iface" {
		base = d.A[0]
		t := typeTable[d.S]
		tname = types.TypeString(t, func(p *types.Package) string { return p.Name() })
		if l := x.P.methodOn(t, "Less"); l != nil {
			less = probe(FnTerm(l), base, i, j)
		}
		swap = fr.checkSwap(it, t, base)
	}
	if less == nil {
		less = fr.fresh("sym", "less", call, nil)
	}
	is := strings.Contains(f.Name(), "IsSorted")
	b := base
	for b != nil && b.Op == "sl" {
		b = b.A[0]
	}
	// the marks of earlier sorts are part of the element versions in less;
	// compare modulo those
	mark := Mk("sortmark", swap, unversion(less, base))
	if is {
		last := lastOf(st.stores[base])
		if last == mark {
			return []callOut{{it, True}}
		}
		v := ""
		if last != nil {
			v = fmt.Sprint(last.ID)
		}
		r := mkT(types.Typ[types.Bool], "issorted", v, base, unversion(less, base))
		fr.emit(it, &Ev{Kind: "issorted", Name: tname, Args: []*T{base, unversion(less, base)}, Res: []*T{r}, Pos: call.Pos(), Instr: call})
		return []callOut{{it, r}}
	}
	fr.emit(it, &Ev{Kind: "sort", Name: swap, Args: []*T{base, unversion(less, base)}, Pos: call.Pos(), Instr: call})
	if base != nil && lastOf(st.stores[base]) != mark {
		for c := range st.mem {
			if below(c, base) {
				delete(st.mem, c)
			}
		}
		st.stores[base] = append(st.stores[base][:len(st.stores[base]):len(st.stores[base])], mark)
	}
	return []callOut{{it, Nil}}
}

func lastOf(l []*T) *T {
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

// unversion removes the element versions caused by sorting from a term.
func unversion(t, base *T) *T {
	m := map[*T]*T{}
	t.Any(func(s *T) bool {
		if s.Op == "ld" && strings.HasPrefix(s.S, "w") {
			m[s] = Ld(s.A[0], "", s.Typ)
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return SubstMap(t, m)
}

// boolOf is the boolean a set of paths computes.
func boolOf(ps []Path, skip int) *T {
	var alts []*T
	for _, p := range ps {
		if p.End != "return" || len(p.Res) != 1 {
			return nil
		}
		if p.Res[0] == False {
			continue
		}
		var ls []*T
		for _, l := range p.St.facts.lits[skip:] {
			ls = append(ls, l.Term())
		}
		if p.Res[0] != True {
			ls = append(ls, p.Res[0])
		}
		switch len(ls) {
		case 0:
			alts = append(alts, True)
		case 1:
			alts = append(alts, ls[0])
		default:
			alts = append(alts, Mk("all", "", ls...))
		}
	}
	switch len(alts) {
	case 0:
		return False
	case 1:
		return alts[0]
	}
	return Mk("any", "", alts...)
}

// checkSwap checks that Swap and Len of a sort.Interface fit the slice.
func (fr *frame) checkSwap(it *item, t types.Type, base *T) string {
	x := fr.x
	sw, ln := x.P.methodOn(t, "Swap"), x.P.methodOn(t, "Len")
	if sw == nil || ln == nil {
		return "no Swap or Len"
	}
	x.quiet++
	defer func() { x.quiet-- }()
	ps := x.call(ln, []*T{base}, nil, it.st.fork(), fr.ctx+"len>")
	if len(ps) != 1 || ps[0].Res[0] != Len(base) {
		return "Len is not the length of the list"
	}
	et := elemType(base.Typ)
	if et == nil {
		et = elemType(t)
	}
	s0 := it.st.fork()
	ai, aj := IA(base, sortI, ptrTo(et)), IA(base, sortJ, ptrTo(et))
	vi, vj := x.read(s0, ai, et), x.read(s0, aj, et)
	for _, p := range x.call(sw, []*T{base, sortI, sortJ}, nil, it.st.fork(), fr.ctx+"swap>") {
		if p.End != "return" {
			return "Swap does not return"
		}
		gi, gj := p.St.mem[ai], p.St.mem[aj]
		// the later store may have dropped the earlier one, which it can alias
		if gj != vi && gi != vj {
			return "Swap does not exchange whole elements"
		}
		if gi != nil && gi != vj || gj != nil && gj != vi {
			return "Swap does not exchange whole elements"
		}
	}
	return ""
}

// ---- interface calls ----

func (fr *frame) ifaceCall(it *item, call ssa.CallInstruction, name string, args []*T) []callOut {
	x := fr.x
	sig := call.Common().Signature()
	recv := args[0]
	m := call.Common().Method.Name()
	short := shortType(call.Common().Value.Type()) + "." + m
	ret := func(v *T) []callOut { return []callOut{{it, v}} }
	fr.risk(it, "nilcall", recv, nil, call)
	if recv.Op == "hasher" {
		c := Mk("cell", "hash", recv)
		v, ok := it.st.mem[c]
		if !ok {
			v = Cat()
		}
		switch m {
		case "Write":
			d := x.content(it.st, args[1])
			it.st.mem[c] = Cat(v, d)
			return ret(Mk("tuple", "", Len(d), Nil))
		case "Sum":
			return ret(x.appendBytes(it.st, args[1], callTerm(types.NewArray(types.Typ[types.Uint8], 32), "sha256.Sum256", v)))
		case "Reset":
			it.st.mem[c] = Cat()
			return ret(Nil)
		case "Size":
			return ret(Int(32))
		}
	}
	switch m {
	case "Lock", "RLock", "Unlock", "RUnlock":
		if sig.Params().Len() == 0 && sig.Results().Len() == 0 {
			return fr.lockOp(it, call, m, Mk("ifacelock", shortType(call.Common().Value.Type()), recv))
		}
	case "Write":
		if sig.Params().Len() == 1 && IsByteSlice(sig.Params().At(0).Type()) {
			data := x.content(it.st, args[1])
			var out []callOut
			for _, o := range fr.writeTo(it, call, recv, data) {
				out = append(out, callOut{o.it, Mk("tuple", "", Len(data), o.val)})
			}
			return out
		}
	case "Read":
		if sig.Params().Len() == 1 && IsByteSlice(sig.Params().At(0).Type()) {
			return fr.partialRead(it, call, recv, args[1], sig)
		}
	case "RemoteAddr", "LocalAddr", "String", "Network":
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			if p := call.Common().Method.Pkg(); p != nil && p.Path() == "net" {
				return ret(callTerm(sig.Results().At(0).Type(), short, recv))
			}
		}
	case "Error":
		return ret(callTerm(sig.Results().At(0).Type(), short, recv))
	}
	return fr.event(it, call, "call", short, args, sig)
}

// partialRead is a single read, which may be short.
func (fr *frame) partialRead(it *item, call ssa.CallInstruction, from, buf *T, sig *types.Signature) []callOut {
	x := fr.x
	from = dynamic(from)
	res := fr.results("Read", call, sig, nil)
	fr.emit(it, &Ev{Kind: "read", Name: "partial", Args: []*T{from, Len(buf)}, Res: res.A, Pos: call.Pos(), Instr: call})
	x.setContent(it.st, buf, MkT(buf.Typ, "partial", "", Len(buf), fr.fresh("sym", "partial", call, nil)))
	it.st.mem[restCell(from)] = fr.fresh("sym", "after", call, nil)
	return []callOut{{it, res}}
}

// randRead fills a buffer from the system's random source or fails.
func (fr *frame) randRead(it *item, call ssa.CallInstruction, args []*T) []callOut {
	x := fr.x
	fr.emit(it, &Ev{Kind: "rand", Name: "crypto/rand.Read", Args: args, Pos: call.Pos(), Instr: call})
	e := fr.fresh("res", "rand.err", call, types.Universe.Lookup("error").Type())
	o := it.fork()
	var out []callOut
	if it.st.facts.Assume(IsNil(e)) {
		x.setContent(it.st, args[0], mkT(types.NewArray(types.Typ[types.Uint8], lenOr(args[0], -1)), "rand", fr.fresh("sym", "rand", call, nil).S, append([]*T{Len(args[0])}, x.ks...)...))
		out = append(out, callOut{it, Mk("tuple", "", Len(args[0]), Nil)})
	}
	if o.st.facts.Assume(IsNil(e).Not()) {
		x.setContent(o.st, args[0], MkT(types.NewSlice(types.Typ[types.Uint8]), "partial", "", Len(args[0]), fr.fresh("sym", "partial", call, nil)))
		out = append(out, callOut{o, Mk("tuple", "", Zero, e)})
	}
	return out
}

// ownAtomic is an atomic operation on memory nobody else can have seen.
func (fr *frame) ownAtomic(it *item, call ssa.CallInstruction, f *ssa.Function, args []*T, sig *types.Signature) ([]callOut, bool) {
	st := it.st
	if len(args) == 0 || !st.own[Root(args[0])] {
		return nil, false
	}
	t := pointee(args[0].Typ)
	if t == nil {
		return nil, false
	}
	cell := args[0]
	if _, ok := t.Underlying().(*types.Basic); !ok {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		t = nil
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && s.Field(i).Name() == "v" {
				t = s.Field(i).Type()
			}
		}
		if t == nil {
			return nil, false
		}
		cell = FA(cell, "v", t)
	}
	old := fr.x.read(st, cell, t)
	var res *T
	switch n := f.Name(); {
	case strings.HasPrefix(n, "CompareAndSwap"):
		switch st.facts.Eval(Eq(old, args[1])) {
		case 1:
			res = True
			fr.x.write(st, cell, args[2])
		case 0:
			res = False
		default:
			return nil, false
		}
	case strings.HasPrefix(n, "Load"):
		res = old
	default:
		return nil, false
	}
	fr.emit(it, &Ev{Kind: "atomic", Name: f.Name(), Args: args, Res: []*T{res}, Pos: call.Pos(), Instr: call})
	return []callOut{{it, res}}, true
}

// bigParts: the big numbers in what is handed to a library have to be there.
func (fr *frame) bigParts(it *item, a *T, t types.Type, call ssa.CallInstruction) {
	if t == nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if u.String() == "*math/big.Int" {
			fr.risk(it, "recv", a, nil, call)
			return
		}
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && bigStruct(s) {
			fr.risk(it, "recv", a, nil, call)
			if a == Nil {
				return
			}
			fr.bigParts(it, fr.x.read(it.st, a, u.Elem()), u.Elem(), call)
		}
	case *types.Struct:
		if !bigStruct(u) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); f.Type().String() == "*math/big.Int" {
				fr.bigParts(it, Fld(a, f.Name(), f.Type()), f.Type(), call)
			}
		}
	case *types.Slice:
		switch e := u.Elem().Underlying().(type) {
		case *types.Pointer:
			s, ok := e.Elem().Underlying().(*types.Struct)
			if e.String() != "*math/big.Int" && (!ok || !bigStruct(s)) {
				return
			}
		case *types.Struct:
			if !bigStruct(e) {
				return
			}
		default:
			return
		}
		es, _ := fr.x.Elements(it.st, a)
		for _, e := range es {
			fr.bigParts(it, e, u.Elem(), call)
		}
	}
}

// bigStruct: the struct holds pointers to big numbers.
func bigStruct(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "*math/big.Int" {
			return true
		}
	}
	return false
}
