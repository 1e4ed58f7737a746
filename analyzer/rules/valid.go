package rules

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// preProof is the part of the header that precedes the proof of work.
func preProof() string {
	l := layouts["consensus.BlockHeader"]
	return strings.TrimSuffix(l, ";sub POW")
}

// epoch of the version schedule.
type epoch struct {
	lo, hi  int64 // heights, hi < 0: no end
	version int64 // 0: none
}

var schedule = []epoch{{0, 94999, 1}, {95000, 249999, 2}, {250000, 499999, 3}, {500000, -1, 0}}

func (e epoch) in(h *T) []Cond {
	r := []Cond{eng.Le(eng.Int(e.lo), h)}
	if e.hi >= 0 {
		r = append(r, eng.Le(h, eng.Int(e.hi)))
	}
	return r
}

func (e epoch) String() string { return fmt.Sprintf("heights %d..%d", e.lo, e.hi) }

// boolCases splits a path by its boolean result.
func boolCases(p Path, f func(st *State, ok bool)) {
	r := eng.CondOf(p.Res[len(p.Res)-1])
	s := p.St.Fork()
	if s.Facts().Eval(r) != 0 && s.Assume(r) {
		f(s, true)
	}
	s = p.St.Fork()
	if s.Facts().Eval(r) != 1 && s.Assume(r.Not()) {
		f(s, false)
	}
}

// headerRun interprets the validation of an arbitrary header.
type headerRun struct {
	x    *eng.Exec
	ps   []Path
	hdr  *T
	typ  types.Type
	keys map[*T]*T // result of the cycle verification -> content of the receiver
	args map[*T][]*T
}

func (c *Ctx) headerRun() *headerRun {
	wellFormed()
	f := c.Method("consensus", "BlockHeader", "Validate")
	t := c.Named("consensus", "BlockHeader")
	if f == nil || t == nil {
		return nil
	}
	r := &headerRun{typ: t, keys: map[*T]*T{}, args: map[*T][]*T{}}
	r.x = c.Exec(eng.Config{Opaque: func(f *ssa.Function, _ []*T) bool { return isOpaqueVerify(f) }, OnEvent: func(st *State, e *Ev) {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "cuckoo.") && len(e.Res) == 1 {
			r.keys[e.Res[0]] = loaded(r.x, st, e.Args[0])
			r.args[e.Res[0]] = e.Args
		}
	}})
	r.hdr = eng.ParamSyms(f)[0]
	r.ps = r.x.Run(f, []*T{r.hdr})
	c.Done(r.x, r.ps)
	return r
}

func (r *headerRun) field(st *State, names ...string) *T {
	v, t := loaded(r.x, st, r.hdr), r.typ
	for _, n := range names {
		ft := eng.FieldType(t, n)
		v = eng.Fld(v, n, ft)
		t = ft
	}
	return v
}

// verified is the clause that the cycle verification of this header's own
// proof succeeded.
func (r *headerRun) verified(p Path) clause {
	cl := clause{name: "the proof-of-work cycle for this header"}
	nonces, eb := r.field(p.St, "POW", "Nonces"), r.field(p.St, "POW", "EdgeBits")
	for res, as := range r.args {
		if len(as) == 3 && as[1] == nonces && as[2] == eb {
			cl.alt = append(cl.alt, eng.CondOf(res))
		}
	}
	return cl
}

func (r *headerRun) now(p Path) *T {
	for _, e := range p.St.Events() {
		if e.Kind == "now" {
			return e.Res[0]
		}
	}
	return nil
}

// clauses without the version.
func (r *headerRun) clauses(p Path) []clause {
	st := p.St
	eb := r.field(st, "POW", "EdgeBits")
	sc := r.field(st, "ScalingDifficulty")
	cl := []clause{
		{"edge bits of 29 or at least 30", []Cond{eng.EqInt(eb, eng.Int(29)), eng.Le(eng.Int(30), eb)}},
		{"a scaling factor of 1 unless the edge bits are 29", []Cond{eng.EqInt(eb, eng.Int(29)), eng.EqInt(sc, eng.Int(1))}},
		r.verified(p),
	}
	t := clause{name: "a time at most 720 s in the future"}
	if n := r.now(p); n != nil {
		d := eng.Sub(nanos(r.field(st, "Timestamp")), nanos(n))
		t.alt = []Cond{eng.Le(d, eng.BigInt(bigOf("720000000000")))}
	}
	return append(cl, t)
}

func runV02(c *Ctx) {
	r := c.headerRun()
	if r == nil {
		return
	}
	okN, n := 0, 0
	for _, p := range r.ps {
		if !c.Must(p.End == "return", "decided", "header validation "+p.End, p.Pos, "header validation ends in %s when %s", p.End, lits(p.St)) {
			continue
		}
		ok := retNil(p)
		if !c.Must(ok || retErr(p), "decided", "header validation", p.Pos, "the result %v of header validation is open", p.Res) {
			continue
		}
		for _, e := range schedule {
			s := p.St.Fork()
			feasible := true
			h := r.field(s, "Height")
			for _, l := range e.in(h) {
				feasible = feasible && s.Assume(l)
			}
			if !feasible {
				continue
			}
			n++
			q := p
			q.St = s
			v := clause{name: "a version that fits the height"}
			if e.version > 0 {
				v.alt = []Cond{eng.EqInt(r.field(s, "Version"), eng.Int(e.version))}
			}
			c.exactly("a header", q, ok, append(r.clauses(q), v))
			if ok {
				okN++
			}
		}
	}
	c.Floor("accepting cases of header validation", okN, 6)
	c.Floor("cases of header validation", n, 15)
	c.Sample("BlockHeader.Validate: %d paths, %d cases by height, %d accepting", len(r.ps), n, okN)
}

func runV03(c *Ctx) {
	r := c.headerRun()
	if r == nil {
		return
	}
	acc := map[int64]bool{}
	for _, p := range r.ps {
		if p.End != "return" {
			continue
		}
		ok := retNil(p)
		for _, e := range schedule {
			s := p.St.Fork()
			h, v := r.field(s, "Height"), r.field(s, "Version")
			feasible := true
			for _, l := range e.in(h) {
				feasible = feasible && s.Assume(l)
			}
			if !feasible {
				continue
			}
			if ok {
				if e.version == 0 {
					c.Fail("schedule", e.String(), p.Pos, "a header is accepted at %s, where no version is valid", e)
					continue
				}
				c.Must(s.Facts().Eval(eng.EqInt(v, eng.Int(e.version))) == 1, "schedule", e.String(), p.Pos, "at %s a header is accepted whose version need not be %d: %s", e, e.version, lits(s))
				// at both ends of the interval
				for _, b := range []int64{e.lo, e.hi} {
					z := s.Fork()
					if z.Assume(eng.EqInt(h, eng.Int(b))) {
						acc[b] = true
					}
				}
				continue
			}
			if e.version == 0 {
				continue
			}
			// refused: with the right version there is another reason
			z := s.Fork()
			if z.Assume(eng.EqInt(v, eng.Int(e.version))) {
				q := p
				q.St = z
				c.Must(refutes(z, r.clauses(q)), "schedule-refuses", e.String(), p.Pos, "at %s version %d is refused: %s", e, e.version, lits(z))
			}
		}
	}
	for _, e := range schedule {
		if e.version > 0 {
			c.Must(acc[e.lo] && acc[e.hi], "schedule-reached", e.String(), r.ps[0].Pos, "version %d is not accepted at both ends of %s", e.version, e)
		}
	}
	// the exported helper, if it is there, says the same
	if f := c.P.Func("consensus", "ValidateBlockVersion"); f != nil && f.Signature.Params().Len() == 2 {
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		for _, p := range ps {
			if !c.Must(p.End == "return", "schedule-helper", p.End, p.Pos, "ValidateBlockVersion ends in %s", p.End) {
				continue
			}
			for _, e := range schedule {
				s := p.St.Fork()
				feasible := true
				for _, l := range e.in(as[0]) {
					feasible = feasible && s.Assume(l)
				}
				if !feasible {
					continue
				}
				q := p
				q.St = s
				boolCases(q, func(st *State, ok bool) {
					q2 := q
					q2.St = st
					v := clause{name: "the version of the schedule"}
					if e.version > 0 {
						v.alt = []Cond{eng.EqInt(as[1], eng.Int(e.version))}
					}
					c.exactly("a version at "+e.String(), q2, ok, []clause{v})
				})
			}
		}
		c.Done(x, ps)
	}
	c.Sample("schedule checked on %d paths of header validation", len(r.ps))
}

// ---- V06: what the proof commits to ----

func runV06(c *Ctx) {
	r := c.headerRun()
	if r == nil {
		return
	}
	n := 0
	for _, p := range r.ps {
		if p.End != "return" || !retNil(p) {
			continue
		}
		rb := &refBuilder{x: r.x, st: p.St}
		pre := rb.at(r.hdr, r.typ, preProof())
		if !c.Must(rb.err == "", "reference", "header", p.Pos, "%s", rb.err) {
			return
		}
		h := eng.Mk("call", "blake2b.Sum256", pre)
		for _, l := range p.St.Lits() {
			k, ok := r.keys[l.T]
			if !ok || !l.Pos {
				continue
			}
			n++
			c.keyedBy("header validation", p, k, h)
		}
	}
	c.Floor("verified graphs", n, 2)
	// the constructors of both graph variants
	for _, name := range []string{"New", "NewCuckaroo"} {
		f := c.Func("cuckoo", name)
		if f == nil {
			continue
		}
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		for _, p := range ps {
			if p.End == "return" {
				c.keyedBy("cuckoo."+name, p, loaded(x, p.St, p.Res[0]), eng.Mk("call", "blake2b.Sum256", x.Content(p.St, as[0])))
			}
		}
		c.Done(x, ps)
	}
	// ids
	c.hashOf("consensus", "BlockHeader", "Hash", func(x *eng.Exec, st *State, m *T, t types.Type) *T {
		rb := &refBuilder{x: x, st: st}
		pt := eng.FieldType(t, "POW")
		return rb.at(eng.FieldAddr(m, t, "POW"), pt, "bits Nonces")
	}, "the packed nonces of its proof")
	c.hashOf("consensus", "Block", "Hash", func(x *eng.Exec, st *State, m *T, t types.Type) *T {
		rb := &refBuilder{x: x, st: st}
		ht := eng.FieldType(t, "Header")
		pt := eng.FieldType(ht, "POW")
		return rb.at(eng.FieldAddr(eng.FieldAddr(m, t, "Header"), ht, "POW"), pt, "bits Nonces")
	}, "the packed nonces of its proof")
	c.hashOf("consensus", "Proof", "Hash", func(x *eng.Exec, st *State, m *T, t types.Type) *T {
		rb := &refBuilder{x: x, st: st}
		return rb.at(m, t, layouts["consensus.Proof"])
	}, "edge bits and packed nonces")
}

// keyedBy: the four key words are the little-endian words of h.
func (c *Ctx) keyedBy(what string, p Path, obj, h *T) {
	var words []*T
	var collect func(t *T)
	collect = func(t *T) {
		if t.Op == "arr" && len(t.A) == 4 {
			words = t.A
			return
		}
		for _, a := range t.A {
			if words == nil {
				collect(a)
			}
		}
	}
	collect(obj)
	if !c.Must(len(words) == 4, "keys", what, p.Pos, "the graph in %s has no four key words: %v", what, obj) {
		return
	}
	for i := int64(0); i < 4; i++ {
		want := eng.Num("64le", eng.SubBytes(h, eng.Int(8*i), eng.Int(8*i+8)), nil)
		c.Must(sameUnder(p.St, words[i], want, 3), "keys", fmt.Sprintf("%s word %d", what, i), p.Pos, "word %d of the key in %s is %v, not the little-endian word %d of the hash of everything that precedes the proof (%v)", i, what, words[i], i, want)
	}
}

func (c *Ctx) hashOf(pkg, typ, method string, content func(*eng.Exec, *State, *T, types.Type) *T, what string) {
	f := c.Method(pkg, typ, method)
	t := c.Named(pkg, typ)
	if f == nil || t == nil {
		return
	}
	x := c.Exec(eng.Config{})
	m := eng.SymT("m"+typ, types.NewPointer(t))
	args := []*T{m}
	if _, isP := f.Signature.Recv().Type().Underlying().(*types.Pointer); !isP {
		args[0] = x.Load(x.Start(), m, t)
	}
	ps := x.Run(f, args)
	n := 0
	for _, p := range ps {
		if p.End != "return" {
			continue
		}
		n++
		want := eng.Mk("call", "blake2b.Sum256", content(x, p.St, m, t))
		got := x.Content(p.St, p.Res[0])
		c.Must(sameUnder(p.St, got, want, 3), "id", typ+"."+method, p.Pos, "%s.%s is %v, not the hash of %s", typ, method, got, what)
	}
	c.Must(n > 0, "id", typ+"."+method, f.Pos(), "%s.%s never returns", typ, method)
	c.Done(x, ps)
}

// ---- V13: kernel signatures ----

func runV13(c *Ctx) {
	wellFormed()
	f := c.Method("consensus", "TxKernel", "Validate")
	t := c.Named("consensus", "TxKernel")
	if f == nil || t == nil {
		return
	}
	x := c.Exec(eng.Config{Opaque: opaque("secp256k1zkp.VerifySignature", "secp256k1zkp.DecodeSignature")})
	m := eng.SymT("kernel", types.NewPointer(t))
	args := []*T{m}
	if _, isP := f.Signature.Recv().Type().Underlying().(*types.Pointer); !isP {
		args[0] = x.Load(x.Start(), m, t)
	}
	ps := x.Run(f, args)
	okN, badN := 0, 0
	for _, p := range splitAll(ps) {
		if !c.Must(p.End == "return" && (retNil(p) || retErr(p)), "decided", "kernel validation", p.Pos, "kernel validation ends in %s with %v", p.End, p.Res) {
			continue
		}
		field := func(n string) *T {
			ft := eng.FieldType(t, n)
			return x.Load(p.St, eng.FieldAddr(m, t, n), ft)
		}
		cl := clause{name: "a valid signature"}
		why := "the signature was not verified"
		for _, e := range p.St.Events() {
			if e.Kind != "call" || e.Name != "secp256k1zkp.VerifySignature" || len(e.Res) != 1 {
				continue
			}
			why = ""
			ex := field("Excess")
			if tt, ok := derefOf(ex); ok {
				ex = x.Load(p.St, ex, tt)
			}
			pk := e.Args[0]
			if tt, ok := derefOf(pk); ok {
				pk = x.Load(p.St, pk, tt)
			}
			if !same(p.St, x.DeepVal(p.St, pk, nil), x.DeepVal(p.St, ex, nil)) {
				why = fmt.Sprintf("the public key is %v, not the kernel's excess", e.Args[0])
			}
			msg := e.Args[1]
			if bt, ok := derefOf(msg); ok {
				msg = x.Load(p.St, msg, bt)
			}
			want := eng.Cat(eng.Zeros(eng.Int(16)), eng.U("64be", field("Fee")), eng.U("64be", field("LockHeight")))
			if why == "" && !same(p.St, msg, want) {
				why = fmt.Sprintf("the signed message is %v, not 16 zero bytes, fee and lock height", msg)
			}
			sig := e.Args[2]
			src := ""
			for _, d := range p.St.Events() {
				if d.Kind == "call" && d.Name == "secp256k1zkp.DecodeSignature" && len(d.Res) == 1 && d.Res[0] == sig {
					src = "ok"
					if a := x.Load(p.St, eng.FieldAddr(m, t, "ExcessSig"), eng.FieldType(t, "ExcessSig")); !same(p.St, d.Args[0], a) {
						src = fmt.Sprintf("the signature is decoded from %v, not from the kernel's own signature", d.Args[0])
					}
				}
			}
			if why == "" && src != "ok" {
				why = src
				if src == "" {
					why = fmt.Sprintf("the signature %v is not the decoded signature of the kernel", sig)
				}
			}
			if why == "" {
				cl.alt = append(cl.alt, eng.CondOf(e.Res[0]))
			}
		}
		if retNil(p) {
			okN++
			if len(cl.alt) == 0 {
				c.Fail("accepts-only", "a kernel", p.Pos, "a kernel is accepted although %s", why)
				continue
			}
		} else {
			badN++
			if why != "" {
				c.Fail("refuses-only", "a kernel", p.Pos, "a kernel is refused although %s", why)
				continue
			}
		}
		c.exactly("a kernel", p, retNil(p), []clause{cl})
	}
	c.Must(okN > 0 && badN > 0, "instances", "kernel validation", f.Pos(), "%d accepting, %d refusing paths", okN, badN)
	c.Done(x, ps)
	// the message itself: fee and lock height in positions that do not overlap
	if g := c.Func("secp256k1zkp", "ComputeMessage"); g != nil {
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(g)
		for _, p := range x.Run(g, as) {
			want := eng.Cat(eng.Zeros(eng.Int(16)), eng.U("64be", as[0]), eng.U("64be", as[1]))
			c.Must(p.End == "return" && same(p.St, p.Res[0], want), "message", "ComputeMessage", p.Pos, "the signed message is %v", p.Res)
		}
		c.Done(x, nil)
	}
	c.Sample("TxKernel.Validate: %d accepting, %d refusing paths", okN, badN)
}

func init() {
	register("V02", "exact accept/refuse conditions over all paths (abstract interpretation over SSA with interval and linear facts)",
		"BlockHeader.Validate is interpreted on an arbitrary header at an arbitrary time with the cycle verification as an unknown predicate; each accepting path must entail every requirement, each refusing path must contradict one.", runV02,
		"time.Now is the current time; V04 decides what the cycle verification accepts")
	register("V03", "exact accept/refuse conditions by height interval (abstract interpretation over SSA)",
		"The paths of header validation and of ValidateBlockVersion are split by the four height intervals of the schedule; accepted versions must be exactly those of the schedule, at both ends of every interval.", runV03)
	register("V06", "value-flow analysis from header fields to the graph key and from the proof to ids (abstract interpretation over SSA, comparison with the reference layout)",
		"On every accepting path of header validation the graph that was verified must be keyed by the four little-endian words of the BLAKE2b hash of exactly the header fields before the proof; ids must be the hash of the packed nonces, the proof hash that of edge bits and nonces.", runV06,
		"blake2b.Sum256 is a cryptographic hash")
	register("V13", "value-flow analysis of signature verification arguments and exact accept/refuse conditions (abstract interpretation over SSA)",
		"Every path of kernel validation: success exactly if VerifySignature holds for the kernel's own excess, own decoded signature and the message made of 16 zero bytes, its fee and its lock height.", runV13,
		"K01 decides what VerifySignature accepts")
}
