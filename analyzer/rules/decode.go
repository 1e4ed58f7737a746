package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"verif/analyzer/eng"
)

// walk visits the events of a path and, for loops, those of every way through
// the body; in says in which loop transition an event lies.
func walk(evs []*Ev, in *eng.Trans, f func(e *Ev, in *eng.Trans)) {
	for _, e := range evs {
		f(e, in)
		if e.Rec != nil {
			for _, t := range e.Rec.Trans {
				walk(t.Events, t, f)
			}
		}
	}
}

// litsDeep visits the literals of a path and of the loop transitions on it.
func litsDeep(st *State, f func(c Cond)) {
	for _, l := range st.Lits() {
		f(l)
	}
	walk(st.Events(), nil, func(e *Ev, _ *eng.Trans) {
		if e.Rec != nil {
			for _, t := range e.Rec.Trans {
				for _, l := range t.Lits {
					f(l)
				}
			}
		}
	})
}

func isErrTerm(t *T, kinds ...string) bool {
	if t.Op != "res" {
		return false
	}
	for _, k := range kinds {
		if strings.HasPrefix(t.S, k+".err#") {
			return true
		}
	}
	return false
}

// failedRead: the literal says that a read (or the decoding of what was
// read) failed.
func failedRead(l Cond) bool {
	return !l.Pos && l.T.Op == "isnil" && isErrTerm(l.T.A[0], "read", "decode")
}

func runC03(c *Ctx) {
	cds := c.codecs()
	reads := 0
	for _, cd := range cds {
		x := c.Exec(eng.Config{})
		ps := x.Run(cd.read, nil)
		n := 0
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			if retErr(p) {
				continue
			}
			if !c.Must(retNil(p), "result-decided", cd.name, p.Pos, "%s.Read returns %v, which is neither certainly nil nor certainly an error, when %s", cd.name, p.Res, lits(p.St)) {
				continue
			}
			n++
			bad := ""
			litsDeep(p.St, func(l Cond) {
				if failedRead(l) {
					bad = l.String()
				}
			})
			walk(p.St.Events(), nil, func(e *Ev, _ *eng.Trans) {
				if e.Kind != "read" {
					return
				}
				reads++
				if e.Name == "partial" {
					bad = fmt.Sprintf("a single Read at %s, which may return fewer bytes without an error", c.P.Pos(e.Pos))
				}
				if len(e.Res) == 2 && e.Res[1] != eng.Nil {
					bad = fmt.Sprintf("the read at %s failed", c.P.Pos(e.Pos))
				}
			})
			c.Must(bad == "", "success-implies-read", cd.name, p.Pos, "%s.Read reports success although %s", cd.name, bad)
			// nothing undefined is left in the message
			und := ""
			for _, v := range x.Values(p.St) {
				if v.Any(func(t *T) bool { return t.Op == "partial" || t.Op == "broken" }) {
					und = v.String()
				}
			}
			c.Must(und == "", "complete-fields", cd.name, p.Pos, "%s.Read succeeds with incompletely read data %s", cd.name, und)
		}
		c.Must(n > 0, "accepting-path", cd.name, cd.read.Pos(), "%s.Read never succeeds", cd.name)
		c.Sample("%s.Read: %d paths, %d accepting", cd.name, len(ps), n)
		c.Done(x, ps)
	}
	c.Floor("decoders", len(cds), 20)
	c.Floor("reads on accepting paths", reads, 60)
}

// quantity is an announced amount and the interval in which it is accepted.
type quantity struct {
	owner, field string
	len          bool
	lo, hi       int64
}

var quantities = []quantity{
	{"consensus.Locator", "Hashes", true, 0, 14},
	{"p2p.BlockHeaders", "Headers", true, 0, 512},
	{"p2p.PeerAddrs", "*", true, 0, 256},
	{"consensus.Block", "Inputs", true, 0, 1000000},
	{"consensus.Block", "Outputs", true, 0, 1000000},
	{"consensus.Block", "Kernels", true, 0, 1000000},
	{"consensus.Transaction", "Inputs", true, 0, 1000000},
	{"consensus.Transaction", "Outputs", true, 0, 1000000},
	{"consensus.Transaction", "Kernels", true, 0, 1000000},
	{"consensus.CompactBlock", "KernelIDs", true, 0, 1000000},
	{"consensus.Proof", "EdgeBits", false, 1, 64},
	{"p2p.PeerError", "Message", true, 0, 20000000},
	{"*", "UserAgent", true, 0, 20000000},
}

// quantOf: t is such an amount.
func quantOf(t *T) *quantity {
	a, isLen := t, false
	if t.Op == "len" {
		a, isLen = t.A[0], true
	}
	if a.Op != "ld" {
		return nil
	}
	o, f := eng.Owner(a)
	for i := range quantities {
		q := &quantities[i]
		if q.len == isLen && (q.owner == o || (q.owner == "*" && o != "")) && (q.field == f || q.field == "*") {
			return q
		}
	}
	return nil
}

func (q *quantity) String() string {
	s := q.owner + "." + q.field
	if q.len {
		s = "number of " + s
	}
	return fmt.Sprintf("%s (%d..%d)", s, q.lo, q.hi)
}

// rawMessages: nothing is assumed about the announced amounts.
func rawMessages() {
	eng.RangeHook = func(t *T) (eng.Ival, bool) {
		if t.Op == "ld" {
			if o, f := eng.Owner(t); o == "net.TCPAddr" && f == "Port" {
				return eng.Ival{Lo: big.NewInt(0), Hi: big.NewInt(65535)}, true
			}
		}
		if t.Op == "len" {
			// what the width of the count can announce
			o, f := eng.Owner(t.A[0])
			hi := int64(0)
			switch {
			case o == "consensus.CompactBlock" && (f == "Outputs" || f == "Kernels"):
				hi = 255
			case o == "consensus.Locator" && f == "Hashes":
				hi = 255
			case o == "p2p.BlockHeaders":
				hi = 65535
			case o == "p2p.PeerAddrs":
				hi = 1<<32 - 1
			}
			if hi > 0 {
				return eng.Ival{Lo: big.NewInt(0), Hi: big.NewInt(hi)}, true
			}
		}
		return eng.Ival{}, false
	}
}

func within(r eng.Ival, lo, hi int64) bool { return r.Within(lo, hi) }

func outside(r eng.Ival, lo, hi int64) bool {
	return (r.Lo != nil && r.Lo.Cmp(big.NewInt(hi)) > 0) || (r.Hi != nil && r.Hi.Cmp(big.NewInt(lo)) < 0)
}

func runC04(c *Ctx) {
	cds := c.codecs()
	// A: whatever the input, allocations and loops are bounded
	allocs, loops := 0, 0
	eng.LenHook, eng.RangeHook = nil, nil
	for _, cd := range cds {
		x := c.Exec(eng.Config{OnEvent: func(st *State, e *Ev) {
			switch e.Kind {
			case "alloc":
				for _, n := range e.Args {
					if _, isC := n.Int64(); isC {
						continue
					}
					allocs++
					r := st.Facts().Range(n)
					c.Must(within(r, 0, maxMsg), "bounded-alloc", cd.name+" "+eng.FuncName(e.Fn), e.Pos, "%s is allocated while decoding %s before it is bounded (between %v and %v)", n, cd.name, r.Lo, r.Hi)
				}
			}
		}})
		ps := x.Run(cd.read, nil)
		for _, l := range x.Loops {
			loops++
			c.boundedLoop(cd, l)
		}
		c.Done(x, ps)
	}
	c.Floor("allocations of announced size", allocs, 6)
	c.Floor("loops in decoders", loops, 8)
	// B: exactly the amounts within the limits are accepted
	wellFormed()
	rawMessages()
	defer wellFormed()
	ipLen = 16
	seen := map[*quantity]bool{}
	for _, cd := range cds {
		l, ok := layoutOf(cd)
		if !ok {
			c.Fail("layout-known", cd.name, cd.read.Pos(), "no reference layout for %s", cd.name)
			continue
		}
		x := c.Exec(eng.Config{})
		m := eng.SymT(cd.typ.Obj().Name(), types.NewPointer(cd.typ))
		st := x.Start()
		r := &refBuilder{x: x, st: st}
		ref := r.at(m, cd.typ, l)
		if !c.Must(r.err == "", "layout", cd.name, cd.read.Pos(), "%s: %s", cd.name, r.err) {
			continue
		}
		c.assumeValid(x, st, m, cd)
		var qs []*T
		ref.Any(func(t *T) bool {
			if quantOf(t) != nil && !boundIn(t) {
				qs = append(qs, t)
			}
			return false
		})
		rd := eng.SymT("r", cd.read.Signature.Params().At(0).Type())
		x.SetRest(st, rd, ref)
		d := eng.NewObject("decoded", cd.typ)
		ps := x.RunIn(cd.read, []*T{d, rd}, st)
		okN := 0
		for _, p := range ps {
			f := p.St.Facts()
			switch {
			case p.End == "return" && retNil(p):
				okN++
				for _, q := range qs {
					qq := quantOf(q)
					seen[qq] = true
					rg := f.Range(q)
					if !c.Must(within(rg, qq.lo, qq.hi), "refuses-beyond", cd.name+" "+qq.String(), p.Pos, "decoding %s accepts %v between %v and %v, the limit is %s", cd.name, q, rg.Lo, rg.Hi, qq) {
						continue
					}
				}
			case p.End == "return" && retErr(p):
				c.refusal(cd, p, qs, ref)
			default:
				c.Fail("refuses-beyond", cd.name+" "+p.End, p.Pos, "decoding %s ends in %s when %s", cd.name, p.End, lits(p.St))
			}
		}
		c.Must(okN > 0, "accepting-path", cd.name, cd.read.Pos(), "%s is never accepted", cd.name)
		// values at the limits are accepted
		for _, q := range qs {
			qq := quantOf(q)
			for _, v := range []int64{qq.lo, qq.hi} {
				acc := false
				for _, p := range ps {
					if p.End == "return" && retNil(p) {
						s := p.St.Fork()
						acc = acc || s.Assume(eng.EqInt(q, eng.Int(v)))
					}
				}
				c.Must(acc, "accepts-limit", fmt.Sprintf("%s %s %d", cd.name, qq, v), cd.read.Pos(), "%s with %v = %d is refused", cd.name, q, v)
			}
		}
		c.Sample("%s: %d amounts, %d paths", cd.name, len(qs), len(ps))
		c.Done(x, ps)
	}
	for i := range quantities {
		q := &quantities[i]
		c.Must(seen[q], "amount-checked", q.String(), 0, "the amount %s was not found in any message", q)
	}
	c.rangeProofLength()
}

// refusal: a decoder that refuses complete input does so because an amount is
// outside its interval (or for one of the reasons of other properties).
func (c *Ctx) refusal(cd *codec, p Path, qs []*T, ref *T) {
	f := p.St.Facts()
	for _, q := range qs {
		qq := quantOf(q)
		if outside(f.Range(q), qq.lo, qq.hi) {
			c.Obl++
			c.Disch++
			return
		}
	}
	for _, l := range p.St.Lits() {
		// an element of a list
		ok := false
		l.T.Any(func(t *T) bool {
			if qq := quantOf(t); qq != nil && outside(f.Range(t), qq.lo, qq.hi) {
				ok = true
			}
			return false
		})
		if l.T.Op == "issorted" && !l.Pos {
			ok = true // V07
		}
		if l.T.Op == "isnil" && !l.Pos && isErrTerm(l.T.A[0], "decode") {
			ok = true // an invalid point or range proof
		}
		if ok {
			c.Obl++
			c.Disch++
			return
		}
	}
	c.Fail("refuses-only-beyond", cd.name, p.Pos, "the decoder of %s returns %v although every announced amount is within its limit: %s", cd.name, p.Res[0], lits(p.St))
}

// boundedLoop: the number of iterations is bounded by the announced limits.
func (c *Ctx) boundedLoop(cd *codec, l *eng.Loop) {
	ok := len(l.Trans) == 0
	for _, t := range l.Trans {
		r := t.St.Facts().Range(l.K)
		ok = r.Hi != nil && r.Hi.Cmp(big.NewInt(maxMsg)) <= 0
		if !ok {
			break
		}
	}
	if !ok && len(l.Trans) > 0 {
		r := l.Trans[0].St.Facts().Range(l.K)
		c.Fail("bounded-loop", cd.name+" "+eng.FuncName(l.Fn), l.Pos, "a loop while decoding %s runs an announced number of times that is not bounded first (up to %v)", cd.name, r.Hi)
		return
	}
	c.Obl++
	c.Disch++
	c.RulesN["bounded-loop"]++
}

// rangeProofLength: an output is accepted only if the announced length of the
// range proof is that of a range proof, and at most 5134.
func (c *Ctx) rangeProofLength() {
	eng.LenHook, eng.RangeHook = nil, nil
	rd := c.Method("consensus", "Output", "Read")
	if rd == nil {
		return
	}
	x := c.Exec(eng.Config{})
	m := eng.SymT("Output", types.NewPointer(c.Named("consensus", "Output")))
	r := eng.SymT("r", rd.Signature.Params().At(0).Type())
	ps := x.Run(rd, []*T{m, r})
	n := eng.Num("64be", eng.SubBytes(eng.Mk("stream", "", r), eng.Int(34), eng.Int(42)), types.Typ[types.Uint64])
	okN := 0
	for _, p := range ps {
		if p.End != "return" {
			continue
		}
		f := p.St.Facts()
		if retNil(p) {
			okN++
			rg := f.Range(n)
			c.Must(within(rg, 675, 675), "range-proof-length", "Output accepts", p.Pos, "an output is accepted with a range proof announced as %v..%v bytes; it is 675 bytes long", rg.Lo, rg.Hi)
			continue
		}
		ok := outside(f.Range(n), 0, 5134) || f.Eval(eng.EqInt(n, eng.Int(675))) == 0
		for _, l := range p.St.Lits() {
			ok = ok || failedRead(l)
		}
		c.Must(ok, "range-proof-length", "Output refuses", p.Pos, "an output with a range proof of 675 bytes is refused: %s", lits(p.St))
	}
	c.Must(okN > 0, "range-proof-length", "Output", rd.Pos(), "no output is ever accepted")
	// the limit itself
	k := c.P.Const("consensus", "MaxProofSize")
	if k != nil {
		c.Must(k == eng.Int(5134), "range-proof-length", "MaxProofSize", rd.Pos(), "the largest range proof is %v, the protocol's is 5134", k)
	}
	x2 := 0
	xx := c.Exec(eng.Config{OnEvent: func(st *State, e *Ev) {
		if e.Kind == "alloc" {
			for _, a := range e.Args {
				if _, isC := a.Int64(); !isC {
					x2++
					c.Must(within(st.Facts().Range(a), 0, 5134), "range-proof-length", "alloc", e.Pos, "%v bytes are allocated for a range proof before the limit of 5134 is applied", a)
				}
			}
		}
	}})
	c.Done(xx, xx.Run(rd, []*T{m, r}))
}

func init() {
	register("C03", "path-sensitive dataflow of read errors through every decoder (abstract interpretation over SSA, loops summarised)",
		"Every decoder is interpreted on an arbitrary stream in which each read can fail; a path (or a way round a loop) on which some read failed must return an error, single partial reads are not accepted, and no incompletely read data may remain in the message on success.", runC03,
		"io.ReadFull and binary.Read return an error unless they read everything")
	register("C04", "interval analysis of announced amounts over all decoder paths, and exact accept/refuse conditions on the reference layout (abstract interpretation over SSA)",
		"On arbitrary input every allocation size and loop count in a decoder must be bounded by the path condition in force when it is used; on the reference layout with arbitrary amounts, accepting paths must bound every amount by exactly its limit and refusing paths must have some amount outside its interval.", runC04,
		"announced 64-bit amounts are compared as unsigned numbers")
}
