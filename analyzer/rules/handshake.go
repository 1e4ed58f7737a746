package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// Codes of the two messages of a handshake and sizes of their fixed parts.
const (
	codeHello, codeReply = 1, 2
	ownVersion           = 1
)

// half is one function that makes a connection: a path and what is known of
// its handshake.
type half struct {
	x    *eng.Exec
	f    *ssa.Function
	p    Path
	es   []*Ev
	conn *T
	out  *T // what was written to conn
	sent bool
	body *T    // body of the message written
	kind int64 // its code
}

// halves interprets every function that returns a connection.
func (c *Ctx) halves(use func(h *half)) {
	pt := c.Named("p2p", "Peer")
	if pt == nil {
		return
	}
	for _, f := range c.P.Funcs {
		res := f.Signature.Results()
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "p2p" || !token.IsExported(f.Name()) || f.Parent() != nil || res.Len() != 2 || typeName(res.At(0).Type()) != "*p2p.Peer" {
			continue
		}
		x := c.Exec(eng.Config{})
		ps := x.Run(f, eng.ParamSyms(f))
		for _, p := range splitAll(ps) {
			h := &half{x: x, f: f, p: p, es: p.St.Events()}
			h.conn = connOf(h.es)
			if h.conn != nil {
				h.look()
			}
			use(h)
		}
		c.Done(x, ps)
	}
}

// connOf is the connection that the events read and write.
func connOf(es []*Ev) *T {
	for _, e := range allEvents(es) {
		if e.Kind != "write" && e.Kind != "read" || len(e.Args) == 0 {
			continue
		}
		v, tn := inner(e.Args[0])
		if v.Op == "bufwr" || v.Op == "bufrd" {
			v, tn = inner(v.A[0])
		}
		if v.Op == "al" || tn == "*bytes.Buffer" {
			continue
		}
		return v
	}
	return nil
}

func (h *half) look() {
	out, clean := written(h.conn, h.es)
	fs := h.p.St.Facts()
	// parts whose length the path has established
	var parts []*T
	for _, p := range eng.CatParts(out) {
		if _, ok := eng.ByteLen(p).Int64(); !ok {
			if r := fs.Range(eng.ByteLen(p)); r.Lo != nil && r.Hi != nil && r.Lo.Cmp(r.Hi) == 0 && r.Lo.IsInt64() {
				p = eng.SubBytes(p, eng.Zero, eng.Int(r.Lo.Int64()))
			}
		}
		parts = append(parts, p)
	}
	out = eng.Cat(parts...)
	h.out = out
	if fs.Eval(eng.Le(eng.Int(headerLen), eng.Len(out))) != 1 {
		return
	}
	k, ok := eng.Simp(fs, eng.Num("8", eng.SubBytes(out, eng.Int(2), eng.Int(3)), types.Typ[types.Uint8])).Int64()
	if !ok || !clean {
		return
	}
	h.kind = k
	n := eng.Num("64be", eng.SubBytes(out, eng.Int(3), eng.Int(headerLen)), types.Typ[types.Uint64])
	if fs.Eval(eng.EqInt(eng.AddN(n, headerLen), eng.Len(out))) != 1 {
		return
	}
	h.sent = true
	h.body = eng.Simp(fs, eng.SubBytes(out, eng.Int(headerLen), eng.Len(out)))
}

func (h *half) num(w string, b *T, at *T, n int64) *T {
	return eng.Simp(h.p.St.Facts(), eng.Num(w, eng.SubBytes(b, at, eng.AddN(at, n)), types.Typ[types.Uint64]))
}

// announced is the version and genesis in the hello or reply that starts at
// position at of b, and the agent.
func (h *half) announced(b *T, at int64, hello bool) (version, genesis, agentLen, agent, end *T) {
	version = h.num("32be", b, eng.Int(at), 4)
	p := eng.Int(at + 16)
	if hello {
		p = eng.Int(at + 24)
		fs := h.p.St.Facts()
		for i := 0; i < 2; i++ {
			flag := eng.ByteAt(b, p)
			switch {
			case fs.Eval(eng.EqInt(flag, eng.Zero)) == 1:
				p = eng.AddN(p, 7)
			case fs.Eval(eng.EqInt(flag, eng.Int(1))) == 1:
				p = eng.AddN(p, 19)
			default:
				return version, nil, nil, nil, nil
			}
		}
	}
	agentLen = h.num("64be", b, p, 8)
	a := eng.AddN(p, 8)
	g := eng.Add(a, agentLen)
	end = eng.AddN(g, 32)
	return version, eng.SubBytes(b, g, end), agentLen, eng.SubBytes(b, a, g), end
}

// knownAs: the path has established that the bytes b are those of own.
func (h *half) knownAs(b, own *T) bool {
	fs := h.p.St.Facts()
	for _, l := range h.p.St.Lits() {
		ok := l.T.Any(func(u *T) bool {
			return u.Op == own.Op && alphaEq(u, own) && fs.Eval(eng.EqBytes("", b, u)) == 1
		})
		if ok {
			return true
		}
	}
	return false
}

func (h *half) name() string { return eng.FuncName(h.f) }

func runN01(c *Ctx) {
	var own, agent, caps *T
	type success struct{ h *half }
	var wins []*half
	sent := map[int64]int{}
	c.halves(func(h *half) {
		p := h.p
		if p.End != "return" {
			return
		}
		if !c.Must(len(p.Res) == 2, "anchor", h.name(), p.Pos, "%s does not return a connection and an error", h.name()) {
			return
		}
		if retErr(p) {
			c.Must(p.Res[0] == eng.Nil, "refused", h.name()+" failed", p.Pos, "%s returns a connection together with an error (%s)", h.name(), lits(p.St))
		} else {
			wins = append(wins, h)
		}
		if !h.sent {
			return
		}
		// what we announce
		what := map[int64]string{codeHello: "hello", codeReply: "reply"}[h.kind]
		if !c.Must(what != "", "announced", h.name()+" message", p.Pos, "%s sends message %d in a handshake", h.name(), h.kind) {
			return
		}
		sent[h.kind]++
		v, g, n, a, end := h.announced(h.body, 0, h.kind == codeHello)
		k, ok := v.Int64()
		c.Must(ok && k == ownVersion, "announced", h.name()+" version", p.Pos, "the %s announces protocol version %v", what, v)
		cp := h.num("32be", h.body, eng.Int(4), 4)
		if caps == nil {
			caps = cp
		}
		k, ok = cp.Int64()
		c.Must(ok && k != 0 && cp == caps, "announced", h.name()+" capabilities", p.Pos, "the %s announces the capabilities %v (elsewhere %v)", what, cp, caps)
		if !c.Must(g != nil, "announced", h.name()+" layout", p.Pos, "the %s is not laid out as a %s", what, what) {
			return
		}
		fs := p.St.Facts()
		c.Must(fs.Eval(eng.EqInt(end, eng.Len(h.body))) == 1, "announced", h.name()+" end", p.Pos, "the %s does not end with the genesis hash", what)
		if agent == nil {
			agent = a
		}
		k, ok = n.Int64()
		c.Must(ok && k > 0 && a == agent && a.Op == "str", "announced", h.name()+" agent", p.Pos, "the %s carries the agent %v (elsewhere %v)", what, a, agent)
		if own == nil {
			own = g
		}
		c.Must(alphaEq(g, own) && hashOfConst(g), "announced", h.name()+" genesis", p.Pos, "the %s carries the genesis %v (elsewhere %v)", what, cut(g), cut(own))
	})
	// what they must have announced
	made := 0
	for _, h := range wins {
		made++
		p := h.p
		name := h.name()
		if !c.Must(h.conn != nil && h.sent, "shaken", name, p.Pos, "%s returns a connection without having announced ourselves: %s", name, lits(p.St)) {
			continue
		}
		want := int64(codeReply)
		if h.kind == codeReply {
			want = codeHello
		}
		in := eng.Stream(h.conn)
		fs := p.St.Facts()
		c.Must(fs.Eval(eng.EqInt(eng.ByteAt(in, eng.Int(2)), eng.Int(want))) == 1, "answered", name, p.Pos, "%s returns a connection although the other side has not sent message %d", name, want)
		v, g, _, _, _ := h.announced(in, headerLen, want == codeHello)
		c.Must(fs.Eval(eng.EqInt(v, eng.Int(ownVersion))) == 1, "same-version", name, p.Pos, "%s returns a connection without having checked that the other side announced version %d: %s", name, ownVersion, lits(p.St))
		c.Must(g != nil && own != nil && h.knownAs(g, own), "same-genesis", name, p.Pos, "%s returns a connection without having checked that the other side announced our genesis: %s", name, lits(p.St))
		if a, t := c.peerField(p.Res[0], "net.Conn"); a != nil {
			v, _ := inner(h.x.Load(p.St, a, t))
			c.Must(v == h.conn, "same-connection", name, p.Pos, "%s shook hands over %v but returns a connection that uses %v", name, h.conn, v)
		}
	}
	c.Floor("ways to succeed", made, 1)
	c.Floor("hellos", sent[codeHello], 1)
	c.Cover["replies"] = sent[codeReply]
	c.connectedOnes()
	if own != nil {
		c.ownChain(own)
	}
}

func cut(t *T) string {
	s := strings.ReplaceAll(t.String(), "\\x00", "")
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// hashOfConst: the hash of something that is built in.
func hashOfConst(t *T) bool {
	return t.Op == "call" && strings.HasPrefix(t.S, "blake2b.Sum256") && !t.Any(func(u *T) bool {
		return u.Op == "ld" && !strings.HasPrefix(eng.Root(u.A[0]).String(), "al:") || u.Op == "sym" && !strings.HasPrefix(u.S, "j!") || u.Op == "res"
	})
}

// connectedOnes: what the pool starts was returned by a function checked here,
// and connections come from nowhere else.
func (c *Ctx) connectedOnes() {
	pt := c.Named("p2p", "Peer")
	g := c.callGraph()
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), pt) {
					continue
				}
				n++
				// every way out of the function that builds it is through
				// one of the functions above
				ok = c.onlyVia(g, outermost(f), map[*ssa.Function]bool{})
				c.Must(ok, "built", eng.FuncName(f), a.Pos(), "%s builds a connection and can be used without a handshake", eng.FuncName(f))
			}
		}
	}
	c.Floor("places that build a connection", n, 1)
}

func (c *Ctx) onlyVia(g *callGraph, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	res := f.Signature.Results()
	if token.IsExported(f.Name()) && f.Parent() == nil && res.Len() == 2 && typeName(res.At(0).Type()) == "*p2p.Peer" {
		return true
	}
	if token.IsExported(f.Name()) || len(g.in[f]) == 0 {
		return false
	}
	for _, e := range g.in[f] {
		if !c.onlyVia(g, outermost(e.from), seen) {
			return false
		}
	}
	return true
}

// ownChain: the genesis that is announced is the one of the chain the node
// keeps.
func (c *Ctx) ownChain(own *T) {
	hash := c.Method("consensus", "Block", "Hash")
	mk := c.Func("chain", "New")
	if hash == nil || mk == nil {
		return
	}
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || f.Name() != "main" {
			continue
		}
		x := c.Exec(eng.Config{Opaque: func(f *ssa.Function, _ []*T) bool {
			return f == mk || f.Pkg != nil && f.Pkg.Pkg.Name() == "p2p"
		}})
		ps := x.Run(f, eng.ParamSyms(f))
		for _, p := range ps {
			for _, e := range p.St.Events() {
				if e.Kind != "call" || e.Name != "chain.New" || len(e.Args) == 0 {
					continue
				}
				n++
				y := c.Exec(eng.Config{})
				for _, q := range y.RunIn(hash, []*T{e.Args[0]}, p.St.Fork()) {
					if q.End != "return" || len(q.Res) != 1 {
						continue
					}
					got := y.Content(q.St, q.Res[0])
					c.Must(alphaEq(got, own), "own-chain", eng.FuncName(f), e.Pos, "the node keeps the chain of %v but announces another genesis", e.Args[0])
				}
			}
		}
		c.Done(x, ps)
	}
	c.Floor("nodes that keep a chain", n, 1)
}

// ---- N02 ----

func runN02(c *Ctx) {
	var list *T // address of the nonce list
	hellos, replies := 0, 0
	var accept []*half
	c.halves(func(h *half) {
		if h.out == nil || h.out == eng.Cat() {
			return
		}
		switch h.kind {
		case codeHello:
			if !h.sent {
				return
			}
			hellos++
			v := h.num("64be", h.body, eng.Int(8), 8)
			v = eng.Unversioned(v)
			ok := v.Op == "ld" && v.A[0].Op == "ia" && v.A[0].A[0].Op == "ld"
			var l *T
			if ok {
				l = eng.Unversioned(v.A[0].A[0])
			}
			if c.Must(ok && (list == nil || l == list), "own-nonce", h.name(), h.p.Pos, "a hello carries the nonce %v, which is not taken from the list of our nonces", v) {
				list = l
			}
		default:
			accept = append(accept, h)
		}
	})
	if !c.Must(list != nil, "own-nonce", "list", token.NoPos, "no hello carries a nonce from a list") {
		return
	}
	size := c.nonceList(list)
	for _, h := range accept {
		replies++
		got := eng.Num("64be", eng.SubBytes(eng.Stream(h.conn), eng.Int(19), eng.Int(27)), types.Typ[types.Uint64])
		first := len(h.es)
		for i, e := range h.es {
			if e.Kind == "write" && e.Args[0].Mentions(h.conn) {
				first = i
				break
			}
		}
		fs := h.p.St.Facts()
		ok := false
		for _, e := range h.es[:first] {
			if e.Kind != "loop" || e.Rec == nil || len(e.Args) < 2 {
				continue
			}
			l := e.Rec
			n := e.Args[1]
			k, isConst := n.Int64()
			if !(isConst && size > 0 && k >= size) {
				whole := false
				n.Any(func(u *T) bool { return u == eng.Len(list) })
				for _, ln := range []*T{eng.Len(list), lenLike(n, list)} {
					whole = whole || ln != nil && fs.Eval(eng.EqInt(n, ln)) == 1
				}
				if !whole {
					continue
				}
			}
			live, _ := passed(h.p, e)
			for _, i := range []*T{l.K, eng.AddN(eng.Sub(n, l.K), -1)} {
				all := len(live) > 0
				for _, t := range live {
					all = all && refusesNonce(t, got, list, i)
				}
				ok = ok || all
			}
		}
		c.Must(ok, "own-refused", h.name(), h.p.Pos, "a reply is sent without having compared the nonce in the hello with all of our own: %s", lits(h.p.St))
	}
	c.Floor("hellos", hellos, 1)
	c.Cover["replies"] = replies
}

// lenLike is the length of (a version of) list that n speaks of.
func lenLike(n, list *T) *T {
	var r *T
	n.Any(func(u *T) bool {
		if u.Op == "ld" && eng.Unversioned(u) == list {
			r = eng.Len(u)
		}
		return r != nil
	})
	return r
}

// refusesNonce: an iteration that goes on knows that element i of list is not
// the nonce.
func refusesNonce(t *eng.Trans, nonce, list, i *T) bool {
	for _, c := range t.Lits {
		var el *T
		c.T.Any(func(u *T) bool {
			if u.Op == "ld" && u.A[0].Op == "ia" && eng.Unversioned(u.A[0].A[0]) == list && u.A[0].A[1] == i {
				el = u
			}
			return el != nil
		})
		if el != nil && t.St.Facts().Eval(eng.EqInt(el, nonce)) == 0 {
			return true
		}
	}
	return false
}

// nonceList: the list is filled with random numbers when the program starts,
// and never changed. Its size is returned if it is known.
func (c *Ctx) nonceList(list *T) (size int64) {
	addr := list.A[0]
	owner := eng.OwnerType(addr)
	if !c.Must(addr.Op == "fa" && owner != nil && eng.Root(addr).Op == "glob", "own-nonce", "list", token.NoPos, "the nonces are not kept in a list of a global object: %v", list) {
		return 0
	}
	elem := eng.FieldType(owner, addr.S).Underlying().(*types.Slice).Elem()
	pkg := owner.Obj().Pkg().Path()
	// the initialisers, one after the other
	x := c.Exec(eng.Config{})
	st := x.Start()
	var inits []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == pkg && strings.HasPrefix(f.Name(), "init#") && f.Parent() == nil {
			inits = append(inits, f)
		}
	}
	sts := []*State{st}
	for _, f := range inits {
		var next []*State
		for _, s := range sts {
			for _, p := range x.RunIn(f, nil, s) {
				if c.Must(p.End == "return", "filled", eng.FuncName(f), p.Pos, "the initialiser can end in a %s", p.End) {
					next = append(next, p.St)
				}
			}
		}
		sts = next
	}
	c.Done(x, nil)
	n := 0
	for _, s := range sts {
		n++
		s = s.Fork()
		l := x.Load(s, addr, eng.FieldType(owner, addr.S))
		k, ok := eng.Simp(s.Facts(), eng.Len(l)).Int64()
		if !c.Must(ok && k > 0, "filled", "size", token.NoPos, "the list of our nonces has %v entries when the program has started", eng.Len(l)) {
			continue
		}
		size = k
		i := eng.Sym("i!nonce")
		s.Assume(eng.Le(eng.Zero, i))
		s.Assume(eng.Le(i, eng.Int(k-1)))
		v := x.Load(s, eng.ElemAddr(l, i, elem), elem)
		c.Must(isRandom(v) && v.Mentions(i), "random", "nonces", token.NoPos, "entry i of the list of our nonces is %v, not a random number of its own", v)
		if !v.Any(func(u *T) bool { return u.Op == "res" && strings.HasPrefix(u.S, "rand.") }) {
			continue
		}
		// math/rand gives the same numbers in every run unless it is seeded
		seeded := false
		for _, e := range s.Events() {
			if e.Kind == "call" && e.Name == "rand.Seed" && len(e.Args) == 1 && e.Args[0].Any(func(u *T) bool { return u.Op == "tunix" || u.Op == "tsub" || u.Op == "rand" }) {
				seeded = true
			}
			if e.Kind == "loop" || e.Kind == "call" && strings.HasPrefix(e.Name, "rand.") && e.Name != "rand.Seed" {
				if !seeded {
					break
				}
			}
		}
		seeded = seeded && seedFirst(s.Events())
		c.Must(seeded, "random", "seed", token.NoPos, "the nonces are drawn without seeding the generator first: every node has the same")
	}
	c.Floor("ways to start", n, 1)
	// nothing else changes them
	g := c.callGraph()
	changers := c.fieldUses(owner, addr.S, listChanges)
	for _, f := range sortedFuncs(changers) {
		ok := c.onlyAtStart(g, f, map[*ssa.Function]bool{})
		c.Must(ok, "lasting", eng.FuncName(f), changers[f], "%s changes the list of our nonces after the program has started", eng.FuncName(f))
	}
	return size
}

// seedFirst: no number is drawn before the generator is seeded.
func seedFirst(es []*Ev) bool {
	for _, e := range es {
		switch {
		case e.Kind == "call" && e.Name == "rand.Seed":
			return true
		case e.Kind == "call" && strings.HasPrefix(e.Name, "rand."):
			return false
		case e.Kind == "loop" && e.Rec != nil:
			for _, o := range allEvents([]*Ev{e}) {
				if o.Kind == "call" && strings.HasPrefix(o.Name, "rand.") {
					return false
				}
			}
		}
	}
	return false
}

func isRandom(v *T) bool {
	switch {
	case v.Op == "res" && strings.HasPrefix(v.S, "rand.") && (strings.Contains(v.S, "Uint64") || strings.Contains(v.S, "Int63")):
		return true
	case strings.HasPrefix(v.Op, "num"):
		return v.A[0].Any(func(u *T) bool { return u.Op == "rand" })
	}
	return false
}

func (c *Ctx) onlyAtStart(g *callGraph, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		return true
	}
	if f.Parent() != nil {
		return c.onlyAtStart(g, f.Parent(), seen)
	}
	for _, e := range g.in[f] {
		if !c.onlyAtStart(g, e.from, seen) {
			return false
		}
	}
	// an exported function of an exported type can be called by anybody
	if token.IsExported(f.Name()) {
		r := f.Signature.Recv()
		if r == nil {
			return false
		}
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Exported() {
			return false
		}
	}
	return true
}

// listChanges: the use of a list, or of the field that holds it, can change it.
func listChanges(v ssa.Value, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Store:
		return true
	case *ssa.UnOp, *ssa.Index, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
		return false
	case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
		return valueChanges(in.(ssa.Value), map[ssa.Value]bool{})
	case *ssa.IndexAddr:
		for _, r := range *i.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, ok := r.(*ssa.DebugRef); !ok {
					return true
				}
			}
		}
		return false
	case ssa.CallInstruction:
		if b, ok := builtinCall(in); ok {
			switch b {
			case "len", "cap":
				return false
			case "append", "copy":
				a := i.Common().Args
				return (b == "append" && a[0] == v) || (b == "copy" && a[0] == v)
			}
		}
		f := i.Common().StaticCallee()
		if f == nil || f.Blocks == nil || len(f.Params) != len(i.Common().Args) {
			return true
		}
		for n, a := range i.Common().Args {
			if a == v && valueChanges(f.Params[n], map[ssa.Value]bool{}) {
				return true
			}
		}
		return false
	}
	return true
}

// valueChanges: some use of the list v can change it.
func valueChanges(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
			if valueChanges(r.(ssa.Value), seen) {
				return true
			}
			continue
		case ssa.CallInstruction:
			if f := i.Common().StaticCallee(); f != nil && f.Blocks != nil && len(f.Params) == len(i.Common().Args) {
				for n, a := range i.Common().Args {
					if a == v && valueChanges(f.Params[n], seen) {
						return true
					}
				}
				continue
			}
		}
		if listChanges(v, r) {
			return true
		}
	}
	return false
}

func init() {
	register("N01", "symbolic byte layout of both handshake directions over all paths (abstract interpretation over SSA)",
		"Every path of every function that returns a connection, with message framing, decoding and encoding followed byte by byte: a path without an error has received the other half of the handshake over the connection it returns, and its conditions entail that the bytes at the position of the version are version 1 and those at the position of the genesis equal the hash we send. Each hello and reply sent is decoded from the bytes written and must carry version 1, the same capabilities, agent and genesis everywhere, and the genesis is the hash of the block the node's chain starts with. Connections are built nowhere else.", runN01,
		"the pool starts only connections these functions returned without an error (decided by N06 and N07)")
	register("N02", "symbolic byte layout of both handshake directions, loop summaries and evaluation of the package initialisers (abstract interpretation over SSA)",
		"The nonce bytes of every hello written are an element of a global list. Every path that writes a reply has first left a loop over that whole list in which every iteration that goes on has established that the element differs from the nonce bytes received. The initialisers leave each element of the list a random number of its own, drawn after the generator was seeded with the time, and no other function can change the list.", runN02,
		"two nodes do not draw the same 64-bit random numbers")
}
