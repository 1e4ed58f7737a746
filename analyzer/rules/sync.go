package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// reply is a message handed to the sender of a connection.
type reply struct {
	typ  string // dynamic type without the star
	ptr  *T
	val  *T // what it points to when it is sent
	elem types.Type
	st   *State
	ev   *Ev
}

func isMsgChan(t *T) bool {
	if t.Typ == nil {
		return false
	}
	ch, ok := t.Typ.Underlying().(*types.Chan)
	return ok && typeName(ch.Elem()) == "p2p.Message"
}

// sent is the message of a send event.
func sent(st *State, e *Ev) (reply, bool) {
	if e.Kind != "send" || !isMsgChan(e.Args[0]) {
		return reply{}, false
	}
	v, tn := inner(e.Args[1])
	r := reply{typ: strings.TrimPrefix(tn, "*"), ptr: v, st: st, ev: e}
	if len(e.Args) == 3 {
		r.val, r.elem = e.Args[2], eng.TypeOf(e.Args[1].S).(*types.Pointer).Elem()
	}
	return r, true
}

// walkEvents visits the events of a path and of the loops on it, with the
// state that is known to hold when they happen.
func walkEvents(st *State, es []*Ev, use func(st *State, es []*Ev, e *Ev)) {
	for _, e := range es {
		use(st, es, e)
		if e.Kind == "loop" && e.Rec != nil {
			for _, t := range e.Rec.Trans {
				walkEvents(t.St, t.Events, use)
			}
		}
	}
}

// handling is ProcessMessage on a message of one type.
type handling struct {
	c           *Ctx
	typ         *types.Named
	name        string
	x           *eng.Exec
	sync, peer  *T
	msg         *T // pointer to the message
	msgAt       *T // its content
	chain, pool *T
	mem         *T
	queue, addr *T
	ps          []Path
}

func (c *Ctx) iface(p *T, n *types.Named) *T {
	m := c.Named("p2p", "Message")
	return eng.MkT(m, "iface", eng.TypeKey(types.NewPointer(n)), p)
}

// handle interprets ProcessMessage for every message type.
func (c *Ctx) handle() []*handling {
	f := c.Method("p2p", "Syncer", "ProcessMessage")
	pt := c.Named("p2p", "Peer")
	st := c.Named("p2p", "Syncer")
	if f == nil || pt == nil || st == nil {
		return nil
	}
	var r []*handling
	for _, n := range c.messages() {
		h := &handling{c: c, typ: n, name: typeName(n)}
		as := append([]*T{}, eng.ParamSyms(f)...)
		if len(as) != 3 {
			c.Fail("anchor", "ProcessMessage", f.Pos(), "ProcessMessage has %d parameters", len(as))
			return nil
		}
		h.sync, h.peer = as[0], as[1]
		h.msg = eng.SymT("msg", types.NewPointer(n))
		as[2] = c.iface(h.msg, n)
		h.x = c.Exec(eng.Config{Opaque: func(g *ssa.Function, _ []*T) bool {
			return g.Name() == "Hash" && strings.HasPrefix(eng.FuncName(g), "consensus.")
		}})
		s0 := h.x.Start()
		s0.Assume(eng.IsNil(h.msg).Not())
		ld := func(p *T, t types.Type, f string) *T {
			return h.x.Load(s0, eng.FieldAddr(p, t, f), eng.FieldType(t, f))
		}
		h.chain, h.pool, h.mem = ld(h.sync, st, "Chain"), ld(h.sync, st, "Pool"), ld(h.sync, st, "Mempool")
		h.addr = ld(h.peer, pt, "Addr")
		qa, qt := c.peerField(h.peer, "chan p2p.Message")
		if qa == nil {
			return nil
		}
		h.queue = h.x.Load(s0, qa, qt)
		h.msgAt = h.x.Load(s0, h.msg, n)
		h.ps = h.x.RunIn(f, as, s0)
		for _, p := range h.ps {
			c.Must(p.End == "return", "ends", "ProcessMessage "+h.name, p.Pos, "handling a %s can end in a %s", h.name, p.End)
		}
		c.Done(h.x, h.ps)
		r = append(r, h)
	}
	c.Floor("message types", len(r), 13)
	return r
}

// msgField is a field of the message handled.
func (h *handling) msgField(names ...string) *T { return fld(h.msgAt, h.typ, names...) }

// replies of a path to the peer; aborted: the connection was shut down meanwhile.
func (h *handling) replies(p Path) (rs []reply, aborted bool) {
	pt := h.c.Named("p2p", "Peer")
	quit := map[*T]bool{}
	s := pt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "chan struct{}" {
			quit[h.x.Load(h.x.Start(), eng.FieldAddr(h.peer, pt, s.Field(i).Name()), s.Field(i).Type())] = true
		}
	}
	for _, e := range p.St.Events() {
		switch {
		case e.Kind == "send" && e.Args[0] == h.queue:
			if r, ok := sent(p.St, e); ok {
				rs = append(rs, r)
			}
		case e.Kind == "recv" && quit[eng.Unversioned(e.Args[0])]:
			aborted = true
		}
	}
	return
}

// calls of a method of the chain, the pool or the transaction pool on a path.
func (h *handling) calls(p Path, name string) []*Ev {
	var r []*Ev
	for _, e := range allEvents(p.St.Events()) {
		if e.Kind == "call" && e.Name == name {
			r = append(r, e)
		}
	}
	return r
}

// allEvents are the events including those of the loops gone through.
func allEvents(es []*Ev) []*Ev {
	var r []*Ev
	for _, e := range es {
		r = append(r, e)
		if e.Kind == "loop" && e.Rec != nil {
			for _, t := range e.Rec.Trans {
				r = append(r, allEvents(t.Events)...)
			}
		}
	}
	return r
}

// unknown: on this path the pool has no record of the peer.
func (h *handling) unknown(p Path) bool {
	for _, e := range h.calls(p, "p2p.PeersPool.PeerInfo") {
		if p.St.Facts().Eval(eng.IsNil(e.Res[0])) == 1 {
			return true
		}
	}
	return false
}

// record of the peer in the pool.
func (h *handling) record(p Path) *T {
	for _, e := range h.calls(p, "p2p.PeersPool.PeerInfo") {
		if len(e.Args) == 2 && same(p.St, e.Args[1], h.addr) && p.St.Facts().Eval(eng.IsNil(e.Res[0])) == 0 {
			return e.Res[0]
		}
	}
	return nil
}

// judged are the messages whose content the rules decide.
var judged = map[string]struct{ call, field string }{
	"consensus.Block":       {"p2p.Blockchain.ProcessBlock", ""},
	"p2p.BlockHeaders":      {"p2p.Blockchain.ProcessHeaders", "Headers"},
	"consensus.Transaction": {"p2p.Mempool.ProcessTx", ""},
}

// verdict is the outcome of judging the message: 1 accepted, 0 refused, -1
// not judged.
func (h *handling) verdict(p Path) int {
	j, ok := judged[h.name]
	if !ok {
		return -1
	}
	for _, e := range h.calls(p, j.call) {
		if len(e.Res) == 1 {
			return p.St.Facts().Eval(eng.IsNil(e.Res[0]))
		}
	}
	return -1
}

func runN04(c *Ctx) {
	refused, accepted := map[string]int{}, map[string]int{}
	for _, h := range c.handle() {
		j, isJudged := judged[h.name]
		for _, p := range h.ps {
			if p.End != "return" {
				continue
			}
			bans := h.calls(p, "p2p.PeersPool.Ban")
			for _, b := range bans {
				c.Must(len(b.Args) == 2 && same(p.St, b.Args[1], h.addr), "address", h.name, b.Pos, "for a refused %s the pool is told to ban %v, it knows the peer as %v", h.name, b.Args[1], h.addr)
			}
			if h.unknown(p) {
				continue
			}
			if !isJudged {
				// a single header is only a notification
				if h.name == "p2p.BlockHeader" {
					for _, e := range h.calls(p, "p2p.Blockchain.ProcessHeaders") {
						c.Must(len(bans) == 0 || p.St.Facts().Eval(eng.IsNil(e.Res[0])) == 0, "innocent", h.name, p.Pos, "the sender of an accepted %s is banned", h.name)
					}
				} else {
					c.Must(len(bans) == 0, "innocent", h.name, p.Pos, "the sender of a %s is banned", h.name)
				}
				continue
			}
			cs := h.calls(p, j.call)
			if len(cs) == 0 && j.call == "p2p.Mempool.ProcessTx" && p.St.Facts().Eval(eng.IsNil(h.mem)) == 1 {
				c.Must(len(bans) == 0, "innocent", h.name+" no pool", p.Pos, "a node without transaction pool bans the sender of a transaction")
				continue
			}
			if !c.Must(len(cs) == 1, "judged", h.name, p.Pos, "a %s is handed to %s %d times", h.name, j.call, len(cs)) {
				continue
			}
			e := cs[0]
			want, what := h.msg, "the message"
			if j.field != "" {
				want, what = h.msgField(j.field), "all headers of the message"
			}
			c.Must(len(e.Args) == 2 && same(p.St, e.Args[1], want), "judged", h.name+" argument", e.Pos, "%s is called with %v, not with %s", j.call, e.Args[1], what)
			switch h.verdict(p) {
			case 1:
				accepted[h.name]++
				c.Must(len(bans) == 0, "innocent", h.name, p.Pos, "the sender of an accepted %s is banned (%s)", h.name, lits(p.St))
			case 0:
				refused[h.name]++
				c.Must(len(bans) == 1, "banned", h.name, p.Pos, "the sender of a refused %s is banned %d times", h.name, len(bans))
			default:
				c.Fail("judged", h.name+" verdict", p.Pos, "the outcome of %s is not looked at: its error does not decide what happens to the sender", j.call)
			}
		}
		if isJudged {
			c.Floor("refused "+h.name, refused[h.name], 1)
			c.Floor("accepted "+h.name, accepted[h.name], 1)
			c.Sample("%s: %d refusing paths, %d accepting ones", h.name, refused[h.name], accepted[h.name])
		}
	}
}

// ---- N05 ----

func runN05(c *Ctx) {
	relayed := 0
	for _, h := range c.handle() {
		for _, p := range h.ps {
			if p.End != "return" {
				continue
			}
			fs := p.St.Facts()
			rel := h.calls(p, "p2p.PeersPool.PropagateBlock")
			if h.name != "consensus.Block" {
				c.Must(len(rel) == 0, "relays", h.name, p.Pos, "a block is passed on when a %s is received", h.name)
				continue
			}
			v := h.verdict(p)
			for _, e := range rel {
				relayed++
				c.Must(v == 1, "accepted", "relay", e.Pos, "a block is passed on that the chain has not accepted (%s)", lits(p.St))
				c.Must(len(e.Args) == 2 && e.Args[1] == h.msg, "same", "relay", e.Pos, "what is passed on is %v, not the block received", e.Args[1])
				tip := false
				for _, q := range h.calls(p, "p2p.Blockchain.Height") {
					after := false
					for _, o := range p.St.Events() {
						if o.Kind == "call" && o.Name == "p2p.Blockchain.ProcessBlock" {
							after = true
						}
						if o == q {
							break
						}
					}
					tip = tip || after && fs.Eval(eng.EqInt(q.Res[0], h.msgField("Header", "Height"))) == 1
				}
				c.Must(tip, "tip", "relay", e.Pos, "a block is passed on without being at the height the chain has after processing it (%s)", lits(p.St))
			}
			c.Must(len(rel) <= 1, "once", "relay", p.Pos, "a block is passed on %d times", len(rel))
			if v != 1 {
				if rec := h.record(p); rec != nil {
					h.unchanged(p, rec, "refused")
				}
			}
		}
	}
	c.Floor("paths that pass a block on", relayed, 1)
	c.propagate()
}

// unchanged: the record of the peer is as it was.
func (h *handling) unchanged(p Path, rec *T, when string) {
	for _, e := range allEvents(p.St.Events()) {
		if e.Kind == "put" && eng.Root(e.Args[0]) == rec {
			_, f := eng.Owner(e.Args[0])
			h.c.Must(false, "unchanged", h.name+" "+f, e.Pos, "a %s that was %s changes what is known about its sender (%s)", h.name, when, f)
		}
	}
	h.c.Must(true, "unchanged", h.name, p.Pos, "")
}

// propagate: PropagateBlock sends to connected peers that are behind, only.
func (c *Ctx) propagate() {
	f := c.poolMethod("PropagateBlock")
	if f == nil {
		return
	}
	as := eng.ParamSyms(f)
	x := c.Exec(eng.Config{})
	ps := x.Run(f, as)
	bt := c.Named("consensus", "Block")
	n := 0
	check := func(x *eng.Exec) func(st *State, es []*Ev, e *Ev) {
		blk := x.Load(x.Start(), as[1], bt)
		bh, bd := fld(blk, bt, "Header", "Height"), fld(blk, bt, "Header", "TotalDifficulty")
		return func(st *State, es []*Ev, e *Ev) {
			r, ok := sent(st, e)
			if !ok {
				return
			}
			n++
			c.Must(r.typ == "consensus.Block" && r.ptr == as[1], "same", "PropagateBlock", e.Pos, "what is sent is %v, not the block to be passed on", r.ptr)
			// the peer whose queue it is
			q := e.Args[0]
			behind, connected := false, false
			q.Any(func(u *T) bool {
				if u.Typ != nil && typeName(u.Typ) == "*p2p.peerInfo" {
					behind = behind || c.isBehind(st, u, bh, bd)
					connected = connected || strings.Contains(u.String(), "ConnectedPeers")
				}
				return false
			})
			c.Must(connected, "connected", "PropagateBlock", e.Pos, "a block is passed on to %v, which does not come from the connected peers", q)
			c.Must(behind, "behind", "PropagateBlock", e.Pos, "a block is passed on to a peer not known to be behind (%s)", lits(st))
		}
	}
	ran := map[*Ev]bool{}
	for _, p := range ps {
		c.Must(p.End == "return", "ends", "PropagateBlock", p.Pos, "PropagateBlock can end in a %s", p.End)
		walkEvents(p.St, p.St.Events(), check(x))
		for _, e := range allEvents(p.St.Events()) {
			if e.Kind != "go" || ran[e] {
				continue
			}
			ran[e] = true
			wx := c.Exec(eng.Config{})
			st := e.St
			if st == nil {
				st = p.St
			}
			gp := wx.RunClosure(e.Args[0], e.Args[1:], st.Spawn(), "")
			for _, g := range gp {
				c.Must(g.End == "return", "ends", "PropagateBlock sender", g.Pos, "passing a block on can end in a %s", g.End)
				walkEvents(g.St, g.St.Events(), check(wx))
			}
			c.Done(wx, gp)
		}
	}
	c.Floor("places where a block is passed on", n, 1)
	c.Done(x, ps)
}

// isBehind: the path knows that the recorded height or total difficulty of
// peer pi is lower than the block's.
func (c *Ctx) isBehind(st *State, pi, bh, bd *T) bool {
	var alts []Cond
	for _, u := range recorded(st, pi, "Height") {
		alts = append(alts, eng.Lt(u, bh))
	}
	for _, u := range recorded(st, pi, "TotalDifficulty") {
		alts = append(alts, eng.Lt(u, bd))
	}
	return len(alts) > 0 && entails(st, clause{"", alts})
}

// isAhead: the path knows that recorded height and total difficulty of peer
// pi are not lower than the block's.
func (c *Ctx) isAhead(st *State, pi, bh, bd *T) bool {
	h, d := false, false
	for _, u := range recorded(st, pi, "Height") {
		h = h || st.Facts().Eval(eng.Le(bh, u)) == 1
	}
	for _, u := range recorded(st, pi, "TotalDifficulty") {
		d = d || st.Facts().Eval(eng.Le(bd, u)) == 1
	}
	return h && d
}

// recorded are the values read from a field of record pi, as far as the path
// condition mentions them.
func recorded(st *State, pi *T, field string) []*T {
	var r []*T
	for _, l := range st.Lits() {
		l.T.Any(func(u *T) bool {
			if u.Op == "ld" && u.A[0].Op == "fa" && u.A[0].A[0] == pi && u.A[0].S == field {
				r = append(r, u)
			}
			return false
		})
	}
	return r
}

// poolMethod is a method of the implementation of PeersPool.
func (c *Ctx) poolMethod(name string) *ssa.Function {
	t := c.poolType()
	if t == nil {
		return nil
	}
	f := c.P.MethodOf(types.NewPointer(t), name)
	if f == nil {
		c.Fail("anchor", "PeersPool."+name, token.NoPos, "%s has no method %s", t, name)
	}
	return f
}

// poolType is the implementation of PeersPool.
func (c *Ctx) poolType() *types.Named {
	i := c.Named("p2p", "PeersPool")
	if i == nil {
		return nil
	}
	it, ok := i.Underlying().(*types.Interface)
	var r []*types.Named
	if ok {
		for _, pkg := range c.P.Packages() {
			for _, n := range sortedKeys(pkg.Members) {
				t, ok := pkg.Members[n].(*ssa.Type)
				if !ok {
					continue
				}
				nt, ok := t.Type().(*types.Named)
				if ok && !types.IsInterface(nt) && types.Implements(types.NewPointer(nt), it) {
					r = append(r, nt)
				}
			}
		}
	}
	if len(r) != 1 {
		c.Fail("anchor", "PeersPool", token.NoPos, "%d types implement PeersPool", len(r))
		return nil
	}
	return r[0]
}

// ---- N13 ----

func runN13(c *Ctx) {
	answered := map[string]int{}
	quiet := 0
	for _, h := range c.handle() {
		for _, p := range h.ps {
			if p.End != "return" {
				continue
			}
			rs, aborted := h.replies(p)
			fs := p.St.Facts()
			for _, e := range allEvents(p.St.Events()) {
				if e.Kind == "send" && isMsgChan(e.Args[0]) && e.Args[0] != h.queue {
					c.Fail("answers", h.name+" queue", e.Pos, "handling a %s sends %v to %v, not to its sender", h.name, e.Args[1], e.Args[0])
				}
			}
			if h.unknown(p) && len(rs) == 0 {
				continue // banned in the meantime
			}
			answers := map[string]bool{"p2p.Ping": true, "p2p.GetBlockHeaders": true, "p2p.GetBlock": true, "p2p.GetPeerAddrs": true}
			if !answers[h.name] {
				quiet++
				c.Must(len(rs) == 0 && !aborted, "silent", h.name, p.Pos, "a %s is answered by %d messages", h.name, len(rs))
			} else if aborted {
				c.Must(len(rs) == 0, "one", h.name+" aborted", p.Pos, "a %s is answered %d times, and again", h.name, len(rs)+1)
			} else {
				h.answer(p, rs, answered)
			}
			h.learns(p, fs)
		}
	}
	for _, n := range []string{"p2p.Ping", "p2p.GetBlockHeaders", "p2p.GetBlock", "p2p.GetPeerAddrs"} {
		c.Floor("answers to a "+n, answered[n], 1)
	}
	c.Floor("paths of messages without an answer", quiet, 6)
	c.pings()
}

// one result of a method of the chain or pool called with arg.
func (h *handling) result(p Path, name string, arg *T) *T {
	for _, e := range h.calls(p, name) {
		if len(e.Res) == 1 && (arg == nil || len(e.Args) == 2 && same(p.St, e.Args[1], arg)) {
			return e.Res[0]
		}
	}
	return nil
}

func (h *handling) answer(p Path, rs []reply, answered map[string]int) {
	c := h.c
	one := func(why string) *reply {
		if !c.Must(len(rs) == 1, "one", h.name, p.Pos, "a %s gets %d answers %s", h.name, len(rs), why) {
			return nil
		}
		answered[h.name]++
		return &rs[0]
	}
	switch h.name {
	case "p2p.Ping":
		r := one("")
		if r == nil {
			return
		}
		if !c.Must(r.typ == "p2p.Pong", "kind", h.name, r.ev.Pos, "a ping is answered by a %s", r.typ) {
			return
		}
		c.chainState("the pong", r, p.St.Events())
	case "p2p.GetBlockHeaders":
		r := one("")
		if r == nil {
			return
		}
		if !c.Must(r.typ == "p2p.BlockHeaders", "kind", h.name, r.ev.Pos, "a header request is answered by a %s", r.typ) {
			return
		}
		want := h.result(p, "p2p.Blockchain.GetBlockHeaders", h.msgField("Locator"))
		got := fld(r.val, r.elem, "Headers")
		c.Must(want != nil && same(p.St, got, want), "what", h.name, r.ev.Pos, "the answer to a header request holds %v, not what the chain located for its hashes", got)
	case "p2p.GetBlock":
		blk := h.result(p, "p2p.Blockchain.GetBlock", h.msgField("Hash"))
		if !c.Must(blk != nil, "what", h.name+" lookup", p.Pos, "the block asked for is not looked up by the hash in the request") {
			return
		}
		if p.St.Facts().Eval(eng.IsNil(blk)) == 1 {
			c.Must(len(rs) == 0, "unknown", h.name, p.Pos, "a request for an unknown block is answered by %d messages", len(rs))
			return
		}
		if r := one("although the block is known"); r != nil {
			c.Must(p.St.Facts().Eval(eng.IsNil(blk)) == 0, "unknown", h.name, r.ev.Pos, "a block request is answered without checking that the block is known")
			c.Must(r.typ == "consensus.Block" && same(p.St, r.ptr, blk), "what", h.name, r.ev.Pos, "a block request is answered by %v (%s), not the block the chain has", r.ptr, r.typ)
		}
	case "p2p.GetPeerAddrs":
		prs := h.result(p, "p2p.PeersPool.Peers", h.msgField("Capabilities"))
		if !c.Must(prs != nil, "what", h.name+" lookup", p.Pos, "the pool is not asked for peers with the requested capabilities") {
			return
		}
		if p.St.Facts().Eval(eng.IsNil(prs)) == 1 {
			c.Must(len(rs) == 0, "unknown", h.name, p.Pos, "a peer request is answered although there are no peers")
			return
		}
		if r := one(""); r != nil {
			ok := r.typ == "p2p.PeerAddrs" && same(p.St, r.ptr, prs)
			if !ok && r.typ == "p2p.PeerAddrs" && r.val != nil {
				pt := c.Named("p2p", "PeerAddrs")
				ok = pt != nil && same(p.St, r.val, h.x.Load(p.St, prs, pt))
			}
			c.Must(ok, "what", h.name, r.ev.Pos, "a peer request is answered by %v (%s), not the peers of the pool", r.ptr, r.typ)
		}
	}
}

// chainState: ping or pong r carries the height and total difficulty of the
// chain, both read under one hold of the chain's lock.
func (c *Ctx) chainState(what string, r *reply, es []*Ev) {
	hv, dv := fld(r.val, r.elem, "Height"), fld(r.val, r.elem, "TotalDifficulty")
	if r.typ == "p2p.Pong" {
		if s := structOf(r.elem); s != nil && s.NumFields() == 1 && s.Field(0).Anonymous() {
			n := s.Field(0).Name()
			hv, dv = fld(r.val, r.elem, n, "Height"), fld(r.val, r.elem, n, "TotalDifficulty")
		}
	}
	ih, id := -1, -1
	for i, e := range es {
		if e.Kind == "call" && len(e.Res) == 1 {
			if e.Name == "p2p.Blockchain.Height" && e.Res[0] == hv {
				ih = i
			}
			if e.Name == "p2p.Blockchain.TotalDifficulty" && e.Res[0] == dv {
				id = i
			}
		}
	}
	pos := r.ev.Pos
	if !c.Must(ih >= 0, "state", what+" height", pos, "%s carries %v, not the height of the chain", what, hv) ||
		!c.Must(id >= 0, "state", what+" total difficulty", pos, "%s carries %v, not the total difficulty of the chain", what, dv) {
		return
	}
	if ih > id {
		ih, id = id, ih
	}
	var lock *T
	for _, l := range es[ih].Held {
		if l.Key.Op == "ifacelock" {
			lock = l.Key
		}
	}
	if !c.Must(lock != nil, "together", what, es[ih].Pos, "%s is filled without holding the lock of the chain", what) {
		return
	}
	for _, e := range es[ih:id] {
		c.Must(!(e.Kind == "lock" && strings.HasSuffix(e.Name, "nlock") && e.Args[0] == lock), "together", what+" atomically", e.Pos, "the lock of the chain is released between reading the two values of %s", what)
	}
	held := false
	for _, l := range es[id].Held {
		held = held || l.Key == lock
	}
	c.Must(held, "together", what+" second", es[id].Pos, "the second value of %s is read without the lock of the chain", what)
}

// learns: ping, pong and accepted blocks update what is known of the peer.
func (h *handling) learns(p Path, fs *eng.Facts) {
	c := h.c
	rec := h.record(p)
	it := c.Named("p2p", "peerInfo")
	if rec == nil || it == nil {
		return
	}
	get := func(n string) (v *T, old bool) {
		at := eng.FieldAddr(rec, it, n)
		for _, e := range allEvents(p.St.Events()) {
			if e.Kind == "put" && e.Args[0] == at {
				v = e.Args[1]
			}
		}
		if v != nil {
			return v, false
		}
		return h.x.Load(p.St, at, eng.FieldType(it, n)), true
	}
	hv, hOld := get("Height")
	dv, dOld := get("TotalDifficulty")
	switch h.name {
	case "p2p.Ping", "p2p.Pong":
		mh, md := "Height", "TotalDifficulty"
		names := []string{}
		if h.name == "p2p.Pong" {
			if s := structOf(h.typ); s != nil && s.NumFields() == 1 && s.Field(0).Anonymous() {
				names = append(names, s.Field(0).Name())
			}
		}
		c.Must(same(p.St, hv, h.msgField(append(names, mh)...)), "learns", h.name+" height", p.Pos, "after a %s the height known of its sender is %v", h.name, hv)
		c.Must(same(p.St, dv, h.msgField(append(names, md)...)), "learns", h.name+" total difficulty", p.Pos, "after a %s the total difficulty known of its sender is %v", h.name, dv)
	case "consensus.Block":
		if h.verdict(p) != 1 {
			return
		}
		bh, bd := h.msgField("Header", "Height"), h.msgField("Header", "TotalDifficulty")
		if !hOld || !dOld {
			c.Must(same(p.St, hv, bh) && same(p.St, dv, bd), "learns", h.name, p.Pos, "after an accepted block its sender is recorded at height %v, total difficulty %v", hv, dv)
			return
		}
		c.Must(c.isAhead(p.St, rec, bh, bd), "learns", h.name+" behind", p.Pos, "after an accepted block its sender is left recorded as behind it (%s)", lits(p.St))
	default:
		c.Must(hOld && dOld, "learns", h.name, p.Pos, "a %s changes the height or total difficulty known of its sender", h.name)
	}
}

// pings: every ping a peer sends carries the state of the chain.
func (c *Ctx) pings() {
	n := 0
	c.eachSend(func(x *eng.Exec, root *ssa.Function, r reply, p Path, es []*Ev) {
		if r.typ == "p2p.Ping" {
			n++
			c.chainState("the ping of "+eng.FuncName(root), &r, es)
		}
	})
	c.Floor("places where a ping is sent", n, 1)
}

// senders are the functions from which everything sent can be seen: the
// exported functions and those nothing calls.
func (c *Ctx) senders() []*ssa.Function {
	g := c.callGraph()
	var r []*ssa.Function
	var leaf []*ssa.Function
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Send:
					if ch, ok := i.Chan.Type().Underlying().(*types.Chan); ok && typeName(ch.Elem()) == "p2p.Message" {
						leaf = append(leaf, f)
					}
				case *ssa.Select:
					for _, s := range i.States {
						if ch, ok := s.Chan.Type().Underlying().(*types.Chan); ok && s.Send != nil && typeName(ch.Elem()) == "p2p.Message" {
							leaf = append(leaf, f)
						}
					}
				}
			}
		}
	}
	up := g.up(leaf)
	for _, f := range c.P.Funcs {
		if !up[f] || eng.FuncName(f) == "p2p.Syncer.ProcessMessage" {
			continue
		}
		if f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "*p2p.Peer" && token.IsExported(f.Name()) {
			r = append(r, f)
			continue
		}
		// code that builds and sends messages itself
		makes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && typeName(mi.Type()) == "p2p.Message" {
					makes = true
				}
			}
		}
		caller := 0
		for _, e := range g.in[f] {
			if e.from != f {
				caller++
			}
		}
		if makes && caller == 0 {
			r = append(r, f)
		}
	}
	return r
}

// eachSend reports everything sent on any path of the senders.
func (c *Ctx) eachSend(use func(x *eng.Exec, root *ssa.Function, r reply, p Path, es []*Ev)) {
	fs := c.senders()
	c.Floor("functions that send", len(fs), 6)
	for _, f := range fs {
		x := c.Exec(eng.Config{Opaque: func(g *ssa.Function, _ []*T) bool {
			return g.Name() == "Hash" && strings.HasPrefix(eng.FuncName(g), "consensus.")
		}})
		ps := x.Run(f, nil)
		for _, p := range ps {
			walkEvents(p.St, p.St.Events(), func(st *State, es []*Ev, e *Ev) {
				if r, ok := sent(st, e); ok && r.typ != "" {
					use(x, f, r, p, p.St.Events())
				}
			})
		}
		c.Done(x, ps)
	}
}

// ---- C05 ----

func runC05(c *Ctx) {
	// what is sent
	n := 0
	one := func(r reply, what string, es []*Ev) {
		switch r.typ {
		case "p2p.GetBlockHeaders":
			n++
			hs := fld(r.val, r.elem, "Locator", "Hashes")
			c.Must(r.st.Facts().Eval(eng.Le(eng.Len(hs), eng.Int(14))) == 1, "locator", what, r.ev.Pos, "%s sends a header request with %v hashes, not known to be at most 14 (%s)", what, eng.Len(hs), lits(r.st))
		case "p2p.BlockHeaders":
			n++
			hs := fld(r.val, r.elem, "Headers")
			ok := r.st.Facts().Eval(eng.Le(eng.Len(hs), eng.Int(512))) == 1
			for _, e := range es {
				ok = ok || e.Kind == "call" && e.Name == "p2p.Blockchain.GetBlockHeaders" && e.Res[0] == hs
			}
			c.Must(ok, "headers", what, r.ev.Pos, "%s sends headers %v that are not limited to 512", what, hs)
		case "p2p.PeerAddrs":
			n++
			ok := false
			for _, e := range es {
				ok = ok || e.Kind == "call" && e.Name == "p2p.PeersPool.Peers" && e.Res[0] == r.ptr
			}
			if !ok && r.val != nil {
				ok = c.addrsOf(r.val, r.elem) != nil && r.st.Facts().Eval(eng.Le(eng.Len(c.addrsOf(r.val, r.elem)), eng.Int(256))) == 1
			}
			c.Must(ok, "addresses", what, r.ev.Pos, "%s sends peer addresses %v that are not limited to 256", what, r.ptr)
		}
	}
	for _, h := range c.handle() {
		for _, p := range h.ps {
			walkEvents(p.St, p.St.Events(), func(st *State, _ []*Ev, e *Ev) {
				if r, ok := sent(st, e); ok {
					one(r, "handling a "+h.name, allEvents(p.St.Events()))
				}
			})
		}
	}
	c.eachSend(func(x *eng.Exec, root *ssa.Function, r reply, p Path, es []*Ev) {
		one(r, eng.FuncName(root), allEvents(es))
	})
	c.Floor("places where limited messages are sent", n, 3)
	c.headerLimit()
	c.peerLimit()
}

// addrsOf is the list of addresses of a peer reply.
func (c *Ctx) addrsOf(v *T, t types.Type) *T {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "*net.TCPAddr" {
			return eng.Fld(v, s.Field(i).Name(), s.Field(i).Type())
		}
	}
	return nil
}

// headerLimit: what the chain answers has at most 512 headers and leaves the
// located block out.
func (c *Ctx) headerLimit() {
	f := c.Method("chain", "Chain", "GetBlockHeaders")
	if f == nil {
		return
	}
	r := c.chainRun(f, eng.Config{Unroll: 1}, nil)
	full := 0
	for _, p := range r.ps {
		if p.End != "return" || len(p.Res) != 1 {
			c.Fail("headers", "GetBlockHeaders", p.Pos, "GetBlockHeaders ends in %s", p.End)
			continue
		}
		st := p.St.Fork()
		var lists []*T
		for _, e := range allEvents(st.Events()) {
			if e.Kind == "call" && e.Name == "chain.Storage.From" && len(e.Args) == 3 && len(e.Res) == 1 {
				st.Assume(eng.Le(eng.Len(e.Res[0]), e.Args[2]))
				lists = append(lists, e.Res[0])
			}
		}
		res := p.Res[0]
		fs := st.Facts()
		c.Must(fs.Eval(eng.Le(eng.Len(res), eng.Int(512))) == 1, "headers", "count", p.Pos, "a header reply can have %v headers", eng.Simp(fs, eng.Len(res)))
		if fs.Eval(eng.EqInt(eng.Len(res), eng.Zero)) == 1 {
			continue
		}
		full++
		ok := false
		for _, l := range lists {
			ok = ok || c.without(r.x, st, l, res)
		}
		c.Must(ok, "headers", "located block", p.Pos, "the headers %v answered are not known to leave out the located block", res)
	}
	c.Floor("header replies with headers", full, 1)
}

// without: element i of res is the header of element i+1 of l.
func (c *Ctx) without(x *eng.Exec, st *State, l, res *T) bool {
	i := eng.SymT("position", types.Typ[types.Int])
	s := st.Fork()
	s.Assume(eng.Le(eng.Zero, i))
	s.Assume(eng.Lt(i, eng.Len(res)))
	if res.Typ == nil || l.Typ == nil {
		return false
	}
	rt := res.Typ.Underlying().(*types.Slice).Elem()
	lt := l.Typ.Underlying().(*types.Slice).Elem()
	got := x.Load(s, eng.ElemAddr(res, i, rt), rt)
	blk := x.Load(s, eng.ElemAddr(l, eng.AddN(i, 1), lt), lt)
	if bt, ok := derefOf(blk); ok {
		blk, lt = x.Load(s, blk, bt), bt
	}
	return same(s, got, fld(blk, lt, "Header"))
}

// peerLimit: what the pool answers has at most 256 addresses.
func (c *Ctx) peerLimit() {
	f := c.poolMethod("Peers")
	pa := c.Named("p2p", "PeerAddrs")
	if f == nil || pa == nil {
		return
	}
	x := c.Exec(eng.Config{})
	ps := x.Run(f, nil)
	n := 0
	for _, p := range ps {
		if p.End != "return" || len(p.Res) != 1 {
			c.Fail("addresses", "Peers", p.Pos, "Peers ends in %s", p.End)
			continue
		}
		if p.Res[0] == eng.Nil {
			continue
		}
		n++
		l := c.addrsOf(x.Load(p.St, p.Res[0], pa), pa)
		if l == nil {
			c.Fail("anchor", "PeerAddrs", p.Pos, "PeerAddrs has no list of addresses")
			continue
		}
		ok := false
		for _, b := range []int64{-1, 255, 256} {
			st := p.St.Fork()
			holds := true
			if b >= 0 {
				for _, e := range allEvents(p.St.Events()) {
					if e.Kind == "loop" && e.Rec != nil {
						holds = holds && c.lenInvariant(e.Rec, st, b)
					}
				}
			}
			if holds && st.Facts().Eval(eng.Le(eng.Len(l), eng.Int(256))) == 1 {
				ok = true
				break
			}
		}
		c.Must(ok, "addresses", "Peers", p.Pos, "a peer reply can have %v addresses", eng.Len(l))
	}
	c.Floor("peer replies", n, 1)
	c.Done(x, ps)
}

// lenInvariant: the lists that loop l grows have at most b elements at its
// head; st learns it.
func (c *Ctx) lenInvariant(l *eng.Loop, st *State, b int64) bool {
	for _, v := range l.Vars {
		if v.Val == nil || v.Val.Typ == nil || v.Init == nil {
			continue
		}
		if _, ok := v.Val.Typ.Underlying().(*types.Slice); !ok {
			continue
		}
		if l.Entry != nil && l.Entry.Facts().Eval(eng.Le(eng.Len(v.Init), eng.Int(b))) != 1 {
			continue
		}
		ok := true
		for _, t := range l.Trans {
			s := t.St.Fork()
			if !s.Assume(eng.Le(eng.Len(v.Val), eng.Int(b))) {
				continue
			}
			nx := t.Next[v]
			if nx == nil || s.Facts().Eval(eng.Le(eng.Len(nx), eng.Int(b))) != 1 {
				ok = false
			}
		}
		if ok {
			st.Assume(eng.Le(eng.Len(v.Val), eng.Int(b)))
		}
	}
	return true
}

func init() {
	register("C05", "case analysis over all sending paths, induction over loop summaries (abstract interpretation over SSA)",
		"Every header request, header reply and peer reply handed to a sending queue on any path of any sending function: the request has at most 14 hashes on that path, the replies are what the chain and the pool answered; GetBlockHeaders answers at most 512 headers, element i being that of the (i+1)th block from the located one; the list Peers builds stays within 256 by induction over its loop.", runC05,
		"Storage.From returns at most as many blocks as asked for")
	register("N04", "case analysis of message handling for every message type (abstract interpretation over SSA)",
		"ProcessMessage is interpreted for each message type with an arbitrary chain, pool and transaction pool: a block, a list of headers or a transaction is judged once and completely, its sender is banned under the address used to look it up exactly when the judge refused, and nobody else is banned.", runN04)
	register("N05", "case analysis of message handling and of block propagation (abstract interpretation over SSA)",
		"On every path of ProcessMessage a block is passed on at most once, after ProcessBlock accepted it and a height read afterwards equalled its own; a refused block writes nothing to the record of its sender. In PropagateBlock and what it spawns, a block is only sent to peers taken from the table of connected peers on paths where their recorded height or total difficulty is lower.", runN05)
	register("N13", "case analysis of message handling for every message type (abstract interpretation over SSA)",
		"For each message type and every path of ProcessMessage: the number, kind and content of the answers, compared with what chain and pool returned for the content of the request; the lock of the chain held across both reads of its state; the final content of the sender's record. The same for every ping sent.", runN13)
}
