package rules

import (
	"go/token"
	"go/types"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- N12 ----

// maxKnown is how many addresses are known when one more is still entered.
const maxKnown = 10000

func runN12(c *Ctx) {
	stat := c.status()
	it := c.Named("p2p", "peerInfo")
	t := c.poolType()
	if stat == nil || it == nil || t == nil {
		return
	}
	n := 0
	c.eachEntry(func(r *poolRun, x *eng.Exec, st *State, es []*Ev, i int) {
		n++
		e := es[i]
		m, key, rec := e.Args[0], e.Args[1], e.Args[2]
		fs := st.Facts()
		ad := resolved(st, es[:i], key)
		if c.Must(ad != nil, "address", "resolves", e.Pos, "an address is entered that has not been resolved: %s", lits(st)) {
			port := x.Load(st, eng.FieldAddr(ad, structOf(ad.Typ), "Port"), types.Typ[types.Int])
			c.Must(fs.Eval(eng.EqInt(port, eng.Zero)) == 0, "address", "port", e.Pos, "an address is entered whose port may be 0: %s", lits(st))
			ip := x.Load(st, eng.FieldAddr(ad, structOf(ad.Typ), "IP"), eng.FieldType(structOf(ad.Typ), "IP"))
			c.Must(notMulticast(st, ip), "address", "multicast", e.Pos, "an address is entered that may be a multicast one: %s", lits(st))
			na := fieldOfType(it, "*net.TCPAddr")
			if c.Must(na != "", "anchor", "netAddr", e.Pos, "the record of a peer has no field for its resolved address") {
				v := x.Load(st, eng.FieldAddr(rec, it, na), eng.FieldType(it, na))
				c.Must(v == ad, "record", "address", e.Pos, "the record of %v has the address %v", key, v)
				c.fixed(t, it, na)
			}
		}
		full := fs.Eval(eng.Le(eng.Len(m), eng.Int(maxKnown))) == 1
		c.Must(full, "bounded", "entry", e.Pos, "an address is entered into a table of %v addresses: %s", eng.Simp(fs, eng.Len(m)), lits(st))
		c.Must(mapHas(st, m, key) == 0, "record", "kept", e.Pos, "an entry may replace what is known about the peer: %s", lits(st))
		if c.Must(rec.Op == "al", "record", "new", e.Pos, "the entry is %v and not a record of its own", rec) {
			s := x.Load(st, eng.FieldAddr(rec, it, "Status"), eng.FieldType(it, "Status"))
			c.Must(fs.Eval(eng.EqInt(s, eng.Int(stat["psNew"]))) == 1, "record", "status", e.Pos, "a new peer has the status %v", s)
			p := x.Load(st, eng.FieldAddr(rec, it, "Peer"), eng.FieldType(it, "Peer"))
			c.Must(p == eng.Nil, "record", "connection", e.Pos, "a new peer has the connection %v", p)
		}
	})
	c.Floor("places that enter an address", n, 1)
	c.listing(stat, it)
}

// resolved is the address to which key has been resolved.
func resolved(st *State, es []*Ev, key *T) *T {
	for _, e := range es {
		if e.Kind == "call" && e.Name == "net.ResolveTCPAddr" && len(e.Args) == 2 && same(st, e.Args[1], key) && st.Facts().Eval(eng.IsNil(e.Res[1])) == 1 {
			if e.Args[0].IsStr() && e.Args[0].StrVal() == "tcp" {
				return e.Res[0]
			}
		}
	}
	return nil
}

// notMulticast: the path has established that address ip is not multicast.
func notMulticast(st *State, ip *T) bool {
	ok := false
	for _, l := range st.Lits() {
		l.T.Any(func(u *T) bool {
			if u.Op == "call" && u.S == "net.IP.IsMulticast" && len(u.A) == 1 && u.A[0] == ip && st.Facts().Eval(eng.CondOf(u)) == 0 {
				ok = true
			}
			return false
		})
	}
	return ok
}

// fieldOfType is the name of the only field of that type.
func fieldOfType(n *types.Named, typ string) string {
	r := ""
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == typ {
			if r != "" {
				return ""
			}
			r = s.Field(i).Name()
		}
	}
	return r
}

// fixed: a field of the record is set only while the record is built.
func (c *Ctx) fixed(t, it *types.Named, field string) {
	uses := c.fieldUses(it, field, func(v ssa.Value, in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Store:
			_, fresh := v.(*ssa.FieldAddr)
			if i.Addr == v && fresh {
				_, fresh = v.(*ssa.FieldAddr).X.(*ssa.Alloc)
				return !fresh
			}
		case ssa.CallInstruction:
			_, addr := v.(*ssa.FieldAddr)
			return addr
		}
		return false
	})
	for _, f := range sortedFuncs(uses) {
		c.Fail("record", "fixed "+eng.FuncName(f), uses[f], "%s changes the resolved address of a known peer", eng.FuncName(f))
	}
}

// listing: what Peers answers.
func (c *Ctx) listing(stat map[string]int64, it *types.Named) {
	f := c.poolMethod("Peers")
	pa := c.Named("p2p", "PeerAddrs")
	if f == nil || pa == nil {
		return
	}
	na := fieldOfType(it, "*net.TCPAddr")
	x := c.Exec(eng.Config{})
	as := eng.ParamSyms(f)
	ps := x.Run(f, as)
	r := &poolRun{c: c, pool: as[0]}
	listed := map[*T]bool{}
	addr := func(st *State, es []*Ev, v *T, pos token.Pos) {
		// whose address is it?
		var rec *T
		for _, e := range es {
			if e.Kind == "mapiter" && r.table(e.Args[0]) == "PeersTable" {
				if v.Op == "ld" && v.A[0] == eng.FieldAddr(e.Args[2], it, na) || v == eng.Fld(e.Args[2], na, v.Typ) || v == resolved(st, es, e.Args[1]) {
					rec = e.Args[2]
				}
			}
		}
		if !c.Must(rec != nil, "listed", "whose", pos, "the address %v is handed out, which is not that of the known peer looked at", v) {
			return
		}
		listed[v] = true
		ok := false
		for _, s := range recorded(st, rec, "Status") {
			ok = ok || st.Facts().Eval(eng.EqInt(s, eng.Int(stat["psBanned"]))) == 0 && st.Facts().Eval(eng.EqInt(s, eng.Int(stat["psFailedConn"]))) == 0
		}
		c.Must(ok, "listed", "status", pos, "a peer is handed out although it may be banned or have failed: %s", lits(st))
		ok = false
		for _, s := range recorded(st, rec, "Capabilities") {
			ok = ok || st.Facts().Eval(eng.EqInt(eng.And(s, as[1]), as[1])) == 1
		}
		c.Must(ok, "listed", "capabilities", pos, "a peer is handed out although it may lack a requested capability: %s", lits(st))
	}
	// the loops that grow a list
	for _, l := range loopsIn(ps) {
		for _, v := range l.Vars {
			if v.Val == nil || v.Val.Typ == nil || typeName(v.Val.Typ) != "[]*net.TCPAddr" {
				continue
			}
			for _, t := range l.Trans {
				c.grown(t.St, t.Next[v], v.Val, func(w *T) { addr(t.St, t.Events, w, l.Pos) })
			}
			if l.Entry != nil {
				c.grown(l.Entry, v.Init, nil, func(w *T) { addr(l.Entry, l.Entry.Events(), w, l.Pos) })
			}
		}
	}
	full := 0
	for _, p := range ps {
		if !c.Must(p.End == "return" && len(p.Res) == 1, "ends", "Peers", p.Pos, "Peers can end in a %s", p.End) {
			continue
		}
		list := c.addrsOf(x.Load(p.St, p.Res[0], pa), pa)
		if list == nil {
			c.Fail("anchor", "PeerAddrs", f.Pos(), "the reply of Peers has no list of addresses")
			return
		}
		full++
		c.grown(p.St, list, nil, func(w *T) { addr(p.St, p.St.Events(), w, p.Pos) })
	}
	c.Floor("lists handed out", full, 1)
	c.Floor("addresses handed out", len(listed), 1)
	c.Done(x, ps)
}

// grown reports the elements appended to the list old to get list v.
func (c *Ctx) grown(st *State, v, old *T, use func(w *T)) {
	for v != old {
		switch {
		case v == nil:
			c.Fail("listed", "list", token.NoPos, "a list of addresses is not followed through a loop")
			return
		case v.Op == "append":
			for _, w := range v.A[1:] {
				use(w)
			}
			v = v.A[0]
			continue
		case old == nil && (v == eng.Nil || v.Op == "w"):
			return // the loop is looked at by itself
		case st.Facts().Eval(eng.EqInt(eng.Len(v), eng.Zero)) == 1:
			return
		}
		c.Fail("listed", "list", token.NoPos, "a list of addresses is %v, not known element by element", v)
		return
	}
}

func init() {
	register("N12", "case analysis of entering and listing addresses (abstract interpretation over SSA)",
		"Every path of Add that changes the table of known peers: the address has been resolved as a TCP one that is neither multicast nor has port 0, the table read under the same lock has at most 10,000 entries and not this one, the record is a new one. Nothing else enters addresses or changes a resolved address. In Peers every element appended to the list, in any iteration, is the address of the record looked at, whose status and capabilities have been checked.", runN12)
}

// ---- N15 ----

// The pool is taken to be run once.
func runN15(c *Ctx) {
	r := c.runPool(nil)
	if r == nil {
		return
	}
	attempts, failures, conns := 0, 0, 0
	for _, s := range r.spans {
		top := map[*Ev]bool{}
		for _, e := range s.es {
			top[e] = true
		}
		for _, e := range allEvents(s.es) {
			if e.Kind == "call" && dials[e.Name] {
				c.Must(top[e] && s.loop, "one-by-one", "dial", e.Pos, "peers are dialled in an inner loop or outside of the loop of the pool")
			}
		}
		for _, k := range s.kids {
			for _, p := range k.ps {
				for _, e := range allEvents(p.St.Events()) {
					if e.Kind == "call" && dials[e.Name] {
						c.Fail("one-by-one", "goroutine", e.Pos, "peers are dialled by a goroutine of their own, so one can be dialled twice")
					}
				}
			}
		}
		var rec *T
		began := -1
		for i, e := range s.es {
			if e.Kind != "call" || !dials[e.Name] && (e.Name != "net.ResolveTCPAddr" || e.Args[1].IsStr()) {
				continue
			}
			rc, key := r.target(s, e)
			if !c.Must(rc != nil, "known", e.Name, e.Pos, "%s of %v, which is not known to be an address of the table: %s", e.Name, key, lits(s.st)) {
				continue
			}
			c.Must(rec == nil || rec == rc, "one-by-one", "peers", e.Pos, "several peers are dialled in one round")
			if rec == nil {
				began = i
			}
			rec = rc
			if !dials[e.Name] {
				continue
			}
			attempts++
			c.Must(r.excluded(s.st, rc, "psConnected"), "idle", "connected", e.Pos, "a peer is dialled that may already be connected: %s", lits(s.st))
			c.Must(r.excluded(s.st, rc, "psBanned"), "idle", "banned", e.Pos, "a peer is dialled that may be banned: %s", lits(s.st))
			c.Must(r.excluded(s.st, rc, "psFailedConn") || r.noneFresh(s, i), "fresh", "failed", e.Pos, "a peer to which a connection has failed is dialled although others may be fresh: %s", lits(s.st))
		}
		ps := started(s.es)
		if rec == nil {
			c.Must(len(ps) == 0, "known", "connection", r.main.Pos, "a connection is made without an attempt to dial")
			r.statusPuts(s, nil, nil)
			continue
		}
		failed := false
		for _, e := range s.es {
			if e.Kind == "call" && len(e.Res) > 0 && (dials[e.Name] || e.Name == "net.ResolveTCPAddr" || e.Name == "p2p.WriteMessage" || e.Name == "p2p.ReadMessage") {
				failed = failed || s.st.Facts().Eval(eng.IsNil(e.Res[len(e.Res)-1])) == 0
			}
		}
		r.statusPuts(s, rec, ps)
		last, at := r.lastStatus(s.es, rec)
		_ = began
		switch {
		case len(ps) > 0:
			conns++
			c.Must(last != nil && same(s.st, last, eng.Int(r.stat["psConnected"])), "recorded", "connected", r.main.Pos, "a connected peer has the status %v", last)
			ends := 0
			for _, k := range s.kids {
				for _, p := range k.ps {
					es := p.St.Events()
					if !ended(p.St, es, len(es), ps[0], r.pt) {
						continue
					}
					ends++
					c.Must(at >= 0 && at < k.at, "recorded", "order", k.ev.Pos, "a peer is recorded as connected after the goroutine that records the end of its connection has been started")
					v, j := r.lastStatus(es, rec)
					banned := false
					for _, u := range recorded(p.St, rec, "Status") {
						banned = banned || p.St.Facts().Eval(eng.EqInt(u, eng.Int(r.stat["psBanned"]))) == 1
					}
					c.Must(banned || v != nil && same(p.St, v, eng.Int(r.stat["psDisconnected"])) && ended(p.St, es, j, ps[0], r.pt), "recorded", "disconnected", k.ev.Pos, "when its connection has ended, a peer has the status %v: %s", v, lits(p.St))
				}
			}
			c.Must(ends > 0, "recorded", "watch", r.main.Pos, "nothing records the end of a connection")
		case failed:
			failures++
			c.Must(last != nil && same(s.st, last, eng.Int(r.stat["psFailedConn"])), "recorded", "failed", r.main.Pos, "after a failed attempt to connect a peer has the status %v: %s", last, lits(s.st))
		}
	}
	c.Floor("dials", attempts, 3)
	c.Floor("failed attempts", failures, 3)
	c.Floor("connections", conns, 1)
	r.onlyRunDials()
	r.onlyStatus()
}

// target is the record of the peer that is dialled or resolved, and the
// address.
func (r *poolRun) target(s *span, e *Ev) (*T, *T) {
	key := e.Args[len(e.Args)-1]
	if dials[e.Name] {
		for _, a := range e.Args {
			v, _ := inner(a)
			for _, o := range s.es {
				if o.Kind == "call" && o.Name == "net.ResolveTCPAddr" && o.Res[0] == v {
					key = o.Args[1]
				}
				if o.Kind == "mapget" && r.table(o.Args[0]) == "PeersTable" {
					rec := eng.MapGet(o.Args[0], o.Args[1], types.NewPointer(r.it))
					if v.Op == "ld" && v.A[0].Op == "fa" && v.A[0].A[0] == rec {
						key = o.Args[1]
					}
				}
			}
		}
	}
	for i := len(s.es) - 1; i >= 0; i-- {
		o := s.es[i]
		if o.Kind == "mapget" && r.table(o.Args[0]) == "PeersTable" && same(s.st, o.Args[1], key) && mapHas(s.st, o.Args[0], o.Args[1]) == 1 {
			return eng.MapGet(o.Args[0], o.Args[1], types.NewPointer(r.it)), key
		}
	}
	return nil, key
}

// excluded: the status of the record, read under its lock, was not the one
// named. Records of the same address found at different times count as one.
func (r *poolRun) excluded(st *State, rec *T, status string) bool {
	ok := false
	for _, l := range st.Lits() {
		l.T.Any(func(u *T) bool {
			if u.Op == "ld" && u.A[0].Op == "fa" && u.A[0].S == "Status" {
				o := u.A[0].A[0]
				if o == rec || o.Op == "mget" && r.table(o.A[0]) == "PeersTable" && o.A[1] == rec.A[1] {
					ok = ok || st.Facts().Eval(eng.EqInt(u, eng.Int(r.stat[status]))) == 0
				}
			}
			return false
		})
	}
	return ok
}

// noneFresh: before event i a loop has looked at every known peer and found
// none new or disconnected.
func (r *poolRun) noneFresh(s *span, i int) bool {
	for j := 0; j < i; j++ {
		e := s.es[j]
		if e.Kind != "loop" || e.Rec == nil {
			continue
		}
		ok := true
		whole := len(e.Rec.Trans) > 0
		for _, t := range e.Rec.Trans {
			fresh := true
			for _, o := range t.Events {
				if o.Kind == "mapiter" && r.table(o.Args[0]) == "PeersTable" {
					fresh = !(r.excludedKey(t.St, o.Args[2], "psNew") && r.excludedKey(t.St, o.Args[2], "psDisconnected"))
					// to its end?
					more := false
					for _, l := range s.st.Lits() {
						if !l.Pos && l.T.Op == "more" && l.T.A[0].Any(func(u *T) bool { return u == o.Args[0] }) {
							more = true
						}
					}
					whole = whole && more
				}
			}
			ok = ok && !fresh
		}
		if ok && whole {
			return true
		}
	}
	return false
}

func (r *poolRun) excludedKey(st *State, rec *T, status string) bool {
	for _, u := range recorded(st, rec, "Status") {
		if st.Facts().Eval(eng.EqInt(u, eng.Int(r.stat[status]))) == 0 {
			return true
		}
	}
	return false
}

// lastStatus is the status given to the record last.
func (r *poolRun) lastStatus(es []*Ev, rec *T) (*T, int) {
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].Kind == "put" && r.isStatus(es[i].Args[0]) && eng.Root(es[i].Args[0]) == rec {
			return es[i].Args[1], i
		}
	}
	return nil, -1
}

// statusPuts: in the loop of the pool only the peer that is dialled gets
// another status, and after it has been found idle.
func (r *poolRun) statusPuts(s *span, rec *T, ps []*T) {
	if !s.loop {
		return
	}
	c := r.c
	for _, e := range allEvents(s.es) {
		if e.Kind == "put" && r.isStatus(e.Args[0]) {
			if !c.Must(rec != nil && eng.Root(e.Args[0]) == rec, "status", "other peer", e.Pos, "the status of a peer changes that is not being dialled: %s", lits(s.st)) {
				continue
			}
			c.Must(r.excluded(s.st, rec, "psConnected"), "status", "connected peer", e.Pos, "the status of a peer changes that may be connected: %s", lits(s.st))
			c.Must(len(ps) > 0 || !same(s.st, e.Args[1], eng.Int(r.stat["psConnected"])), "status", "not connected", e.Pos, "a peer gets the status connected without a connection: %s", lits(s.st))
		}
	}
	for _, k := range s.kids {
		for _, p := range k.ps {
			es := p.St.Events()
			for i, e := range es {
				if e.Kind == "put" && r.isStatus(e.Args[0]) {
					c.Must(len(ps) == 1 && ended(p.St, es, i, ps[0], r.pt), "status", "goroutine", e.Pos, "a goroutine changes the status of a peer whose connection has not ended: it could be dialled again")
				}
			}
			walkEvents(p.St, es, func(_ *State, q []*Ev, e *Ev) {
				if e.Kind == "put" && r.isStatus(e.Args[0]) {
					for _, o := range es {
						if o == e {
							return
						}
					}
					c.Fail("status", "loop", e.Pos, "a goroutine changes the status of peers in a loop")
				}
			})
		}
	}
}

// onlyRunDials: whatever leads to a dial is part of the loop of the pool.
func (r *poolRun) onlyRunDials() {
	c := r.c
	g := c.callGraph()
	run := c.poolMethod("Run")
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range c.P.Funcs {
		for d := range dials {
			if callsExtern(f, d) && !seen[f] {
				seen[f] = true
				todo = append(todo, f)
			}
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if f == run {
			continue
		}
		for _, e := range g.in[f] {
			if !seen[e.from] {
				seen[e.from] = true
				todo = append(todo, e.from)
			}
		}
	}
	n := 0
	for _, f := range sortedFuncs(seen) {
		n++
		c.Must(r.reach[f] || r.reach[outermost(f)], "only-here", eng.FuncName(f), f.Pos(), "%s leads to a dial outside of the loop of the pool", eng.FuncName(f))
	}
	c.Floor("functions that lead to a dial", n, 2)
}

// onlyStatus: elsewhere a peer can only become banned.
func (r *poolRun) onlyStatus() {
	c := r.c
	n := 0
	uses := c.fieldUses(r.it, "Status", func(v ssa.Value, in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Store:
			if i.Addr == v {
				_, fresh := i.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
				if k, ok := i.Val.(*ssa.Const); ok && !fresh && k.Value != nil && k.Int64() == r.stat["psBanned"] {
					n++
					return false
				}
				return !fresh
			}
		case ssa.CallInstruction:
			_, addr := v.(*ssa.FieldAddr)
			return addr
		}
		return false
	})
	for _, f := range sortedFuncs(uses) {
		n++
		c.Must(r.reach[f], "status", eng.FuncName(f), uses[f], "%s changes the status of peers", eng.FuncName(f))
	}
	c.Floor("writes of a status", n, 3)
}

func init() {
	register("N15", "typestate of peer records over all paths of the pool's loop and goroutines (abstract interpretation over SSA)",
		"Every dial on every way through the loop of the pool: the address is a key of the table of known peers whose status, read under its lock on that path, is neither connected nor banned, and is not failed unless a complete loop over the table found no fresh peer. The status a peer is left with when the dial or handshake failed, when a connection was made (before its end is watched) and when it has ended. No other goroutine dials, nothing else changes a status except to banned.", runN15)
}
