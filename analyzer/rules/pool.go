package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// The states of a peer record.
var statusNames = []string{"psNew", "psConnected", "psBanned", "psDisconnected", "psFailedConn"}

// span is a stretch of the pool's main goroutine: one way through its loop,
// or what comes before or after it.
type span struct {
	name string
	st   *State
	es   []*Ev
	kids []*kid
	loop bool
}

// kid is a goroutine a span starts.
type kid struct {
	ev     *Ev
	at     int // position among the events of the span
	x      *eng.Exec
	ps     []Path
	worker bool // of a connection
	inLoop bool
}

// poolRun is the interpretation of the pool's main goroutine.
type poolRun struct {
	c     *Ctx
	x     *eng.Exec
	t     *types.Named // pool
	it    *types.Named // record of a peer
	pt    *types.Named // connection
	pool  *T
	slots *T // channel of connection slots
	main  *eng.Loop
	spans []*span
	reach map[*ssa.Function]bool
	stat  map[string]int64
}

func (c *Ctx) status() map[string]int64 {
	r := map[string]int64{}
	for _, n := range statusNames {
		k := c.P.Const("p2p", n)
		if k == nil {
			c.Fail("anchor", "p2p."+n, token.NoPos, "constant p2p.%s not found", n)
			return nil
		}
		r[n], _ = k.Int64()
	}
	return r
}

// dialOpaque: message IO and hashing are not entered.
func dialOpaque(f *ssa.Function, _ []*T) bool {
	n := eng.FuncName(f)
	return n == "p2p.WriteMessage" || n == "p2p.ReadMessage" || f.Name() == "Hash" && strings.HasPrefix(n, "consensus.")
}

// runPool interprets Run of the pool.
func (c *Ctx) runPool(hook func(*poolRun, *State, *Ev)) *poolRun {
	r := &poolRun{c: c, reach: map[*ssa.Function]bool{}}
	f := c.poolMethod("Run")
	r.t, r.it, r.pt = c.poolType(), c.Named("p2p", "peerInfo"), c.Named("p2p", "Peer")
	r.stat = c.status()
	if f == nil || r.t == nil || r.it == nil || r.pt == nil || r.stat == nil {
		return nil
	}
	cfg := eng.Config{Opaque: dialOpaque}
	if hook != nil {
		cfg.OnEvent = func(st *State, e *Ev) { hook(r, st, e) }
	}
	as := eng.ParamSyms(f)
	r.pool = as[0]
	r.x = c.Exec(cfg)
	ps := r.x.Run(f, as)
	// the loop in which slots are taken
	for _, l := range loopsIn(ps) {
		for _, t := range l.Trans {
			for _, e := range t.Events {
				if e.Kind == "send" && r.field(e.Args[0]) != "" && !isMsgChan(e.Args[0]) {
					if r.main != nil && r.main != l || r.slots != nil && r.slots != eng.Unversioned(e.Args[0]) {
						c.Fail("anchor", "Run loop", e.Pos, "the pool sends on several of its channels, or in several loops")
						return nil
					}
					r.main, r.slots = l, eng.Unversioned(e.Args[0])
				}
			}
		}
	}
	if r.main == nil {
		c.Fail("anchor", "Run loop", f.Pos(), "the pool has no loop that takes connection slots")
		return nil
	}
	for _, p := range ps {
		c.Must(p.End == "return", "ends", "Run", p.Pos, "the pool can end in a %s (%s)", p.End, lits(p.St))
		es := p.St.Events()
		cut := len(es)
		for i, e := range es {
			if e.Kind == "loop" && e.Rec == r.main {
				cut = i
			}
		}
		s := &span{name: "start", st: p.St, es: es[:cut]}
		r.spans = append(r.spans, s)
		if cut < len(es) {
			r.spans = append(r.spans, &span{name: "end", st: p.St, es: es[cut+1:]})
		}
	}
	for _, t := range r.main.Trans {
		if r.emptyKey(t.St) {
			continue
		}
		r.spans = append(r.spans, &span{name: "loop", st: t.St, es: t.Events, loop: true})
	}
	g := c.callGraph()
	for _, s := range r.spans {
		for i, e := range s.es {
			if e.Kind == "go" {
				r.spawn(g, s, s.st, e, i)
			}
			if e.Kind == "loop" && e.Rec != nil {
				walkEvents(s.st, []*Ev{e}, func(st *State, _ []*Ev, o *Ev) {
					if o.Kind == "go" {
						r.spawn(g, s, st, o, i).inLoop = true
					}
				})
			}
		}
	}
	c.Done(r.x, ps)
	for h := range r.x.Visited {
		r.reach[h] = true
	}
	return r
}

// emptyKey: the path needs the empty address in the table of known peers, which
// is never entered: it resolves to port 0 (see N12).
func (r *poolRun) emptyKey(st *State) bool {
	found := false
	for _, l := range st.Lits() {
		l.T.Any(func(u *T) bool {
			if u.Op == "mkey" && u.A[0].Any(func(v *T) bool { return r.table(v) == "PeersTable" }) && st.Facts().Eval(eng.EqInt(eng.Len(u), eng.Zero)) == 1 {
				found = true
			}
			return false
		})
	}
	return found
}

// spawn interprets a goroutine the pool starts; the workers of a connection
// are only noted.
func (r *poolRun) spawn(g *callGraph, s *span, st *State, e *Ev, at int) *kid {
	k := &kid{ev: e, at: at}
	s.kids = append(s.kids, k)
	if f := method(eng.FnOf(e.Args[0])); f != nil {
		for h := range g.down(f) {
			k.worker = k.worker || callsExtern(h, "sync.WaitGroup.Done")
		}
		r.reach[f] = true
	}
	if k.worker {
		return k
	}
	k.x = r.c.Exec(eng.Config{Opaque: dialOpaque})
	k.ps = k.x.RunClosure(e.Args[0], e.Args[1:], st.Spawn(), "")
	r.c.Done(k.x, k.ps)
	for h := range k.x.Visited {
		r.reach[h] = true
	}
	for _, p := range k.ps {
		r.c.Must(p.End == "return", "ends", "goroutine", p.Pos, "%s can end in a %s", e.Name, p.End)
		for _, o := range allEvents(p.St.Events()) {
			if o.Kind == "go" {
				r.c.Fail("analysable", "nested goroutine "+o.Name, o.Pos, "a goroutine of the pool starts another one")
			}
		}
	}
	return k
}

// callsExtern: f calls the named function of the library.
func callsExtern(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && eng.FuncName(h) == name {
					return true
				}
			}
		}
	}
	return false
}

// field is the name of the pool's field t was read from.
func (r *poolRun) field(t *T) string {
	t = eng.Unversioned(t)
	if t.Op == "ld" && t.A[0].Op == "fa" && t.A[0].A[0] == r.pool {
		return t.A[0].S
	}
	return ""
}

// table is the name of the pool's table map m is.
func (r *poolRun) table(m *T) string { return r.field(m) }

// started are the connections whose workers the events start.
func started(es []*Ev) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, e := range es {
		if e.Kind == "wg" && e.Name == "Add" {
			if p := eng.Root(e.Args[0]); !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	return out
}

// onSlots counts what the events do with the connection slots.
func (r *poolRun) onSlots(es []*Ev) (taken, given int, at []int) {
	for i, e := range es {
		switch {
		case e.Kind == "send" && eng.Unversioned(e.Args[0]) == r.slots:
			taken++
		case e.Kind == "recv" && eng.Unversioned(e.Args[0]) == r.slots:
			given++
			at = append(at, i)
		}
	}
	return
}

// ---- N06 ----

func runN06(c *Ctx) {
	r := c.runPool(nil)
	if r == nil {
		return
	}
	count := r.counter()
	connects, misses := 0, 0
	for _, s := range r.spans {
		taken, given, _ := r.onSlots(s.es)
		for _, e := range s.es {
			if e.Kind == "loop" {
				t, g, _ := r.onSlots(allEvents([]*Ev{e})[1:])
				c.Must(t+g == 0, "balance", s.name+" inner loop", e.Pos, "connection slots are taken or given back in an inner loop")
			}
			if e.Kind == "close" {
				c.Must(eng.Unversioned(e.Args[0]) != r.slots, "balance", "close", e.Pos, "the channel of connection slots is closed")
			}
		}
		conns := started(s.es)
		later := 0
		for _, k := range s.kids {
			if k.worker {
				continue
			}
			n := -1
			for _, p := range k.ps {
				t, g, at := r.onSlots(allEvents(p.St.Events()))
				c.Must(t == 0, "balance", "goroutine takes", k.ev.Pos, "a goroutine of the pool takes a connection slot")
				if !c.Must(n < 0 || n == g, "balance", "goroutine", k.ev.Pos, "a goroutine of the pool gives a connection slot back on some paths only (%s)", lits(p.St)) {
					continue
				}
				n = g
				for _, i := range at {
					c.Must(len(conns) == 1 && ended(p.St, p.St.Events(), i, conns[0], r.pt), "waits", "goroutine", k.ev.Pos, "a connection slot is given back before the end of the connection has been waited for")
				}
			}
			if n > 0 {
				c.Must(!k.inLoop, "balance", "goroutine in a loop", k.ev.Pos, "goroutines that give a slot back are started in a loop")
				later += n
			}
		}
		what := s.name + " " + path(c, s)
		pos := r.main.Pos
		c.Must(taken == given+later, "balance", what, pos, "a way of the pool's loop takes %d connection slots and gives back %d (%d of them when the connection has ended): %s", taken, given+later, later, lits(s.st))
		if !s.loop {
			continue
		}
		if len(conns) > 0 {
			connects++
			c.Must(len(conns) == 1 && given == 0 && later == 1, "when", what, pos, "a slot is given back %d times although a connection was made, and %d times at its end", given, later)
		} else {
			misses++
			c.Must(later == 0, "when", what, pos, "a slot is given back by a goroutine although no connection was made (%s)", lits(s.st))
		}
		r.inStep(s, conns, count)
	}
	c.Floor("ways to connect", connects, 1)
	c.Floor("ways not to connect", misses, 3)
	r.onlyHere(count)
	r.capacity()
}

// path names a span by what it does, not by where.
func path(c *Ctx, s *span) string {
	var w []string
	for _, e := range s.es {
		switch e.Kind {
		case "call", "go":
			if strings.HasPrefix(e.Name, "net.") || strings.HasPrefix(e.Name, "p2p.") {
				n := e.Name[strings.LastIndex(e.Name, ".")+1:]
				if len(e.Res) == 2 && e.Res[1] != eng.Nil {
					n += "!"
				}
				w = append(w, n)
			}
		}
	}
	return strings.Join(w, " ")
}

// ended: before position i the events wait for the quit signal of connection
// p and then for its workers.
func ended(st *State, es []*Ev, i int, p *T, pt *types.Named) bool {
	quit := false
	for j, e := range es {
		if j >= i {
			break
		}
		if e.Kind == "recv" && chanType(e.Args[0]) == "chan struct{}" {
			quit = true
		}
		if e.Kind == "wg" && e.Name == "Wait" && quit && eng.Root(e.Args[0]) == p {
			return true
		}
	}
	return false
}

func chanType(t *T) string {
	if t.Typ == nil {
		return ""
	}
	return typeName(t.Typ)
}

// counter is the pool's number of connections: the field that is counted up
// and down.
func (r *poolRun) counter() *T {
	var ct *T
	see := func(e *Ev) {
		if e.Kind == "atomic" && strings.HasPrefix(e.Name, "Add") && eng.Root(e.Args[0]) == r.pool {
			if ct != nil && ct != e.Args[0] {
				r.c.Fail("anchor", "counter", e.Pos, "the pool has several counters")
			}
			ct = e.Args[0]
		}
	}
	for _, s := range r.spans {
		for _, e := range allEvents(s.es) {
			see(e)
		}
		for _, k := range s.kids {
			for _, p := range k.ps {
				for _, e := range allEvents(p.St.Events()) {
					see(e)
				}
			}
		}
	}
	if ct == nil {
		r.c.Fail("anchor", "counter", r.main.Pos, "the pool has no counter of its connections that is changed atomically")
	}
	return ct
}

// tally is what events do to the counter and the table of connected peers.
type tally struct {
	add      int64
	set, del []*Ev
	setAt    int
	delAt    int
	addAt    int
}

func (r *poolRun) tally(es []*Ev, count *T) tally {
	var t tally
	for i, e := range es {
		switch {
		case e.Kind == "atomic" && count != nil && e.Args[0] == count && !strings.HasPrefix(e.Name, "Load"):
			k, ok := int64(0), false
			if strings.HasPrefix(e.Name, "Add") && len(e.Args) == 2 {
				k, ok = e.Args[1].Int64()
			}
			if !r.c.Must(ok, "step", "counter "+e.Name, e.Pos, "the number of connections is changed by something else than a fixed step") {
				continue
			}
			t.add += k
			t.addAt = i
		case e.Kind == "mapset" && r.table(e.Args[0]) == "ConnectedPeers":
			t.set = append(t.set, e)
			t.setAt = i
		case e.Kind == "mapdel" && r.table(e.Args[0]) == "ConnectedPeers":
			t.del = append(t.del, e)
			t.delAt = i
		}
	}
	return t
}

// inStep: counter and table change together with the connection.
func (r *poolRun) inStep(s *span, conns []*T, count *T) {
	c := r.c
	t := r.tally(allEvents(s.es), count)
	pos := r.main.Pos
	if len(conns) == 0 {
		c.Must(t.add == 0 && len(t.set)+len(t.del) == 0, "step", "no connection", pos, "the connections counted change by %d, the table by %d entries, although no connection was made or ended", t.add, len(t.set)-len(t.del))
		return
	}
	c.Must(t.add == 1 && len(t.set) == 1 && len(t.del) == 0, "step", "connect", pos, "a new connection changes the number of connections by %d and enters %d into the table", t.add, len(t.set))
	if len(t.set) != 1 {
		return
	}
	ends := 0
	for _, k := range s.kids {
		for _, p := range k.ps {
			es := p.St.Events()
			u := r.tally(allEvents(es), count)
			if u.add == 0 && len(u.set)+len(u.del) == 0 {
				continue
			}
			ends++
			c.Must(u.add == -1 && len(u.del) == 1 && len(u.set) == 0, "step", "disconnect", k.ev.Pos, "the end of a connection changes the number of connections by %d and removes %d from the table", u.add, len(u.del))
			if len(u.del) != 1 {
				continue
			}
			c.Must(same(p.St, u.del[0].Args[1], t.set[0].Args[1]), "step", "same", k.ev.Pos, "connected under %v, the peer is removed from the table as %v", t.set[0].Args[1], u.del[0].Args[1])
			c.Must(ended(p.St, es, u.delAt, conns[0], r.pt) && ended(p.St, es, u.addAt, conns[0], r.pt), "step", "after", k.ev.Pos, "a peer is taken for disconnected before its connection has ended")
			// from then on it may be dialled again
			for i, e := range es {
				if e.Kind == "put" && r.isStatus(e.Args[0]) {
					c.Must(i > u.delAt && i > u.addAt, "step", "before redial", e.Pos, "a peer can be dialled again before it is removed from the table of connected peers: the entry of the new connection would be removed")
				}
			}
			c.Must(s.before(k, t.set[0]), "step", "order", k.ev.Pos, "a peer is entered into the table of connected peers after the goroutine that removes it has been started")
		}
	}
	c.Must(ends > 0, "step", "ends", pos, "nothing removes a connected peer from the table when its connection ends")
}

// before: e happens before goroutine k is started.
func (s *span) before(k *kid, e *Ev) bool {
	for i, o := range s.es {
		if i >= k.at {
			return false
		}
		if o == e {
			return true
		}
	}
	return false
}

func (r *poolRun) isStatus(a *T) bool {
	o, f := eng.Owner(a)
	return o == "p2p.peerInfo" && f == "Status"
}

// fieldUses are the functions that use a field of the pool in a way that
// counts.
func (c *Ctx) fieldUses(t *types.Named, field string, counts func(v ssa.Value, in ssa.Instruction) bool) map[*ssa.Function]token.Pos {
	r := map[*ssa.Function]token.Pos{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) {
					continue
				}
				if t.Underlying().(*types.Struct).Field(fa.Field).Name() != field {
					continue
				}
				seen := map[ssa.Value]bool{}
				var walk func(v ssa.Value)
				walk = func(v ssa.Value) {
					if seen[v] || v.Referrers() == nil {
						return
					}
					seen[v] = true
					for _, u := range *v.Referrers() {
						if counts(v, u) {
							r[f] = u.Pos()
						}
						switch i := u.(type) {
						case *ssa.UnOp:
							if i.Op == token.MUL {
								walk(i)
							}
						case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
							walk(i.(ssa.Value))
						}
					}
				}
				walk(fa)
			}
		}
	}
	return r
}

// leaks: the value is stored or handed on where it cannot be followed.
func leaks(v ssa.Value, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Store:
		return i.Val == v
	case *ssa.MakeClosure, *ssa.Return, *ssa.Send, *ssa.MapUpdate:
		return true
	case ssa.CallInstruction:
		if _, ok := i.Common().Value.(*ssa.Builtin); ok {
			return false
		}
		if f := i.Common().StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "sync") {
			return false
		}
		for _, a := range i.Common().Args {
			if a == v {
				return true
			}
		}
	}
	return false
}

// onlyHere: slots, counter and table are changed nowhere else.
func (r *poolRun) onlyHere(count *T) {
	c := r.c
	check := func(field string, uses map[*ssa.Function]token.Pos) {
		n := 0
		for _, f := range sortedFuncs(uses) {
			n++
			c.Must(r.reach[f], "only-here", field+" "+eng.FuncName(f), uses[f], "%s changes %s of the pool outside of making and ending connections", eng.FuncName(f), field)
		}
		c.Floor("functions that change "+field, n, 1)
	}
	check(r.slots.A[0].S, c.fieldUses(r.t, r.slots.A[0].S, func(v ssa.Value, in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Send:
			return i.Chan == v
		case *ssa.UnOp:
			return i.Op == token.ARROW
		case *ssa.Select:
			return true
		case *ssa.Store:
			_, fresh := i.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
			return i.Addr == v && !fresh
		}
		if b, ok := builtinCall(in); ok {
			return b == "close"
		}
		return leaks(v, in)
	}))
	check("ConnectedPeers", c.fieldUses(r.t, "ConnectedPeers", mapChanges))
	if count != nil {
		check(count.S, c.fieldUses(r.t, count.S, func(v ssa.Value, in ssa.Instruction) bool {
			if ci, ok := in.(ssa.CallInstruction); ok {
				f := ci.Common().StaticCallee()
				return f == nil || !strings.HasPrefix(f.Name(), "Load")
			}
			if s, ok := in.(*ssa.Store); ok {
				_, fresh := s.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
				return !fresh
			}
			return false
		}))
	}
}

func builtinCall(in ssa.Instruction) (string, bool) {
	if ci, ok := in.(ssa.CallInstruction); ok {
		if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
			return b.Name(), true
		}
	}
	return "", false
}

// mapChanges: the instruction changes map v, or replaces it at address v.
func mapChanges(v ssa.Value, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.MapUpdate:
		return i.Map == v
	case *ssa.Store:
		if i.Addr == v {
			_, fresh := v.(*ssa.FieldAddr).X.(*ssa.Alloc)
			return !fresh
		}
	}
	if b, ok := builtinCall(in); ok {
		return b == "delete" || b == "clear"
	}
	return leaks(v, in)
}

func sortedFuncs[V any](m map[*ssa.Function]V) []*ssa.Function {
	by := map[string]*ssa.Function{}
	for f := range m {
		by[eng.FuncName(f)+f.String()] = f
	}
	var r []*ssa.Function
	for _, n := range sortedKeys(by) {
		r = append(r, by[n])
	}
	return r
}

// makers are the functions that build a pool.
func (r *poolRun) makers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), r.t) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// capacity: there are as many slots as connections allowed.
func (r *poolRun) capacity() {
	c := r.c
	n := 0
	for _, f := range r.makers() {
		x := c.Exec(eng.Config{})
		ps := x.Run(f, nil)
		for _, p := range ps {
			for _, w := range x.Writes(p.St) {
				if w.Addr.Op != "fa" || w.Addr.S != r.slots.A[0].S || w.Val.Op != "mkchan" {
					continue
				}
				n++
				k, ok := eng.ChanCap(w.Val)
				want := int64(15)
				c.Must(ok && k == want, "limit", eng.FuncName(f), f.Pos(), "the pool has %v connection slots instead of %d", w.Val, want)
			}
		}
		c.Done(x, ps)
	}
	c.Floor("pools built", n, 1)
}

// ---- N07 ----

var dials = map[string]bool{"net.DialTCP": true, "net.Dial": true, "net.DialTimeout": true, "net.Dialer.Dial": true, "net.Dialer.DialContext": true}

// dialled are the successful dials among the events.
func dialled(st *State, es []*Ev) []*Ev {
	var r []*Ev
	for _, e := range es {
		if e.Kind == "call" && dials[e.Name] && len(e.Res) == 2 && st.Facts().Eval(eng.IsNil(e.Res[1])) != 0 {
			r = append(r, e)
		}
	}
	return r
}

// closes: some event closes connection conn.
// mapHas: whether key k is in map m, 1 yes, 0 no, -1 unknown. A map of
// pointers holds no nil.
func mapHas(st *State, m, k *T) int {
	r := st.Facts().Eval(eng.CondOf(eng.MapHas(m, k)))
	if r >= 0 || m.Typ == nil {
		return r
	}
	mt, ok := m.Typ.Underlying().(*types.Map)
	if !ok {
		return r
	}
	if b, ok := mt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return st.Facts().Eval(eng.CondOf(eng.MapGet(m, k, mt.Elem())))
	}
	if _, ok := mt.Elem().Underlying().(*types.Pointer); !ok {
		return r
	}
	if r = st.Facts().Eval(eng.IsNil(eng.MapGet(m, k, mt.Elem()))); r >= 0 {
		return 1 - r
	}
	return r
}

func closes(es []*Ev, conn *T) bool {
	for _, e := range es {
		if e.Kind == "call" && (e.Name == "net.Conn.Close" || e.Name == "net.TCPConn.Close") {
			if v, _ := inner(e.Args[0]); v == conn {
				return true
			}
		}
	}
	return false
}

func runN07(c *Ctx) {
	r := c.runPool(nil)
	if r == nil {
		return
	}
	kept, closed := 0, 0
	see := func(x *eng.Exec, st *State, es []*Ev, what string) {
		all := allEvents(es)
		for _, d := range dialled(st, all) {
			conn := d.Res[0]
			owner := false
			for _, p := range started(es) {
				a, t := c.peerField(p, "net.Conn")
				if a == nil {
					return
				}
				if v, _ := inner(x.Load(st, a, t)); v == conn {
					owner = true
				}
			}
			if owner {
				kept++
				continue
			}
			closed++
			c.Must(closes(all, conn), "closed", what, d.Pos, "a dialled connection is given up without closing it: %s", lits(st))
		}
	}
	for _, s := range r.spans {
		see(r.x, s.st, s.es, s.name+" "+path(c, s))
		for _, k := range s.kids {
			for _, p := range k.ps {
				see(k.x, p.St, p.St.Events(), "goroutine")
			}
		}
	}
	c.Floor("ways that keep the connection", kept, 1)
	c.Floor("ways that give the connection up", closed, 3)
	// nothing else dials
	n := 0
	for _, f := range c.P.Funcs {
		for d := range dials {
			if callsExtern(f, d) {
				n++
				c.Must(r.reach[f] || r.reach[outermost(f)], "only-here", eng.FuncName(f), f.Pos(), "%s dials outside of what was analysed", eng.FuncName(f))
			}
		}
	}
	c.Floor("functions that dial", n, 1)
	// disconnecting closes
	for _, name := range []string{"Disconnect", "Close"} {
		f := c.Method("p2p", "Peer", name)
		if f == nil {
			continue
		}
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		a, t := c.peerField(as[0], "net.Conn")
		if a == nil {
			return
		}
		conn := x.Load(x.Start(), a, t)
		done := 0
		for _, p := range ps {
			if p.End != "return" {
				c.Fail("ends", name, p.Pos, "%s can end in a %s", name, p.End)
				continue
			}
			if lost(p.St, p.St.Events(), as[0]) {
				continue // somebody else is shutting down
			}
			done++
			c.Must(closes(allEvents(p.St.Events()), conn), "disconnect", name, p.Pos, "%s leaves the socket open: %s", name, lits(p.St))
			for _, e := range p.St.Events() {
				if closes([]*Ev{e}, conn) {
					break
				}
				w := waitsFor(e)
				c.Must(w == "", "disconnect", name+" waits", e.Pos, "%s waits for %s before it closes the socket, which may never come", name, w)
			}
		}
		c.Floor("ways through "+name+" that shut down", done, 1)
		c.Done(x, ps)
	}
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// claims are the attempts in the events to claim connection p exclusively for
// shutting it down: won says at which event, lost that one failed. A claim is
// a compare-and-swap of a flag from clear to set, a sync.Once, or a flag that
// is found clear and set under one hold of a lock.
func claims(st *State, es []*Ev, p *T) (won int, lost bool) {
	won = -1
	fs := st.Facts()
	for i, e := range es {
		switch {
		case e.Kind == "atomic" && strings.HasPrefix(e.Name, "CompareAndSwap") && eng.Root(e.Args[0]) == p && len(e.Res) == 1 && len(e.Args) == 3,
			e.Kind == "once" && eng.Root(e.Args[0]) == p && len(e.Res) == 1:
			switch fs.Eval(eng.CondOf(e.Res[0])) {
			case 1:
				if e.Kind == "once" || isClear(e.Args[1]) && isSet(e.Args[2]) {
					won = i
				}
			case 0:
				lost = true
			}
		case e.Kind == "put" && eng.Root(e.Args[0]) == p && isSet(e.Args[1]) && len(e.Held) > 0:
			for _, l := range st.Lits() {
				if !l.Pos && l.T.Op == "ld" && l.T.A[0] == e.Args[0] {
					won = i
				}
			}
		}
	}
	for _, l := range st.Lits() {
		if l.Pos && l.T.Op == "ld" && l.T.A[0].Op == "fa" && l.T.A[0].A[0] == p && l.T.Typ != nil && typeName(l.T.Typ) == "bool" {
			lost = true
		}
	}
	return
}

func isClear(t *T) bool {
	n, ok := t.Int64()
	return t == eng.False || ok && n == 0
}

func isSet(t *T) bool {
	n, ok := t.Int64()
	return t == eng.True || ok && n == 1
}

// lost: an attempt to claim a flag of connection p exclusively failed.
func lost(st *State, es []*Ev, p *T) bool {
	w, l := claims(st, es, p)
	return l && w < 0
}

// ---- N03 ----

func runN03(c *Ctx) {
	stat := c.status()
	it, pt := c.Named("p2p", "peerInfo"), c.Named("p2p", "Peer")
	t := c.poolType()
	if stat == nil || it == nil || pt == nil || t == nil {
		return
	}
	c.banning(stat, it)
	c.banLasts(t)
	c.bannedStaysOut(stat, it)
	// a connection that is being set up
	type pub struct {
		rec, peer *T
		ok        bool
		what      string
		pos       token.Pos
	}
	var pubs []pub
	r := c.runPool(func(r *poolRun, st *State, e *Ev) {
		if e.Kind != "put" {
			return
		}
		o, f := eng.Owner(e.Args[0])
		if o != "p2p.peerInfo" || f != "Peer" && f != "Status" {
			return
		}
		rec := eng.Root(e.Args[0])
		if f == "Status" && st.Facts().Eval(eng.EqInt(e.Args[1], eng.Int(r.stat["psConnected"]))) == 0 || f == "Peer" && e.Args[1] == eng.Nil {
			return
		}
		cur := r.x.Load(st, eng.FieldAddr(rec, r.it, "Status"), eng.FieldType(r.it, "Status"))
		held := false
		for _, l := range st.HeldLocks() {
			held = held || !l.R && eng.Root(l.Key) == rec
		}
		pubs = append(pubs, pub{rec, e.Args[1], held && st.Facts().Eval(eng.EqInt(cur, eng.Int(r.stat["psBanned"]))) == 0, f, e.Pos})
	})
	if r == nil {
		return
	}
	n := 0
	for _, p := range pubs {
		n++
		c.Must(p.ok, "meanwhile", p.what, p.pos, "a connection is recorded (%s) without checking, under the lock of the record, that its peer has not been banned meanwhile", p.what)
	}
	c.Floor("places that record a connection", n, 2)
	conns := 0
	for _, s := range r.spans {
		for _, p := range started(s.es) {
			conns++
			rec, at := r.recorded(s, p)
			if !c.Must(rec != nil, "recorded", "connection", r.main.Pos, "a connection is made without recording it where a ban finds it") {
				continue
			}
			for i, e := range s.es {
				if e.Kind == "wg" && e.Name == "Add" && eng.Root(e.Args[0]) == p {
					c.Must(i > at, "recorded", "order", e.Pos, "the workers of a connection start before a ban could find the connection")
				}
			}
			key := r.keyOf(rec)
			if !c.Must(key != nil, "recorded", "table", r.main.Pos, "the record of a connection is %v, which does not come from the table of known peers", rec) {
				continue
			}
			a, at2 := c.peerField(p, "string")
			if a != nil {
				v := r.x.Load(s.st, a, at2)
				c.Must(same(s.st, v, key), "address", "connection", r.main.Pos, "a peer known as %v is banned as %v", key, v)
			}
		}
	}
	c.Floor("ways to connect", conns, 1)
	// records lead to a ban only through the table
	c.Sample("%d writes that record a connection", n)
}

// recorded is the peer record in which connection p is entered, and when.
func (r *poolRun) recorded(s *span, p *T) (*T, int) {
	for i, e := range s.es {
		if e.Kind == "put" && e.Args[1] == p {
			if o, f := eng.Owner(e.Args[0]); o == "p2p.peerInfo" && f == "Peer" {
				return eng.Root(e.Args[0]), i
			}
		}
	}
	return nil, 0
}

// keyOf is the address under which record rec was found in the table of known
// peers.
func (r *poolRun) keyOf(rec *T) *T {
	if rec.Op == "mget" && r.table(rec.A[0]) == "PeersTable" {
		return rec.A[1]
	}
	return nil
}

// banning checks what Ban does.
func (c *Ctx) banning(stat map[string]int64, it *types.Named) {
	f := c.poolMethod("Ban")
	if f == nil {
		return
	}
	x := c.Exec(eng.Config{})
	as := eng.ParamSyms(f)
	ps := x.Run(f, as)
	r := &poolRun{c: c, pool: as[0]}
	known := 0
	for _, p := range ps {
		if !c.Must(p.End == "return", "ends", "Ban", p.Pos, "banning can end in a %s: %s", p.End, lits(p.St)) {
			continue
		}
		es := p.St.Events()
		set, del := -1, -1
		var tab *T
		for i, e := range es {
			if e.Kind == "loop" {
				c.Fail("ban", "loop", e.Pos, "banning goes through a loop that was not expected")
			}
			if e.Kind == "mapset" && r.table(e.Args[0]) == "BannedPeers" && same(p.St, e.Args[1], as[1]) && e.Args[2] != eng.False && set < 0 {
				set = i
			}
			if e.Kind == "mapdel" && r.table(e.Args[0]) == "PeersTable" && same(p.St, e.Args[1], as[1]) {
				del, tab = i, e.Args[0]
			}
		}
		c.Must(set >= 0, "ban", "recorded", p.Pos, "an address is banned without being recorded: %s", lits(p.St))
		if set < 0 {
			continue
		}
		if del < 0 {
			// nothing to remove?
			gone := false
			for i, e := range es {
				gone = gone || i > set && e.Kind == "mapget" && r.table(e.Args[0]) == "PeersTable" && e.Args[1] == as[1] && mapHas(p.St, e.Args[0], as[1]) == 0
			}
			c.Must(gone, "ban", "forgotten", p.Pos, "a banned address stays in the table of known peers: %s", lits(p.St))
			continue
		}
		c.Must(set < del || together(es, del, set), "ban", "order", es[del].Pos, "a banned address is removed from the table before it is recorded as banned: it can be entered again in between")
		has := mapHas(p.St, tab, as[1])
		rec := eng.MapGet(tab, as[1], types.NewPointer(it))
		if has == 0 || p.St.Facts().Eval(eng.IsNil(rec)) == 1 {
			continue
		}
		if !c.Must(has == 1 || p.St.Facts().Eval(eng.IsNil(rec)) == 0, "ban", "looks", p.Pos, "the record of a banned peer is not looked up together with removing it: a connection that is being set up would be missed (%s)", lits(p.St)) {
			continue
		}
		known++
		// mark and connection under one hold of the lock
		mark, peer := -1, (*T)(nil)
		for i, e := range es {
			if e.Kind == "put" && r.isStatus(e.Args[0]) && eng.Root(e.Args[0]) == rec {
				if mark < 0 && same(p.St, e.Args[1], eng.Int(stat["psBanned"])) {
					mark = i
				} else {
					mark = -2
				}
			}
		}
		if !c.Must(mark >= 0, "ban", "marked", p.Pos, "the record of a banned peer is not marked as banned: a connection that is being set up would be kept (%s)", lits(p.St)) {
			continue
		}
		// the connection read in that hold, or later
		a := eng.FieldAddr(rec, it, "Peer")
		for _, l := range p.St.Lits() {
			l.T.Any(func(u *T) bool {
				if u.Op == "ld" && u.A[0] == a {
					peer = u
				}
				return false
			})
		}
		if !c.Must(peer != nil, "ban", "looks at the connection", p.Pos, "banning does not look whether the peer is connected") {
			continue
		}
		late := c.readAfterLock(f, as, es, mark, peer)
		c.Must(late, "ban", "connection", p.Pos, "the connection of a banned peer is looked up before the record is marked: one that is recorded in between would be missed")
		switch p.St.Facts().Eval(eng.IsNil(peer)) {
		case 1:
			continue
		case 0:
			ca, ct := c.peerField(peer, "net.Conn")
			if ca == nil {
				return
			}
			conn := x.Load(p.St, ca, ct)
			c.Must(lost(p.St, es, peer) || closes(es, conn), "ban", "closed", p.Pos, "the connection of a banned peer stays open: %s", lits(p.St))
		default:
			c.Fail("ban", "closed", p.Pos, "whether a banned peer is connected does not decide what happens")
		}
	}
	c.Floor("ways to ban a known peer", known, 2)
	c.Done(x, ps)
}

// readAfterLock: value v, read from the record that event mark writes, was
// read under the same hold of the record's lock as the mark, or later.
func (c *Ctx) readAfterLock(f *ssa.Function, as []*T, es []*Ev, mark int, v *T) bool {
	// the value a read gives right at the mark, and after it
	ok := false
	var x *eng.Exec
	on := false
	x = c.Exec(eng.Config{OnEvent: func(st *State, e *Ev) {
		if e.Kind == "put" && e.Args[0] == es[mark].Args[0] {
			on = true
		}
		if on && !ok && x.Load(st, v.A[0], v.Typ) == v {
			ok = true
		}
	}})
	x.Run(f, as)
	return ok
}

// together: events i and j happen under one hold of a lock of the table.
func together(es []*Ev, i, j int) bool {
	if i > j {
		i, j = j, i
	}
	for _, l := range es[i].Held {
		ok := false
		for _, m := range es[j].Held {
			ok = ok || m.Key == l.Key
		}
		for k := i; k < j; k++ {
			if es[k].Kind == "lock" && strings.HasSuffix(es[k].Name, "nlock") && es[k].Args[0] == l.Key {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// banLasts: nothing takes an address off the list of banned ones.
func (c *Ctx) banLasts(t *types.Named) {
	uses := c.fieldUses(t, "BannedPeers", func(v ssa.Value, in ssa.Instruction) bool {
		if _, ok := in.(*ssa.MapUpdate); ok {
			return false
		}
		return mapChanges(v, in)
	})
	for _, f := range sortedFuncs(uses) {
		c.Fail("lasts", eng.FuncName(f), uses[f], "%s takes addresses off the list of banned peers", eng.FuncName(f))
	}
	sets := c.fieldUses(t, "BannedPeers", func(v ssa.Value, in ssa.Instruction) bool {
		m, ok := in.(*ssa.MapUpdate)
		if ok && m.Map == v && types.Identical(m.Value.Type().Underlying(), types.Typ[types.Bool]) {
			k, isK := m.Value.(*ssa.Const)
			c.Must(isK && k.Value != nil && constant.BoolVal(k.Value), "lasts", "value", in.Pos(), "an address is recorded as not banned")
		}
		return ok && m.Map == v
	})
	c.Floor("functions that ban", len(sets), 1)
	// what IsBan answers
	f := c.poolMethod("IsBan")
	if f == nil {
		return
	}
	x := c.Exec(eng.Config{})
	as := eng.ParamSyms(f)
	ps := x.Run(f, as)
	r := &poolRun{c: c, pool: as[0]}
	for _, p := range ps {
		if !c.Must(p.End == "return" && len(p.Res) == 1, "ends", "IsBan", p.Pos, "IsBan can end in a %s", p.End) {
			continue
		}
		ok := false
		for _, e := range p.St.Events() {
			if e.Kind == "mapget" && r.table(e.Args[0]) == "BannedPeers" && e.Args[1] == as[1] {
				has := eng.CondOf(eng.MapHas(e.Args[0], as[1]))
				if mt, is := e.Args[0].Typ.Underlying().(*types.Map); is && types.Identical(mt.Elem().Underlying(), types.Typ[types.Bool]) && p.Res[0].Op == "mget" {
					has = eng.CondOf(eng.MapGet(e.Args[0], as[1], mt.Elem()))
				}
				res := eng.CondOf(p.Res[0])
				a, b := p.St.Fork(), p.St.Fork()
				ok = ok || (!a.Assume(has) || a.Facts().Eval(res) == 1) && (!b.Assume(has.Not()) || b.Facts().Eval(res) == 0)
			}
		}
		c.Must(ok, "answer", "IsBan", p.Pos, "IsBan answers %v, not whether the address is recorded as banned", p.Res[0])
	}
	c.Done(x, ps)
}

// bannedStaysOut: an address is entered into the table of known peers only
// after checking, under the lock of the table, that it is not banned.
func (c *Ctx) bannedStaysOut(stat map[string]int64, it *types.Named) {
	n := 0
	c.eachEntry(func(r *poolRun, x *eng.Exec, st *State, es []*Ev, i int) {
		n++
		e := es[i]
		ok := false
		for j := 0; j < i; j++ {
			o := es[j]
			if o.Kind == "mapget" && r.table(o.Args[0]) == "BannedPeers" && same(st, o.Args[1], e.Args[1]) && mapHas(st, o.Args[0], o.Args[1]) == 0 && together(es, j, i) {
				ok = true
			}
		}
		c.Must(ok, "out", "entry", e.Pos, "an address is entered into the table of known peers without checking, under the lock of the table, that it is not banned: %s", lits(st))
	})
	c.Floor("places that enter an address", n, 1)
}

// eachEntry reports every entry into the table of known peers.
func (c *Ctx) eachEntry(use func(r *poolRun, x *eng.Exec, st *State, es []*Ev, i int)) {
	t := c.poolType()
	if t == nil {
		return
	}
	uses := c.fieldUses(t, "PeersTable", func(v ssa.Value, in ssa.Instruction) bool {
		m, ok := in.(*ssa.MapUpdate)
		return ok && m.Map == v || !ok && leaks(v, in)
	})
	f := c.poolMethod("Add")
	if f == nil {
		return
	}
	x := c.Exec(eng.Config{})
	as := eng.ParamSyms(f)
	ps := x.Run(f, as)
	r := &poolRun{c: c, pool: as[0]}
	for _, p := range ps {
		if !c.Must(p.End == "return", "ends", "Add", p.Pos, "entering an address can end in a %s: %s", p.End, lits(p.St)) {
			continue
		}
		es := p.St.Events()
		for i, e := range es {
			if e.Kind == "mapset" && r.table(e.Args[0]) == "PeersTable" {
				use(r, x, p.St, es, i)
			}
		}
		walkEvents(p.St, es, func(st *State, q []*Ev, e *Ev) {
			if e.Kind == "mapset" && r.table(e.Args[0]) == "PeersTable" {
				for _, o := range es {
					if o == e {
						return
					}
				}
				c.Fail("entry", "loop", e.Pos, "addresses are entered in a loop")
			}
		})
	}
	c.Done(x, ps)
	for _, g := range sortedFuncs(uses) {
		c.Must(x.Visited[g], "only-here", "PeersTable "+eng.FuncName(g), uses[g], "%s enters addresses into the table of known peers outside of Add", eng.FuncName(g))
	}
	c.Floor("functions that enter addresses", len(uses), 1)
}

func init() {
	register("N06", "resource counting over all paths of the pool's goroutines, closures and loop summaries (abstract interpretation over SSA)",
		"For every way through the loop of the pool, together with the goroutines it starts: slots taken and given back, the counter of connections and the table of connected peers, summed per connection; what a watcher gives back comes after the end of the connection. Who else touches the slots, the counter or the table is found by a scan of all uses of these fields.", runN06)
	register("N07", "typestate of dialled sockets over all paths and goroutines (abstract interpretation over SSA)",
		"Every path on which a dial succeeds either closes that socket or records it as the connection of a peer with both workers running; disconnecting closes the socket of the connection whatever happened before.", runN07)
	register("N03", "case analysis of banning, interleaving argument over lock regions and re-checks (abstract interpretation over SSA)",
		"Ban: the table entries removed and added, the final status and the closing of the connection for every state of the record. Entering an address, dialling and listing: the check against the list of banned addresses, or the status read again under the same lock after the last moment at which a ban could have passed unseen.", runN03)
}
