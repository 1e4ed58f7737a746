package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- N08 ----

func runN08(c *Ctx) {
	pt := c.Named("p2p", "Peer")
	if pt == nil {
		return
	}
	quit, queue := fieldOfType(pt, "chan struct{}"), fieldOfType(pt, "chan p2p.Message")
	if !c.Must(quit != "" && queue != "", "anchor", "p2p.Peer", token.NoPos, "Peer has not one quit channel and one sending queue") {
		return
	}
	c.setOnce(pt, quit)
	c.setOnce(pt, queue)
	flags := c.quitOnce(pt, quit)
	c.workers(pt, quit, flags)
	c.waiting(pt, quit)
	c.sending(pt, quit, queue)
	c.peersBuilt(pt, quit, queue)
}

// freshStore: the store builds a new object.
func freshStore(s *ssa.Store) bool {
	a := s.Addr
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			if _, ok := v.X.(*ssa.Alloc); ok {
				return true
			}
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		default:
			return false
		}
	}
}

// freshly: the store initialises an object that its function, or whoever calls
// it, has just built.
func (c *Ctx) freshly(s *ssa.Store) bool {
	if freshStore(s) {
		return true
	}
	a := s.Addr
	for {
		f, ok := a.(*ssa.FieldAddr)
		if !ok {
			break
		}
		a = f.X
	}
	seen := map[*ssa.Parameter]bool{}
	var fresh func(v ssa.Value) bool
	fresh = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return v.Heap
		case *ssa.Parameter:
			f := v.Parent()
			if seen[v] || f.Parent() != nil || token.IsExported(f.Name()) {
				return false
			}
			seen[v] = true
			at := -1
			for i, q := range f.Params {
				if q == v {
					at = i
				}
			}
			in := c.callGraph().in[f]
			for _, e := range in {
				ci, ok := e.in.(ssa.CallInstruction)
				if !ok || e.spawn || ci.Common().StaticCallee() != f || !fresh(ci.Common().Args[at]) {
					return false
				}
			}
			return len(in) > 0
		}
		return false
	}
	return fresh(a)
}

// setOnce: a field of connections is set when one is built, and never again.
func (c *Ctx) setOnce(pt *types.Named, field string) {
	n := 0
	uses := c.fieldUses(pt, field, func(v ssa.Value, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if ok && s.Addr == v {
			n++
		}
		return ok && s.Addr == v && !c.freshly(s)
	})
	for _, f := range sortedFuncs(uses) {
		c.Fail("kept", field+" "+eng.FuncName(f), uses[f], "%s replaces the %s channel of a connection in use", eng.FuncName(f), field)
	}
	c.Floor("places that set "+field, n, 1)
}

// quitOnce: the quit channel of a connection is closed exactly by whoever
// claims the connection.
func (c *Ctx) quitOnce(pt *types.Named, quit string) map[string]bool {
	closers := c.fieldUses(pt, quit, func(v ssa.Value, in ssa.Instruction) bool {
		if b, ok := builtinCall(in); ok {
			return b == "close"
		}
		if s, ok := in.(*ssa.Store); ok && s.Addr == v {
			return !freshStore(s)
		}
		return leaks(v, in)
	})
	roots := map[*ssa.Function]token.Pos{}
	for f, pos := range closers {
		roots[outermost(f)] = pos
	}
	for _, n := range []string{"Disconnect", "Close"} {
		if f := c.Method("p2p", "Peer", n); f != nil {
			roots[f] = f.Pos()
		}
	}
	flags := map[string]bool{}
	n := 0
	reached := map[*ssa.Function]bool{}
	for _, f := range sortedFuncs(roots) {
		x := c.Exec(eng.Config{})
		ps := x.Run(f, eng.ParamSyms(f))
		for g := range x.Visited {
			reached[g] = true
		}
		for _, p := range ps {
			if !c.Must(p.End == "return", "ends", eng.FuncName(f), p.Pos, "%s can end in a %s", eng.FuncName(f), p.End) {
				continue
			}
			es := p.St.Events()
			all := allEvents(es)
			closed, whose, at := 0, (*T)(nil), -1
			for _, e := range all {
				if e.Kind == "close" && isQuit(e.Args[0], quit) {
					closed++
					whose = chanOwner(e.Args[0])
				}
			}
			for i, e := range es {
				if e.Kind == "close" && isQuit(e.Args[0], quit) {
					at = i
				}
			}
			if closed > 0 {
				n++
				w, _ := claims(p.St, es, whose)
				c.Must(closed == 1 && at >= 0 && w >= 0 && w < at, "once", eng.FuncName(f), p.Pos, "%s gives the quit signal %d times without having claimed the connection first: %s", eng.FuncName(f), closed, lits(p.St))
				if w >= 0 && es[w].Args[0].Op == "fa" {
					flags[es[w].Args[0].S] = true
				}
				continue
			}
			// claimed without giving the signal
			for _, e := range es {
				if e.Kind != "atomic" && e.Kind != "once" && e.Kind != "put" {
					continue
				}
				r := eng.Root(e.Args[0])
				w, _ := claims(p.St, es, r)
				c.Must(w < 0, "given", eng.FuncName(f), p.Pos, "%s claims a connection without giving its quit signal: %s", eng.FuncName(f), lits(p.St))
			}
		}
		c.Done(x, ps)
	}
	for _, f := range sortedFuncs(closers) {
		c.Must(reached[f], "analysable", "close in "+eng.FuncName(f), closers[f], "%s closes or replaces a quit channel in a way that is not followed", eng.FuncName(f))
	}
	c.Floor("ways to give the quit signal", n, 2)
	c.Floor("functions that close a quit channel", len(closers), 1)
	// the flag claimed is never cleared
	for _, flag := range sortedKeys(flags) {
		uses := c.fieldUses(pt, flag, func(v ssa.Value, in ssa.Instruction) bool {
			switch i := in.(type) {
			case *ssa.Store:
				return i.Addr == v && !freshStore(i) && !constSet(i.Val)
			case ssa.CallInstruction:
				g := i.Common().StaticCallee()
				if g == nil {
					return true
				}
				n := g.Name()
				return !(strings.HasPrefix(n, "Load") || strings.HasPrefix(n, "CompareAndSwap") || n == "Do")
			}
			return false
		})
		for _, f := range sortedFuncs(uses) {
			c.Fail("once", "flag "+eng.FuncName(f), uses[f], "%s changes the flag that says a connection is shutting down", eng.FuncName(f))
		}
		// whoever claims it gives the signal
		cas := c.fieldUses(pt, flag, func(v ssa.Value, in ssa.Instruction) bool {
			if ci, ok := in.(ssa.CallInstruction); ok {
				g := ci.Common().StaticCallee()
				return g != nil && (strings.HasPrefix(g.Name(), "CompareAndSwap") || g.Name() == "Do")
			}
			return false
		})
		for _, f := range sortedFuncs(cas) {
			c.Must(reached[f], "given", "flag "+eng.FuncName(f), cas[f], "%s claims a connection without giving its quit signal", eng.FuncName(f))
		}
	}
	return flags
}

// claimed: the flag of connection p was seen to be set.
func claimed(st *State, es []*Ev, p *T, flags map[string]bool) bool {
	for _, e := range es {
		if e.Kind == "atomic" && strings.HasPrefix(e.Name, "Load") && e.Args[0].Op == "fa" && flags[e.Args[0].S] && e.Args[0].A[0] == p && len(e.Res) == 1 {
			r := e.Res[0]
			if st.Facts().Eval(eng.EqInt(r, eng.Zero)) == 0 || st.Facts().Eval(eng.CondOf(r)) == 1 {
				return true
			}
		}
	}
	return false
}

func constSet(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && (k.Value.String() == "true" || k.Value.String() == "1")
}

// isQuit: t is the quit channel of some connection.
func isQuit(t *T, quit string) bool {
	t = eng.Unversioned(t)
	return t.Op == "ld" && t.A[0].Op == "fa" && t.A[0].S == quit
}

// chanOwner is the object whose field channel t was read from, or the one it
// belongs to.
func chanOwner(t *T) *T {
	t = eng.Unversioned(t)
	if t.Op == "ld" {
		t = t.A[0]
	}
	return eng.Root(t)
}

// blocking events on a connection that end when it is shut down, and the
// results that say so.
func ioError(e *Ev) *T {
	switch e.Kind {
	case "read", "write", "flush":
	case "call":
		if e.Name != "p2p.ReadMessage" && e.Name != "p2p.WriteMessage" && !strings.HasSuffix(e.Name, ".Read") && !strings.HasPrefix(e.Name, "io.Read") && !strings.HasPrefix(e.Name, "io.Copy") && !strings.HasPrefix(e.Name, "bufio.Reader.") {
			return nil
		}
	default:
		return nil
	}
	if len(e.Res) == 0 {
		return nil
	}
	return e.Res[len(e.Res)-1]
}

// workers: Start accounts for what it starts; each worker ends, says so once
// and takes the connection down.
func (c *Ctx) workers(pt *types.Named, quit string, flags map[string]bool) {
	start := c.Method("p2p", "Peer", "Start")
	if start == nil {
		return
	}
	x := c.Exec(eng.Config{})
	as := eng.ParamSyms(start)
	ps := x.Run(start, as)
	for _, p := range ps {
		if !c.Must(p.End == "return", "ends", "Start", p.Pos, "Start can end in a %s", p.End) {
			continue
		}
		var add int64
		spawned := int64(0)
		for _, e := range p.St.Events() {
			switch e.Kind {
			case "wg":
				if e.Name == "Add" && eng.Root(e.Args[0]) == as[0] {
					k, ok := e.Args[1].Int64()
					c.Must(ok, "accounts", "Start", e.Pos, "Start announces %v workers", e.Args[1])
					add += k
				}
				c.Must(e.Name == "Add", "accounts", "Start "+e.Name, e.Pos, "Start calls %s of the wait group", e.Name)
			case "go":
				spawned++
				c.Must(spawned <= add, "accounts", "order", e.Pos, "a worker is started before it is announced: waiting may end too early")
			case "loop":
				for _, o := range allEvents([]*Ev{e}) {
					c.Must(o.Kind != "go" && o.Kind != "wg", "accounts", "loop", o.Pos, "workers are started in a loop")
				}
			}
		}
		c.Must(add == spawned && spawned >= 2, "accounts", "Start", p.Pos, "Start announces %d workers and starts %d", add, spawned)
	}
	c.Done(x, ps)
	g := c.callGraph()
	dec := c.decoders()
	dis, cl := c.Method("p2p", "Peer", "Disconnect"), c.Method("p2p", "Peer", "Close")
	opaque := c.workerOpaque(dec)
	cfg := eng.Config{Opaque: func(f *ssa.Function, as []*T) bool { return f != dis && f != cl && opaque(f, as) }}
	n := c.eachWorker(cfg, nil, func(x *eng.Exec, peer *T, e *Ev, ps []Path) {
		name := e.Name[strings.LastIndex(e.Name, ".")+1:]
		if i := strings.IndexByte(name, '@'); i > 0 {
			name = name[:i]
		}
		if f := method(eng.FnOf(e.Args[0])); f != nil {
			for h := range g.down(f) {
				c.Must(!callsExtern(h, "sync.WaitGroup.Wait"), "ends", name+" waits", h.Pos(), "a worker (%s) can wait for the end of workers in %s", name, eng.FuncName(h))
			}
		}
		for _, p := range ps {
			if p.End == "fatal" {
				continue // N11
			}
			if !c.Must(p.End == "return", "ends", name, p.Pos, "a worker (%s) can end in a %s: %s", name, p.End, lits(p.St)) {
				continue
			}
			es := p.St.Events()
			done := 0
			for _, o := range es {
				if o.Kind == "wg" && o.Name == "Done" && eng.Root(o.Args[0]) == peer {
					done++
				}
			}
			for _, l := range es {
				if l.Kind == "loop" {
					for _, o := range allEvents([]*Ev{l})[1:] {
						c.Must(o.Kind != "wg", "reports", name+" loop", o.Pos, "a worker (%s) reports its end in a loop", name)
					}
				}
			}
			c.Must(done == 1, "reports", name, p.Pos, "a worker (%s) reports its end %d times: %s", name, done, lits(p.St))
			w, l := claims(p.St, es, peer)
			c.Must(w >= 0 || l || claimed(p.St, es, peer, flags), "takes-down", name, p.Pos, "a worker (%s) ends without shutting the connection down: %s", name, lits(p.St))
		}
		// nothing keeps it going
		io := 0
		for _, l := range loopsIn(ps) {
			for _, t := range l.Trans {
				if t.St.Facts() == nil {
					continue
				}
				stops := 0
				for _, o := range t.Events {
					switch {
					case o.Kind == "select" || o.Kind == "recv" || o.Kind == "send":
						stops++
					case ioError(o) != nil:
						stops++
					}
					if o.Kind == "recv" {
						c.Must(!(isQuit(o.Args[0], quit) && chanOwner(o.Args[0]) == peer), "leaves", name, o.Pos, "a worker (%s) goes on after the quit signal", name)
						if o.Name != "select" {
							c.Fail("leaves", name+" recv", o.Pos, "a worker (%s) waits for %v without waiting for the quit signal as well", name, o.Args[0])
						}
					}
					if o.Kind == "select" && o.Name == "blocking" {
						ok := false
						for _, a := range o.Args {
							ok = ok || a.Op == "alt" && strings.HasPrefix(a.S, "recv") && len(a.A) > 0 && isQuit(a.A[0], quit) && chanOwner(a.A[0]) == peer
						}
						c.Must(ok, "leaves", name+" select", o.Pos, "a worker (%s) waits without waiting for the quit signal as well", name)
					}
				}
				if stops > 0 {
					io++
				}
			}
		}
		// the loop that does the work: no way through it without IO, none
		// after a failure
		for _, p := range ps {
			for _, l := range p.St.Events() {
				if l.Kind != "loop" || l.Rec == nil {
					continue
				}
				for _, t := range l.Rec.Trans {
					c.goesOn(name, peer, quit, t)
				}
			}
		}
		c.Must(io > 0, "leaves", name+" io", e.Pos, "a worker (%s) has no loop that waits for anything", name)
	})
	c.Floor("workers", n, 2)
}

// goesOn: a way through a worker's loop waits for the connection at least
// once, and does not ignore that it failed.
func (c *Ctx) goesOn(name string, peer *T, quit string, t *eng.Trans) {
	waits := false
	failed, impossible := failedIO(t.Events)
	if impossible {
		return
	}
	pos := token.NoPos
	for _, o := range t.Events {
		if pos == token.NoPos {
			pos = o.Pos
		}
		if o.Kind == "select" && o.Name == "blocking" {
			waits = true
		}
		if r := ioError(o); r != nil && o.Kind != "write" && o.Kind != "flush" {
			v := t.St.Facts().Eval(eng.IsNil(r))
			failed = failed || v == 0
			waits = true
		}
	}
	c.Must(!failed, "leaves", name+" failed", pos, "a worker (%s) goes on after reading or writing has failed: %s", name, lits(t.St))
	c.Must(waits, "leaves", name+" waits", pos, "a worker (%s) can go on without ever noticing that the connection has been shut down: %s", name, lits(t.St))
}

// ownedBy: address a is a field of a t.
func ownedBy(a *T, t *types.Named) bool {
	o, _ := eng.Owner(a)
	return o == t.Obj().Pkg().Name()+"."+t.Obj().Name()
}

// waiting: the end of the workers is waited for after the quit signal.
func (c *Ctx) waiting(pt *types.Named, quit string) {
	n := 0
	for _, f := range c.P.Funcs {
		if !callsExtern(f, "sync.WaitGroup.Wait") || f.Parent() != nil {
			continue
		}
		x := c.Exec(eng.Config{Opaque: dialOpaque})
		ps := x.Run(f, eng.ParamSyms(f))
		for _, p := range ps {
			es := p.St.Events()
			for i, e := range es {
				if e.Kind == "wg" && e.Name == "Wait" && ownedBy(e.Args[0], pt) {
					n++
					ok := false
					for j, o := range es {
						ok = ok || j < i && o.Kind == "recv" && isQuit(o.Args[0], quit) && chanOwner(o.Args[0]) == eng.Root(e.Args[0])
					}
					c.Must(ok, "waits", eng.FuncName(f), e.Pos, "%s waits for the workers of a connection before its quit signal", eng.FuncName(f))
				}
			}
		}
		c.Done(x, ps)
	}
	c.Floor("places that wait for workers", n, 1)
}

// sending: whoever hands a message to a connection gives up when that is shut
// down, and only does so once the workers run.
func (c *Ctx) sending(pt *types.Named, quit, queue string) {
	roots := map[*ssa.Function]token.Pos{}
	uses := c.fieldUses(pt, queue, func(v ssa.Value, in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Send:
			return i.Chan == v
		case *ssa.Select:
			for _, s := range i.States {
				if s.Chan == v && s.Dir == types.SendOnly {
					return true
				}
			}
			return false
		case *ssa.Store:
			return i.Val == v || i.Addr == v && !freshStore(i)
		}
		if b, ok := builtinCall(in); ok {
			return b == "close"
		}
		return leaks(v, in)
	})
	for f, pos := range uses {
		roots[outermost(f)] = pos
	}
	n := 0
	reached := map[*ssa.Function]bool{}
	for _, f := range sortedFuncs(roots) {
		x := c.Exec(eng.Config{Opaque: dialOpaque})
		ps := x.Run(f, eng.ParamSyms(f))
		for g := range x.Visited {
			reached[g] = true
		}
		for _, p := range ps {
			walkEvents(p.St, p.St.Events(), func(st *State, es []*Ev, e *Ev) {
				if e.Kind == "close" && isMsgChan(e.Args[0]) {
					c.Fail("gives-up", eng.FuncName(f)+" close", e.Pos, "%s closes a sending queue: a sender would panic", eng.FuncName(f))
				}
				if e.Kind != "send" || !isMsgChan(e.Args[0]) {
					return
				}
				n++
				ok := false
				for i, o := range es {
					if o == e && i > 0 && es[i-1].Kind == "select" && e.Name == "select" {
						s := es[i-1]
						ok = s.Name != "blocking"
						for _, a := range s.Args {
							ok = ok || a.Op == "alt" && strings.HasPrefix(a.S, "recv") && len(a.A) > 0 && isQuit(a.A[0], quit) && chanOwner(a.A[0]) == chanOwner(e.Args[0])
						}
					}
				}
				c.Must(ok, "gives-up", eng.FuncName(f), e.Pos, "%s can wait for ever to hand a message to a connection that has been shut down", eng.FuncName(f))
			})
		}
		c.Done(x, ps)
	}
	for _, f := range sortedFuncs(uses) {
		c.Must(reached[f], "analysable", "send in "+eng.FuncName(f), uses[f], "%s uses a sending queue in a way that is not followed", eng.FuncName(f))
	}
	c.Floor("places that send", n, 1)
	// the workers run by then
	r := c.runPool(nil)
	if r == nil {
		return
	}
	conns := 0
	for _, s := range r.spans {
		for _, p := range started(s.es) {
			conns++
			adds := int64(0)
			running := int64(0)
			for _, e := range s.es {
				if e.Kind == "wg" && e.Name == "Add" && eng.Root(e.Args[0]) == p {
					k, _ := e.Args[1].Int64()
					adds += k
				}
				if e.Kind == "go" {
					for _, k := range s.kids {
						if k.ev == e && k.worker {
							running++
						}
					}
				}
				if e.Kind == "send" && isMsgChan(e.Args[0]) {
					c.Must((chanOwner(e.Args[0]) == p || e.Args[0] == r.x.Load(s.st, eng.FieldAddr(p, pt, queue), eng.FieldType(pt, queue))) && running >= 2, "running", "connection", e.Pos, "a message is handed to a connection before its workers run: that waits for ever")
				}
			}
			c.Must(adds == running && running == 2, "accounts", "connection", r.main.Pos, "a connection gets %d workers, announced are %d", running, adds)
		}
		if len(started(s.es)) == 0 {
			for _, e := range allEvents(s.es) {
				c.Must(!(e.Kind == "send" && isMsgChan(e.Args[0])), "running", "no connection", e.Pos, "a message is handed to a connection without workers: that waits for ever")
			}
		}
	}
	c.Floor("connections made", conns, 1)
	// Start is called nowhere else
	g := c.callGraph()
	m := 0
	for _, e := range g.in[c.Method("p2p", "Peer", "Start")] {
		m++
		c.Must(r.reach[e.from], "accounts", "Start in "+eng.FuncName(e.from), e.in.Pos(), "%s starts the workers of a connection outside of the pool", eng.FuncName(e.from))
	}
	c.Floor("calls of Start", m, 1)
}

// peersBuilt: every connection has a quit channel and a queue of its own.
func (c *Ctx) peersBuilt(pt *types.Named, quit, queue string) {
	n := 0
	var makers []*ssa.Function
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), pt) {
					makers = append(makers, outermost(f))
				}
			}
		}
	}
	up := c.callGraph().up(makers)
	for _, root := range c.P.Funcs {
		res := root.Signature.Results()
		if !up[root] || !token.IsExported(root.Name()) || res.Len() == 0 || typeName(res.At(0).Type()) != "*p2p.Peer" {
			continue
		}
		x := c.Exec(eng.Config{Opaque: dialOpaque})
		ps := x.Run(root, eng.ParamSyms(root))
		for _, p := range ps {
			if p.End != "return" {
				continue
			}
			for _, r := range p.Res {
				if r.Op != "al" || r.Typ == nil || typeName(r.Typ) != "*p2p.Peer" {
					continue
				}
				n++
				for _, ch := range []string{quit, queue} {
					v := x.Load(p.St, eng.FieldAddr(r, pt, ch), eng.FieldType(pt, ch))
					c.Must(v.Op == "mkchan", "built", eng.FuncName(root)+" "+ch, p.Pos, "%s builds a connection whose %s is %v", eng.FuncName(root), ch, v)
				}
			}
		}
		c.Done(x, ps)
	}
	c.Floor("ways to build a connection", n, 1)
}

func init() {
	register("N08", "typestate of the shutdown protocol over all paths, loop summaries and goroutines (abstract interpretation over SSA)",
		"Every path of Disconnect, Close and whatever else touches a quit channel: it is closed exactly once, by whoever claims the connection through a flag that is never cleared, and by nobody else. Start announces as many workers as it starts, before it starts them. Each worker reports its end once and attempts the shutdown on every path; each way through its loop waits for the connection or for the quit signal and none continues after either failed; none waits for workers. Every hand-over of a message waits for the same connection's quit signal as well and happens after its workers were started.", runN08)
}
