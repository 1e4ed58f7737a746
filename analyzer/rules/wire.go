package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

const (
	headerLen = 11
	maxLen    = 20000000
)

// messages are the types with a pointer that is a p2p.Message.
func (c *Ctx) messages() []*types.Named {
	m := c.Named("p2p", "Message")
	if m == nil {
		return nil
	}
	it, ok := m.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	for _, pkg := range c.P.Packages() {
		for _, n := range sortedKeys(pkg.Members) {
			t, ok := pkg.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if ok && !types.IsInterface(nt) && types.Implements(types.NewPointer(nt), it) {
				r = append(r, nt)
			}
		}
	}
	return r
}

// decoders are the Read methods of the messages.
func (c *Ctx) decoders() map[string]string {
	r := map[string]string{}
	for _, t := range c.messages() {
		if f := c.P.MethodOf(types.NewPointer(t), "Read"); f != nil {
			r[eng.FuncName(f)] = typeName(t)
		}
	}
	return r
}

// frameOf describes what follows head h of a message.
type frameOf struct{ h *T }

func (f frameOf) magic() *T { return eng.SubBytes(f.h, eng.Zero, eng.Int(2)) }
func (f frameOf) code() *T {
	return eng.Num("8", eng.SubBytes(f.h, eng.Int(2), eng.Int(3)), types.Typ[types.Uint8])
}
func (f frameOf) size() *T {
	return eng.Num("64be", eng.SubBytes(f.h, eng.Int(3), eng.Int(headerLen)), types.Typ[types.Uint64])
}
func (f frameOf) end() *T  { return eng.AddN(f.size(), headerLen) }
func (f frameOf) body() *T { return eng.SubBytes(f.h, eng.Int(headerLen), f.end()) }
func (f frameOf) next() *T { return eng.From(f.h, f.end()) }

func (f frameOf) checked(st *State) string {
	fs := st.Facts()
	if fs.Eval(eng.EqBytes("", f.magic(), eng.Str("T4"))) != 1 {
		return "the network magic has not been checked"
	}
	if fs.Eval(eng.Le(f.size(), eng.Int(maxLen))) != 1 {
		return fmt.Sprintf("the announced length has not been checked against %d", maxLen)
	}
	return ""
}

// inner is the value in an interface.
func inner(t *T) (*T, string) {
	if t.Op == "iface" && len(t.A) == 1 {
		return t.A[0], typeName(eng.TypeOf(t.S))
	}
	return t, ""
}

// source is what reader r still holds: either the content itself or, for a
// limited reader, the first n bytes of another reader.
func source(x *eng.Exec, st *State, r *T) (content, limited, under *T, n *T) {
	v, tn := inner(r)
	if tn == "*io.LimitedReader" {
		lt := eng.TypeOf(r.S).(*types.Pointer).Elem()
		under = x.Load(st, eng.FieldAddr(v, lt, "R"), eng.FieldType(lt, "R"))
		n = x.Load(st, eng.FieldAddr(v, lt, "N"), eng.FieldType(lt, "N"))
		return nil, v, under, n
	}
	if tn == "*bytes.Buffer" {
		return x.Load(st, v, eng.TypeOf(r.S).(*types.Pointer).Elem()), nil, nil, nil
	}
	return x.Rest(st, v), nil, nil, nil
}

// readStart is the reader and the head of the frame of which e decodes the body.
func (c *Ctx) decodeAt(x *eng.Exec, st *State, e *Ev, what string) (frameOf, *T, bool) {
	r := e.Args[len(e.Args)-1]
	content, lim, under, n := source(x, st, r)
	switch {
	case lim != nil:
		u, _ := inner(under)
		rest := x.Rest(st, u)
		if rest == nil || rest.Op != "from" || rest.A[1] != eng.Int(headerLen) {
			c.Must(false, "framed", what, e.Pos, "%s decodes from a stream that does not stand right behind a header: %v", what, rest)
			return frameOf{}, nil, false
		}
		f := frameOf{rest.A[0]}
		ok := c.Must(same(st, n, f.size()), "framed", what, e.Pos, "%s may read %v bytes, the message has %v", what, n, f.size())
		return f, lim, ok
	case content != nil && content.Op == "sub":
		f := frameOf{content.A[0]}
		ok := c.Must(same(st, content, f.body()), "framed", what, e.Pos, "%s decodes %v, the message is %v", what, content, f.body())
		return f, nil, ok
	}
	c.Must(false, "framed", what, e.Pos, "%s does not decode exactly the announced bytes but from %v", what, content)
	return frameOf{}, nil, false
}

func isDecode(dec map[string]string, e *Ev) bool {
	return e.Kind == "call" && len(e.Args) == 2 && (dec[e.Name] != "" || e.Name == "p2p.Message.Read")
}

// peerField is the address of the field of Peer with the given type.
func (c *Ctx) peerField(p *T, typ string) (*T, types.Type) {
	pt := c.Named("p2p", "Peer")
	if pt == nil {
		return nil, nil
	}
	s := pt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == typ {
			return eng.FieldAddr(p, pt, s.Field(i).Name()), s.Field(i).Type()
		}
	}
	c.Fail("anchor", "p2p.Peer "+typ, token.NoPos, "Peer has no field of type %s", typ)
	return nil, nil
}

// loopsIn are the loops the paths went through, by record.
func loopsIn(ps []Path) []*eng.Loop {
	seen := map[*eng.Loop]bool{}
	var r []*eng.Loop
	var walk func(es []*Ev)
	walk = func(es []*Ev) {
		for _, e := range es {
			if e.Kind == "loop" && e.Rec != nil && !seen[e.Rec] {
				seen[e.Rec] = true
				r = append(r, e.Rec)
				for _, t := range e.Rec.Trans {
					walk(t.Events)
				}
			}
		}
	}
	for _, p := range ps {
		walk(p.St.Events())
	}
	return r
}

func (c *Ctx) workerOpaque(dec map[string]string) func(*ssa.Function, []*T) bool {
	return func(f *ssa.Function, _ []*T) bool {
		n := eng.FuncName(f)
		return dec[n] != "" || n == "p2p.Syncer.ProcessMessage" || f.Name() == "Hash" && strings.HasPrefix(n, "consensus.") ||
			n == "p2p.Peer.Disconnect" || n == "p2p.Peer.Close"
	}
}

// stream is the variable of loop l that stands for the unread input.
func stream(l *eng.Loop, conn *T) *eng.LoopVar {
	for _, v := range l.Vars {
		if v.Cell != nil && v.Cell.Op == "cell" && v.Cell.S == "rest" && len(v.Cell.A) == 1 && v.Cell.A[0].Mentions(conn) && !v.Cell.A[0].Mentions(l.K) {
			return v
		}
	}
	return nil
}

func runC06(c *Ctx) {
	dec := c.decoders()
	c.Floor("message decoders", len(dec), 13)
	// messages that are expected
	if f := c.Func("p2p", "ReadMessage"); f != nil {
		as := eng.ParamSyms(f)
		var x *eng.Exec
		type at struct {
			lim *T
			f   frameOf
		}
		frames := map[*Ev]at{}
		x = c.Exec(eng.Config{Opaque: c.workerOpaque(dec), OnEvent: func(st *State, e *Ev) {
			if !isDecode(dec, e) {
				return
			}
			fr, lim, ok := c.decodeAt(x, st, e, "ReadMessage")
			if !ok {
				return
			}
			frames[e] = at{lim, fr}
			c.Must(fr.h == eng.Mk("stream", "", as[0]), "first", "ReadMessage", e.Pos, "ReadMessage decodes from %v, not the next frame of its reader", fr.h)
			why := fr.checked(st)
			c.Must(why == "", "checked", "ReadMessage", e.Pos, "ReadMessage decodes although %s", why)
			tp := false
			for _, g := range st.Events() {
				if g.Kind == "call" && g.Name == "p2p.Message.Type" && g.Args[0] == as[1] && len(g.Res) == 1 && st.Facts().Eval(eng.EqInt(g.Res[0], fr.code())) == 1 {
					tp = true
				}
			}
			c.Must(tp, "expected", "ReadMessage", e.Pos, "ReadMessage decodes a message without knowing that its type is the expected one")
			c.Must(e.Args[0] == as[1], "expected", "ReadMessage decoder", e.Pos, "ReadMessage decodes into %v, not the expected message", e.Args[0])
		}})
		ps := x.Run(f, as)
		ok := 0
		for _, p := range splitAll(ps) {
			if p.End != "return" {
				c.Fail("ends", "ReadMessage "+c.P.Pos(p.Pos), p.Pos, "ReadMessage can end in a %s", p.End)
				continue
			}
			if retErr(p) {
				continue
			}
			ok++
			c.Must(retNil(p), "decided", "ReadMessage", p.Pos, "it is not decided whether ReadMessage fails")
			var d *Ev
			n := 0
			drained := map[*T]bool{}
			for _, e := range p.St.Events() {
				if isDecode(dec, e) {
					d, n = e, n+1
				}
				if e.Kind == "drain" && e.Res[0] == eng.Nil && e.Name != "io.CopyN" && d != nil {
					drained[e.Args[0]] = true
				}
				if e.Kind == "read" {
					v, _ := inner(e.Args[0])
					c.Must(v == as[0], "stream", "ReadMessage", e.Pos, "ReadMessage reads %v: what that buffers is lost for the next message", v)
				}
			}
			if !c.Must(n == 1, "once", "ReadMessage", p.Pos, "ReadMessage succeeds after decoding %d times", n) {
				continue
			}
			fr, known := frames[d]
			if !known {
				continue
			}
			c.Must(p.St.Facts().Eval(eng.IsNil(d.Res[0])) == 1, "decoded", "ReadMessage", p.Pos, "ReadMessage succeeds although decoding may have failed")
			rest := x.Rest(p.St, as[0])
			if fr.lim != nil {
				c.Must(drained[fr.lim], "next", "ReadMessage", p.Pos, "what the decoder left of the message is taken for the next one")
			} else {
				c.Must(rest != nil && same(p.St, rest, fr.f.next()), "next", "ReadMessage", p.Pos, "after the message the reader stands at %v, not at the next header", rest)
			}
		}
		c.Floor("successful paths of ReadMessage", ok, 1)
		c.Done(x, ps)
	}
	// messages from a connected peer
	loops, decs := 0, 0
	heads := map[*T]bool{}
	cfg := eng.Config{Opaque: c.workerOpaque(dec)}
	lims := map[string]*T{}
	var cur *eng.Exec
	cfg.OnEvent = func(st *State, e *Ev) {
		if !isDecode(dec, e) || cur == nil {
			return
		}
		decs++
		fr, lim, ok := c.decodeAt(cur, st, e, c.at(e))
		if !ok {
			return
		}
		heads[fr.h] = true
		lims[e.Instr.String()+e.Ctx] = lim
		why := fr.checked(st)
		c.Must(why == "", "checked", c.at(e), e.Pos, "%s decodes although %s", c.at(e), why)
	}
	c.eachWorker(cfg, func(x *eng.Exec) { cur = x }, func(x *eng.Exec, p *T, e *Ev, ps []Path) {
		ca, ct := c.peerField(p, "net.Conn")
		if ca == nil {
			return
		}
		conn := x.Load(x.Start(), ca, ct)
		for _, l := range loopsIn(ps) {
			v := stream(l, conn)
			if v == nil {
				continue
			}
			loops++
			if v.Val == nil {
				c.Fail("next", "worker", l.Pos, "the position in the stream is unknown at the head of the loop")
				continue
			}
			fr := frameOf{v.Val}
			for h := range heads {
				c.Must(h == v.Val, "first", "worker", l.Pos, "a message is decoded from %v, not the frame the loop stands at", h)
			}
			for _, t := range l.Trans {
				var lim *T
				left := false
				for _, e := range t.Events {
					if isDecode(dec, e) {
						if q := lims[e.Instr.String()+e.Ctx]; q != nil {
							lim, left = q, true
						}
					}
					if e.Kind == "drain" && e.Res[0] == eng.Nil && e.Name != "io.CopyN" && e.Args[0] == lim {
						left = false
					}
				}
				if lim != nil {
					c.Must(!left, "next", "worker "+c.code(t, fr), l.Pos, "what the decoder left of a message is taken for the next one")
					continue
				}
				nx := t.Next[v]
				c.Must(nx != nil && same(t.St, nx, fr.next()), "next", "worker "+c.code(t, fr), l.Pos, "after a message the reader stands at %v, not at the next header", nx)
				why := fr.checked(t.St)
				c.Must(why == "", "skipped", "worker "+c.code(t, fr), l.Pos, "a frame is accepted although %s", why)
			}
			c.Sample("loop at %s: %d ways through, each over one frame of 11+n bytes", c.P.Pos(l.Pos), len(l.Trans))
		}
	})
	c.Floor("reading loops of a connection", loops, 1)
	c.Floor("decoding calls of a connection", decs, 11)
}

func (c *Ctx) at(e *Ev) string {
	if e.Fn != nil {
		return eng.FuncName(e.Fn) + " " + e.Name
	}
	return e.Name
}

// code names the message types for which a way through the loop is taken.
func (c *Ctx) code(t *eng.Trans, f frameOf) string {
	for n, k := range codes {
		if t.St.Facts().Eval(eng.EqInt(f.code(), eng.Int(k))) == 1 {
			return n
		}
	}
	return "other"
}

// eachWorker is workers with a hook that sees each interpreter first.
func (c *Ctx) eachWorker(cfg eng.Config, pre func(*eng.Exec), use func(x *eng.Exec, p *T, e *Ev, ps []Path)) int {
	start := c.Method("p2p", "Peer", "Start")
	if start == nil {
		return 0
	}
	quiet := cfg
	quiet.OnEvent, quiet.OnRisk, quiet.OnAccess = nil, nil, nil
	x := c.Exec(quiet)
	as := eng.ParamSyms(start)
	ps := x.Run(start, as)
	n := 0
	seen := map[string]bool{}
	for _, p := range ps {
		for _, e := range p.St.Events() {
			if e.Kind != "go" || seen[c.P.Pos(e.Pos)+e.Name] {
				continue
			}
			seen[c.P.Pos(e.Pos)+e.Name] = true
			wx := c.Exec(cfg)
			if pre != nil {
				pre(wx)
			}
			st := e.St
			if st == nil {
				st = p.St
			}
			wp := wx.RunClosure(e.Args[0], e.Args[1:], st.Spawn(), "")
			n++
			use(wx, as[0], e, wp)
			c.Done(wx, wp)
		}
	}
	c.Done(x, ps)
	return n
}

// ---- C07 ----

// wire is what a sequence of events has written to conn.
type wire struct {
	conn    *T
	out     *T
	pending map[*T]*T
	order   bool // false: the order of the bytes is not known
}

func (w *wire) see(e *Ev) {
	switch e.Kind {
	case "write":
		b, _ := inner(e.Args[0])
		if b == w.conn {
			for _, p := range w.pending {
				if p != eng.Cat() {
					w.order = false
				}
			}
			w.out = eng.Cat(w.out, e.Args[1])
		} else if b.Op == "bufwr" && len(b.A) > 0 && b.A[0] == w.conn {
			if w.pending[b] == nil {
				w.pending[b] = eng.Cat()
			}
			w.pending[b] = eng.Cat(w.pending[b], e.Args[1])
		} else if b.Mentions(w.conn) {
			w.order = false
		}
	case "flush":
		b, _ := inner(e.Args[0])
		if b.Op == "bufwr" && w.pending[b] != nil {
			w.out = eng.Cat(w.out, w.pending[b])
			w.pending[b] = eng.Cat()
		}
	}
}

// written is what events wrote to conn and whether all of it was flushed.
func written(conn *T, es []*Ev) (out *T, clean bool) {
	w := wire{conn: conn, out: eng.Cat(), pending: map[*T]*T{}, order: true}
	for _, e := range es {
		w.see(e)
	}
	clean = w.order
	for _, p := range w.pending {
		if p != eng.Cat() {
			clean = false
		}
	}
	return w.out, clean
}

// frame of message m as the events encode it.
func frameOfMessage(es []*Ev, m *T) *T {
	var data, typ *T
	for _, e := range es {
		if e.Kind != "call" || len(e.Args) == 0 || e.Args[0] != m || len(e.Res) != 1 {
			continue
		}
		switch e.Name {
		case "p2p.Message.Bytes":
			data = e.Res[0]
		case "p2p.Message.Type":
			typ = e.Res[0]
		}
	}
	if data == nil || typ == nil {
		return nil
	}
	return eng.Cat(eng.Str("T4"), eng.U("8", typ), eng.U("64be", eng.Len(data)), data)
}

// failedIO: among the events some write to conn failed. A buffered writer
// remembers its first error, so a later flush cannot succeed.
func failedIO(es []*Ev) (failed, impossible bool) {
	sticky := map[*T]bool{}
	for _, e := range es {
		if e.Kind != "write" && e.Kind != "flush" || len(e.Res) != 1 {
			continue
		}
		b, _ := inner(e.Args[0])
		bad := e.Res[0] != eng.Nil
		if b.Op == "bufwr" {
			if !bad && sticky[b] {
				impossible = true
			}
			sticky[b] = sticky[b] || bad
		}
		failed = failed || bad
	}
	return
}

func runC07(c *Ctx) {
	// one call writes one frame
	if f := c.Func("p2p", "WriteMessage"); f != nil {
		x := c.Exec(eng.Config{})
		as := eng.ParamSyms(f)
		ps := x.Run(f, as)
		good := 0
		for _, p := range splitAll(ps) {
			if p.End != "return" {
				c.Fail("ends", "WriteMessage "+c.P.Pos(p.Pos), p.Pos, "WriteMessage can end in a %s", p.End)
				continue
			}
			failed, impossible := failedIO(p.St.Events())
			if impossible {
				continue
			}
			if failed {
				c.Must(retErr(p), "reported", "WriteMessage", p.Pos, "WriteMessage reports success although writing failed (%s)", lits(p.St))
				continue
			}
			if retErr(p) {
				c.Fail("reported", "WriteMessage spurious", p.Pos, "WriteMessage reports a failure that did not happen (%s)", lits(p.St))
				continue
			}
			good++
			out, clean := written(as[0], p.St.Events())
			want := frameOfMessage(p.St.Events(), as[1])
			c.Must(clean, "flushed", "WriteMessage", p.Pos, "WriteMessage reports success before everything is flushed")
			c.Must(want != nil && same(p.St, out, want), "frame", "WriteMessage", p.Pos, "WriteMessage writes %v, the frame is %v", out, want)
			c.Sample("WriteMessage writes %v", out)
		}
		c.Floor("successful paths of WriteMessage", good, 1)
		c.Done(x, ps)
	}
	// the worker that sends
	loops := 0
	c.eachWorker(eng.Config{Opaque: c.workerOpaque(c.decoders())}, nil, func(x *eng.Exec, p *T, e *Ev, ps []Path) {
		ca, ct := c.peerField(p, "net.Conn")
		if ca == nil {
			return
		}
		conn := x.Load(x.Start(), ca, ct)
		qa, qt := c.peerField(p, "chan p2p.Message")
		if qa == nil {
			return
		}
		queue := x.Load(x.Start(), qa, qt)
		for _, l := range loopsIn(ps) {
			sends := false
			for _, t := range l.Trans {
				if out, clean := written(conn, t.Events); out != eng.Cat() || !clean {
					sends = true
				}
				for _, e := range t.Events {
					if e.Kind == "recv" && e.Args[0] == queue {
						sends = true
					}
				}
			}
			if !sends {
				continue
			}
			loops++
			for _, t := range l.Trans {
				var m []*T
				for _, e := range t.Events {
					if e.Kind == "recv" && e.Args[0] == queue {
						m = append(m, e.Res[0])
					}
				}
				out, clean := written(conn, t.Events)
				failed, impossible := failedIO(t.Events)
				if impossible {
					continue
				}
				c.Must(!failed, "ends", "sender", l.Pos, "the sender goes on after a failed write (%s)", lits(t.St))
				want := eng.Cat()
				for _, q := range m {
					if f := frameOfMessage(t.Events, q); f != nil {
						want = eng.Cat(want, f)
					} else {
						want = nil
						break
					}
				}
				c.Must(clean, "flushed", "sender", l.Pos, "the sender goes on before everything is flushed")
				c.Must(want != nil && same(t.St, out, want), "frame", "sender", l.Pos, "for the messages %v taken from the queue the sender writes %v", m, out)
			}
		}
		for _, p := range ps {
			var before []*Ev
			for _, e := range p.St.Events() {
				if e.Kind != "loop" {
					before = append(before, e)
				}
			}
			if failed, _ := failedIO(before); failed {
				continue
			}
			out, _ := written(conn, before)
			c.Must(out == eng.Cat(), "frame", "sender outside the loop", p.Pos, "%s writes %v to the connection", e.Name, out)
		}
	})
	c.Floor("sending loops of a connection", loops, 1)
	c.writers()
}

// writers: only one goroutine of a connection can reach a write to it.
func (c *Ctx) writers() {
	pt := c.Named("p2p", "Peer")
	start := c.Method("p2p", "Peer", "Start")
	if pt == nil || start == nil {
		return
	}
	hasWrite := func(t types.Type) bool {
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Write")
		_, ok := o.(*types.Func)
		return ok
	}
	isConn := func(t types.Type) bool { n := typeName(t); return n == "net.Conn" || n == "*net.TCPConn" }
	var sites []*ssa.Function
	at := map[*ssa.Function]string{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				hit := false
				switch i := in.(type) {
				case *ssa.ChangeInterface:
					hit = isConn(i.X.Type()) && hasWrite(i.Type()) && !isConn(i.Type())
				case *ssa.MakeInterface:
					hit = isConn(i.X.Type()) && hasWrite(i.Type()) && !isConn(i.Type())
				case ssa.CallInstruction:
					cc := i.Common()
					if cc.IsInvoke() {
						hit = isConn(cc.Value.Type()) && (cc.Method.Name() == "Write" || cc.Method.Name() == "ReadFrom")
					} else if s := cc.StaticCallee(); s != nil && s.Signature.Recv() != nil && isConn(s.Signature.Recv().Type()) {
						hit = s.Name() == "Write" || s.Name() == "ReadFrom"
					}
				}
				if hit {
					if at[f] == "" {
						sites = append(sites, f)
					}
					at[f] = c.P.Pos(in.Pos())
				}
			}
		}
	}
	c.Floor("functions that write to a connection", len(sites), 3)
	g := c.callGraph()
	up := g.up(sites)
	var root *ssa.Function
	spawns := 0
	starting := g.down(start)
	var starts []cgEdge
	for _, f := range c.P.Funcs {
		if starting[f] {
			starts = append(starts, g.out[f]...)
		}
	}
	for _, e := range starts {
		if !e.spawn {
			continue
		}
		for h := range g.down(e.to) {
			if at[h] != "" {
				spawns++
				root = e.to
				c.Must(!inLoop(e.in), "single-writer", "spawn in a loop", e.in.Pos(), "Start spawns the writer %s in a loop", eng.FuncName(e.to))
				break
			}
		}
	}
	if !c.Must(spawns == 1, "single-writer", "Start", start.Pos(), "%d goroutines of a connection can write to it", spawns) {
		return
	}
	down := g.down(root)
	usesConn := func(f *ssa.Function) token.Pos {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != typeName(types.NewPointer(pt)) || typeName(fa.Type()) != "*net.Conn" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				return in.Pos()
			}
		}
		return token.NoPos
	}
	n := 0
	for f := range up {
		pos := usesConn(f)
		if pos == token.NoPos {
			continue
		}
		n++
		if !c.Must(down[f], "single-writer", eng.FuncName(f), pos, "%s uses the connection of a peer and can reach a write (in %s) outside of the sending goroutine", eng.FuncName(f), strings.Join(siteNames(at), ", ")) {
			continue
		}
		for _, e := range g.in[f] {
			if e.spawn && f == root && starting[e.from] {
				continue
			}
			c.Must(down[e.from] && !e.spawn, "single-writer", eng.FuncName(f)+" from "+eng.FuncName(e.from), e.in.Pos(), "%s, which writes to a connection, is also run from %s", eng.FuncName(f), eng.FuncName(e.from))
		}
	}
	c.Floor("functions of the sending goroutine that write", n, 1)
	c.Sample("writes to a connection are in %s; only %s, spawned once by Start, reaches them with the connection of a peer", strings.Join(siteNames(at), ", "), eng.FuncName(root))
}

func siteNames(at map[*ssa.Function]string) []string {
	m := map[string]bool{}
	for f := range at {
		m[eng.FuncName(f)] = true
	}
	return sortedKeys(m)
}

// inLoop: the block of in can reach itself.
func inLoop(in ssa.Instruction) bool {
	b := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		h := work[0]
		work = work[1:]
		if h == b {
			return true
		}
		if !seen[h] {
			seen[h] = true
			work = append(work, h.Succs...)
		}
	}
	return false
}

// ---- C08 ----

func runC08(c *Ctx) {
	dec := c.decoders()
	byName := map[string]int64{}
	for _, t := range c.messages() {
		n := typeName(t)
		f := c.P.MethodOf(types.NewPointer(t), "Type")
		if f == nil {
			continue
		}
		x := c.Exec(eng.Config{})
		for _, p := range x.Run(f, nil) {
			if k, ok := p.Res[0].Int64(); ok && p.End == "return" {
				byName[n] = k
			}
		}
		c.Done(x, nil)
		if want, ok := codes[n]; ok && want != 0 {
			got, known := byName[n]
			c.Must(known && got == want, "code", n, f.Pos(), "%s has message code %d, the protocol's is %d", n, got, want)
		}
	}
	loops := 0
	c.eachWorker(eng.Config{Opaque: c.workerOpaque(dec)}, nil, func(x *eng.Exec, p *T, e *Ev, ps []Path) {
		ca, ct := c.peerField(p, "net.Conn")
		sa, stt := c.peerField(p, "*p2p.Syncer")
		if ca == nil || sa == nil {
			return
		}
		conn := x.Load(x.Start(), ca, ct)
		syncer := x.Load(x.Start(), sa, stt)
		for _, l := range loopsIn(ps) {
			v := stream(l, conn)
			if v == nil || v.Val == nil {
				continue
			}
			loops++
			fr := frameOf{v.Val}
			handled := map[string]int{}
			for _, t := range l.Trans {
				for code := int64(0); code < 256; code++ {
					st := t.St.Fork()
					if st.Facts().Eval(eng.EqInt(fr.code(), eng.Int(code))) == 0 || !st.Assume(eng.EqInt(fr.code(), eng.Int(code))) {
						continue
					}
					c.dispatch(t, st, code, byName, dec, p, syncer, l, handled)
				}
			}
			for _, n := range sortedKeys(codes) {
				if codes[n] != 0 {
					c.Must(handled[n] > 0, "handled", n, l.Pos, "the worker never goes on after a %s: messages of this type end the connection", n)
				}
			}
			c.Sample("%d ways through the loop at %s, messages %v", len(l.Trans), c.P.Pos(l.Pos), sortedKeys(handled))
		}
	})
	c.Floor("reading loops of a connection", loops, 1)
}

// embedded is the message type outer if its Read is promoted from in.
func (c *Ctx) embedded(outer, in string) string {
	for _, t := range c.messages() {
		if typeName(t) != outer || outer == in {
			continue
		}
		o, path, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), "Read")
		f, ok := o.(*types.Func)
		if !ok || len(path) < 2 {
			continue
		}
		r := f.Type().(*types.Signature).Recv().Type()
		if strings.TrimPrefix(typeName(r), "*") == in {
			return outer
		}
	}
	return ""
}

// keeps: the object itself goes to the chain, the mempool and other
// connections, not what it contains.
var keeps = map[string]bool{"consensus.Block": true, "consensus.Transaction": true}

// dispatch checks one way through the reading loop for one message code.
func (c *Ctx) dispatch(t *eng.Trans, st *State, code int64, byName map[string]int64, dec map[string]string, peer, syncer *T, l *eng.Loop, handled map[string]int) {
	want := ""
	for n, k := range codes {
		if k == code && k != 0 {
			want = n
		}
	}
	key := fmt.Sprint("code ", code)
	if want != "" {
		key = want
	}
	var d *Ev
	var target *T
	decoded, processed := 0, 0
	for _, e := range t.Events {
		if isDecode(dec, e) {
			decoded++
			d = e
			n := dec[e.Name]
			target = e.Args[0]
			if v, tn := inner(target); n == "" {
				n, target = strings.TrimPrefix(tn, "*"), v
			}
			if o := c.embedded(want, n); o != "" && target.Op == "fa" {
				n = o // promoted from an embedded message
				for target.Op == "fa" {
					target = target.A[0]
				}
			}
			c.Must(n == want, "decoded-as", key, e.Pos, "a message with code %d (%s) is decoded as %s", code, want, n)
			c.Must(processed == 0, "order", key, e.Pos, "a %s is processed before it is decoded", want)
		}
		if e.Kind == "call" && e.Name == "p2p.Syncer.ProcessMessage" {
			processed++
			v, tn := inner(e.Args[2])
			c.Must(e.Args[0] == syncer && e.Args[1] == peer, "handed", key+" whose", e.Pos, "a %s is not handed over for the connection it came from", want)
			if keeps[want] && decoded == 1 {
				o := eng.Root(target)
				c.Must(!(o.Op == "al" && !o.Mentions(l.K) || o.Op == "glob" || o == eng.Root(peer)), "fresh", key, e.Pos, "every %s of a connection is decoded into the same object, although the one before may still be in use", want)
			}
			c.Must(decoded == 1 && v == target && strings.TrimPrefix(tn, "*") == want, "handed", key, e.Pos, "what is handed over for a %s is a %s at %v, decoded was %v", want, tn, v, target)
		}
	}
	if want == "" {
		ok := decoded == 0 && processed == 0 && code == protocolConsts["MsgTypeGetCompactBlock"]
		c.Must(ok, "unknown", key, l.Pos, "the connection goes on after a message with the unsupported code %d", code)
		return
	}
	c.Must(decoded == 1, "decoded", key, l.Pos, "a %s is decoded %d times", want, decoded)
	if decoded == 1 {
		c.Must(st.Facts().Eval(eng.IsNil(d.Res[0])) == 1, "error", key, l.Pos, "the connection goes on although decoding a %s may have failed", want)
	}
	n := 1
	if want == "consensus.CompactBlock" {
		n = 0
	}
	c.Must(processed == n, "processed", key, l.Pos, "a %s is handed over %d times", want, processed)
	handled[want]++
}

func init() {
	register("C06", "stream-position dataflow over SSA paths and loop summaries",
		"ReadMessage and the reading worker of a connection are interpreted over an arbitrary input stream. At every call of a decoder the reader it is given must hold exactly the bytes [11, 11+n) behind the current header, with the magic, n <= 20,000,000 (and in ReadMessage the expected type) established on that path; at the end of every accepted message the stream must stand at byte 11+n.", runC06,
		"io.LimitReader, io.ReadFull, io.Copy, bufio.Reader and bytes.Reader behave as documented", "decoders only read from the reader they are given")
	register("C07", "output-sequence dataflow over SSA paths, call-graph reachability for the single writer",
		"The bytes every path of WriteMessage and every turn of the sending worker puts on the connection are computed symbolically and compared with magic, code, length and encoding of the message taken; success must be reported only after all of it is flushed and no write failed. In the call graph, of the goroutines that Start spawns exactly one reaches a write to the connection of a peer, and nothing else does.", runC07,
		"bufio.Writer remembers its first error and reports it on Flush")
	register("C08", "case analysis over loop summaries of the reading worker",
		"For every value of the message-code byte and every way through the reading loop consistent with it: the decoder called, the object handed to ProcessMessage, their order and number, and that the loop only continues when decoding succeeded.", runC08)
}
