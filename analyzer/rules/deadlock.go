package rules

import (
	"go/token"
	"go/types"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- N10 ----

// effects is what a function may do, itself or through what it calls.
type effects struct {
	locks  map[string]token.Pos // classes of the locks taken
	blocks map[string]token.Pos // what is waited for
}

// lockClass names the kind of lock a key stands for.
func (c *Ctx) lockClass(k *T) string {
	switch k.Op {
	case "fa":
		if o := eng.OwnerType(k); o != nil {
			return typeName(o) + "." + k.S
		}
		return "?." + k.S
	case "ifacelock":
		// the implementations in the repository that hold a lock
		for _, pkg := range c.P.Packages() {
			for _, n := range sortedKeys(pkg.Members) {
				t, ok := pkg.Members[n].(*ssa.Type)
				if !ok {
					continue
				}
				nt, ok := t.Type().(*types.Named)
				if !ok || types.IsInterface(nt) {
					continue
				}
				it, _ := ifaceNamed(c, k.S)
				if it != nil && types.Implements(types.NewPointer(nt), it) {
					for e := range embedded(nt) {
						return typeName(nt) + "." + e
					}
				}
			}
		}
		return "the lock of " + k.S
	}
	return k.String()
}

// ifaceNamed finds an interface type of the repository by its short name.
func ifaceNamed(c *Ctx, name string) (*types.Interface, *types.Named) {
	for _, pkg := range c.P.Packages() {
		for _, n := range sortedKeys(pkg.Members) {
			if t, ok := pkg.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok && typeName(nt) == name {
					it, _ := nt.Underlying().(*types.Interface)
					return it, nt
				}
			}
		}
	}
	return nil, nil
}

func (s *sharing) effects(f *ssa.Function) effects {
	e := effects{map[string]token.Pos{}, map[string]token.Pos{}}
	for h := range s.g.down(f) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if l := acquires(in); l != "" {
					e.locks[l] = in.Pos()
				}
				if w := blocking(in); w != "" {
					e.blocks[w] = in.Pos()
				}
			}
		}
	}
	return e
}

// waitsFor: the event can wait for something other than a lock.
func waitsFor(e *Ev) string {
	switch e.Kind {
	case "recv", "send":
		if e.Name != "select" {
			return "a channel"
		}
	case "select":
		if e.Name == "blocking" {
			return "a channel"
		}
	case "sleep":
		return "time to pass"
	case "wg":
		if e.Name == "Wait" {
			return "the end of goroutines"
		}
	}
	if ci, ok := e.Instr.(ssa.Instruction); ok {
		return blocking(ci)
	}
	return ""
}

func runN10(c *Ctx) {
	s := c.sharing()
	type edge struct{ from, to string }
	order := map[edge]token.Pos{}
	where := map[edge]string{}
	taken, released, waits := 0, 0, 0
	eff := map[*ssa.Function]effects{}
	of := func(f *ssa.Function) effects {
		if e, ok := eff[f]; ok {
			return e
		}
		eff[f] = s.effects(f)
		return eff[f]
	}
	seen := map[*Ev]bool{}
	s.event = func(root *ssa.Function, st *State, e *Ev) {
		if e.Kind == "loop" || seen[e] {
			return
		}
		// events are interned with the locks held
		seen[e] = true
		fn := eng.FuncName(e.Fn)
		if e.Kind == "lock" {
			key := e.Args[0]
			switch e.Name {
			case "Lock", "RLock":
				taken++
				cl := c.lockClass(key)
				for _, l := range e.Held {
					lc := c.lockClass(l.Key)
					if l.Key == key {
						c.Fail("again", fn+" "+cl, e.Pos, "%s takes a lock (%s) that is already held", fn, cl)
						continue
					}
					if lc == cl {
						c.Fail("order", fn+" "+cl, e.Pos, "%s takes a second lock of the same kind (%s): two goroutines can do so in opposite order", fn, cl)
						continue
					}
					if _, ok := order[edge{lc, cl}]; !ok {
						order[edge{lc, cl}] = e.Pos
						where[edge{lc, cl}] = fn
					}
				}
			case "Unlock", "RUnlock":
				released++
				ok := false
				for _, l := range e.Held {
					ok = ok || l.Key == key && l.R == (e.Name == "RUnlock")
				}
				c.Must(ok, "released", fn+" "+c.lockClass(key), e.Pos, "%s releases a lock (%s) that is not held that way", fn, c.lockClass(key))
			}
			return
		}
		w := waitsFor(e)
		if w != "" {
			waits++
		}
		if len(e.Held) == 0 {
			return
		}
		held := c.lockClass(e.Held[len(e.Held)-1].Key)
		c.Must(w == "", "waits", fn+" "+w, e.Pos, "%s waits for %s while it holds a lock (%s)", fn, w, held)
		if e.Kind == "call" || e.Kind == "read" || e.Kind == "write" || e.Kind == "flush" {
			if e.Kind != "call" && len(e.Args) > 0 {
				c.Must(!ioOverNet(e.Args[0]), "waits", fn+" io", e.Pos, "%s waits for the network while it holds a lock (%s)", fn, held)
			}
			// what the callee does
			for _, o := range s.g.out[e.Fn] {
				if o.in != e.Instr || o.spawn {
					continue
				}
				ef := of(o.to)
				for _, b := range sortedKeys(ef.blocks) {
					c.Fail("waits", fn+" calls "+eng.FuncName(o.to), e.Pos, "%s calls %s, which can wait for %s, while it holds a lock (%s)", fn, eng.FuncName(o.to), b, held)
				}
				for _, cl := range sortedKeys(ef.locks) {
					for _, l := range e.Held {
						lc := c.lockClass(l.Key)
						if lc == cl {
							c.Fail("again", fn+" calls "+eng.FuncName(o.to), e.Pos, "%s calls %s, which takes the lock (%s) that is already held", fn, eng.FuncName(o.to), cl)
							continue
						}
						if _, ok := order[edge{lc, cl}]; !ok {
							order[edge{lc, cl}] = e.Pos
							where[edge{lc, cl}] = fn
						}
					}
				}
			}
		}
	}
	ends := 0
	s.end = func(root *ssa.Function, x *eng.Exec, p Path) {
		fn := eng.FuncName(root)
		ends++
		if p.End == "return" {
			for _, l := range p.St.HeldLocks() {
				c.Fail("released", fn+" "+c.lockClass(l.Key), p.Pos, "%s ends while it still holds a lock (%s): %s", fn, c.lockClass(l.Key), lits(p.St))
			}
		}
		c.balanced(fn, p.St.Events(), p.Pos)
	}
	s.run(nil)
	// one order for all
	next := map[string][]string{}
	for e := range order {
		next[e.from] = append(next[e.from], e.to)
	}
	for e, pos := range order {
		seen := map[string]bool{}
		work := []string{e.to}
		cyclic := false
		for len(work) > 0 {
			v := work[0]
			work = work[1:]
			if seen[v] {
				continue
			}
			seen[v] = true
			cyclic = cyclic || v == e.from
			work = append(work, next[v]...)
		}
		c.Must(!cyclic, "order", e.from+" before "+e.to, pos, "%s takes %s while it holds %s; elsewhere it is the other way round", where[e], e.to, e.from)
	}
	// every lock in the source was seen
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isLockOp(in) || blocking(in) != "" {
					c.Must(s.visited[f] || isThunk(f) || f.Synthetic != "", "analysable", eng.FuncName(f), f.Pos(), "%s uses locks or waits in a way that is not followed", eng.FuncName(f))
				}
			}
		}
	}
	c.workersDontWait(s)
	c.Floor("locks taken", taken, 30)
	c.Floor("locks released", released, 30)
	c.Floor("places that wait", waits, 5)
	c.Floor("nested locks", len(order), 2)
	c.Floor("ways in", s.roots, 20)
	c.Floor("goroutines", s.kids, 4)
}

// balanced: a way through a loop leaves the locks as it found them.
func (c *Ctx) balanced(fn string, es []*Ev, pos token.Pos) {
	for _, e := range es {
		if e.Kind != "loop" || e.Rec == nil {
			continue
		}
		for _, t := range e.Rec.Trans {
			n := map[string]int{}
			for _, o := range t.Events {
				if o.Kind == "lock" {
					k := o.Args[0].String()
					switch o.Name {
					case "Lock":
						n[k]++
					case "Unlock":
						n[k]--
					case "RLock":
						n["R"+k]++
					case "RUnlock":
						n["R"+k]--
					}
				}
			}
			for _, k := range sortedKeys(n) {
				c.Must(n[k] == 0, "released", fn+" loop", e.Pos, "%s: a way through a loop takes a lock %d times more than it releases it", fn, n[k])
			}
			c.balanced(fn, t.Events, pos)
		}
	}
}

// ioOverNet: reading or writing t may wait for the network.
func ioOverNet(t *T) bool {
	return t.Any(func(u *T) bool {
		if u.Typ == nil {
			return false
		}
		n := typeName(u.Typ)
		return n == "net.Conn" || n == "*net.TCPConn"
	})
}

// workersDontWait: no goroutine counted by a wait group waits for that kind of
// wait group.
func (c *Ctx) workersDontWait(s *sharing) {
	n := 0
	for _, f := range c.P.Funcs {
		for _, e := range s.g.out[f] {
			if !e.spawn {
				continue
			}
			done := ""
			down := s.g.down(e.to)
			for h := range down {
				if callsExtern(h, "sync.WaitGroup.Done") {
					done = eng.FuncName(h)
				}
			}
			if done == "" {
				continue
			}
			n++
			for h := range down {
				c.Must(!callsExtern(h, "sync.WaitGroup.Wait"), "own-end", eng.FuncName(e.to), h.Pos(), "%s, which others wait for, can itself wait in %s", eng.FuncName(e.to), eng.FuncName(h))
			}
		}
	}
	c.Floor("counted goroutines", n, 2)
}

func init() {
	register("N10", "lock pairing, lock order and blocking-under-lock analysis over all entry points, goroutines and paths (abstract interpretation over SSA)",
		"Every function that can be entered from elsewhere, and every goroutine started on the way, is interpreted with its helpers inlined: each release matches a lock that is held, no path and no way through a loop ends with more locks than it began, none is taken twice, the order in which kinds of locks nest (including those taken by callees behind an interface) has no cycle, and nothing is waited for while one is held. Goroutines counted by a wait group cannot reach a wait.", runN10)
}
