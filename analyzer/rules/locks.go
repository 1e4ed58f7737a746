package rules

import (
	"go/token"
	"go/types"

	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// A sharing run interprets every function another goroutine, package or user
// can enter, with the helpers it calls inlined, and every goroutine started on
// the way. Functions that cannot come near a lock, a shared object or anything
// that blocks are left out.
type sharing struct {
	c       *Ctx
	g       *callGraph
	near    map[*ssa.Function]bool
	visited map[*ssa.Function]bool
	roots   int
	kids    int
	access  func(root *ssa.Function, st *State, write bool, addr *T, owner *types.Named, in ssa.Instruction)
	event   func(root *ssa.Function, st *State, e *Ev)
	end     func(root *ssa.Function, x *eng.Exec, p Path)
}

// sharedType: a type whose objects are made to be used by several goroutines:
// it holds a mutex, a wait group or a channel.
func sharedType(n *types.Named) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if _, ok := t.Underlying().(*types.Chan); ok {
			return true
		}
		if tn, ok := t.(*types.Named); ok && tn.Obj().Pkg() != nil && (tn.Obj().Pkg().Path() == "sync" || tn.Obj().Pkg().Path() == "sync/atomic") {
			return true
		}
	}
	return false
}

// syncField: the field synchronises by itself.
func syncField(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	tn, ok := t.(*types.Named)
	return ok && tn.Obj().Pkg() != nil && tn.Obj().Pkg().Path() == "sync"
}

// ownerOf is the named struct type a field address selects from.
func ownerOf(fa *ssa.FieldAddr) *types.Named {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

// blocking says what an instruction can wait for, "" for nothing. Closing and
// logging do not count.
func blocking(in ssa.Instruction) string {
	switch i := in.(type) {
	case *ssa.Send:
		return "a channel"
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return "a channel"
		}
	case *ssa.Select:
		if i.Blocking {
			return "a channel"
		}
	case *ssa.Next:
		// ranging over a channel is a receive in SSA
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return ""
		}
		c := i.Common()
		if c.IsInvoke() {
			t := c.Value.Type().String()
			if n := c.Method.Name(); (t == "net.Conn" || t == "net.Listener") && (n == "Read" || n == "Write" || n == "Accept") {
				return "the network"
			}
			return ""
		}
		f := c.StaticCallee()
		if f == nil || f.Pkg == nil {
			return ""
		}
		n := f.Name()
		switch f.Pkg.Pkg.Path() {
		case "time":
			if n == "Sleep" {
				return "time to pass"
			}
		case "sync":
			if n == "Wait" {
				return "others"
			}
		case "net":
			if strings.HasPrefix(n, "Dial") || strings.HasPrefix(n, "Resolve") || strings.HasPrefix(n, "Lookup") || strings.HasPrefix(n, "Accept") || n == "Read" || n == "Write" {
				return "the network"
			}
		}
	}
	return ""
}

// acquires is the class of the lock an instruction takes, "" for none.
func acquires(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	f := c.Common().StaticCallee()
	if f == nil || len(c.Common().Args) == 0 {
		return ""
	}
	n := eng.FuncName(f)
	if n == "sync.Mutex.Lock" || n == "sync.RWMutex.Lock" || n == "sync.RWMutex.RLock" {
		if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
			if o := ownerOf(fa); o != nil {
				return typeName(o) + "." + o.Underlying().(*types.Struct).Field(fa.Field).Name()
			}
		}
		return "?"
	}
	return ""
}

func isLockOp(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if c.Common().IsInvoke() {
		switch c.Common().Method.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return true
		}
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "sync")
}

func (c *Ctx) sharing() *sharing {
	s := &sharing{c: c, g: c.callGraph(), near: map[*ssa.Function]bool{}, visited: map[*ssa.Function]bool{}}
	var hot []*ssa.Function
	for _, f := range c.P.Funcs {
		is := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				is = is || blocking(in) != "" || isLockOp(in)
				switch i := in.(type) {
				case *ssa.Go:
					is = true
				case *ssa.FieldAddr:
					if o := ownerOf(i); o != nil && sharedType(o) {
						is = true
					}
				}
			}
		}
		if is {
			hot = append(hot, f)
		}
	}
	// whoever can reach one of these, by any kind of call
	work := hot
	for _, f := range hot {
		s.near[f] = true
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, e := range s.g.in[f] {
			if !s.near[e.from] {
				s.near[e.from] = true
				work = append(work, e.from)
			}
		}
		if p := f.Parent(); p != nil && !s.near[p] {
			s.near[p] = true
			work = append(work, p)
		}
	}
	return s
}

// entered: f can be entered from elsewhere than by a static call.
func (s *sharing) entered(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	if token.IsExported(f.Name()) || f.Name() == "main" || f.Name() == "init" {
		return true
	}
	plain := false
	for _, e := range s.g.in[f] {
		ci, ok := e.in.(*ssa.Call)
		if !ok || ci.Common().StaticCallee() != f {
			return true
		}
		plain = true
	}
	return !plain
}

func (s *sharing) run(opaque func(f *ssa.Function) bool) {
	c := s.c
	cfg := func(root *ssa.Function) eng.Config {
		return eng.Config{
			Unroll: 1,
			Opaque: func(f *ssa.Function, as []*T) bool {
				return !s.near[f] || opaque != nil && opaque(f)
			},
			OnAccess: func(st *State, write bool, addr *T, owner *types.Named, in ssa.Instruction, ctx string) {
				if s.access != nil {
					s.access(root, st, write, addr, owner, in)
				}
			},
			OnEvent: func(st *State, e *Ev) {
				if s.event != nil {
					s.event(root, st, e)
				}
			},
		}
	}
	type job struct {
		fv   *T
		args []*T
		st   *State
	}
	var do func(root *ssa.Function, j *job, depth int)
	do = func(root *ssa.Function, j *job, depth int) {
		cf := cfg(root)
		on := cf.OnEvent
		var kids []job
		cf.OnEvent = func(st *State, e *Ev) {
			on(st, e)
			if e.Kind == "go" {
				kids = append(kids, job{e.Args[0], e.Args[1:], st.Spawn()})
			}
		}
		x := c.Exec(cf)
		var ps []Path
		if j == nil {
			ps = x.Run(root, eng.ParamSyms(root))
		} else {
			f := eng.FnOf(j.fv)
			if !c.Must(f != nil, "analysable", "goroutine of "+eng.FuncName(root), root.Pos(), "%s starts a goroutine that is not known", eng.FuncName(root)) {
				return
			}
			if !s.c.P.IsRepo(f) {
				return
			}
			s.visited[f] = true
			ps = x.RunClosure(j.fv, j.args, j.st, "")
		}
		for f := range x.Visited {
			s.visited[f] = true
		}
		if s.end != nil {
			for _, p := range ps {
				s.end(root, x, p)
			}
		}
		c.Done(x, ps)
		if depth > 4 {
			c.Fail("analysable", "goroutines of "+eng.FuncName(root), root.Pos(), "%s starts goroutines that start goroutines", eng.FuncName(root))
			return
		}
		seen := map[*T]int{}
		for i := range kids {
			seen[kids[i].fv]++
			if n := seen[kids[i].fv]; n > 8 {
				continue
			}
			s.kids++
			do(root, &kids[i], depth+1)
		}
	}
	for _, f := range c.P.Funcs {
		if !s.near[f] || !s.entered(f) {
			continue
		}
		s.roots++
		s.visited[f] = true
		do(f, nil, 0)
	}
}

// ---- N09 ----

type fieldAccess struct {
	write, atomic bool
	locks         map[string]bool // mutex fields of the same object held; "R:" for reading
	deferTo       *ssa.Function   // exported method whose caller can hold the lock
	fn            *ssa.Function
	pos           token.Pos
}

func heldOf(st *State, obj *T) map[string]bool {
	r := map[string]bool{}
	for _, l := range st.HeldLocks() {
		k := l.Key
		if k.Op == "fa" && k.A[0] == obj {
			if l.R {
				r["R:"+k.S] = true
			} else {
				r[k.S] = true
				r["R:"+k.S] = true
			}
		}
	}
	return r
}

// lockOwner: t embeds a lock that others can take.
func lockOwner(t *types.Named) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	return ms.Lookup(nil, "Lock") != nil && t.Obj().Exported()
}

// isGetter: a method that does nothing but read out a part of its receiver.
func isGetter(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case ssa.CallInstruction, *ssa.Store, *ssa.MapUpdate, *ssa.Send:
				return false
			}
		}
	}
	return f.Signature.Params().Len() == 0
}

// embedded are the mutexes embedded in a type.
func embedded(n *types.Named) map[string]bool {
	r := map[string]bool{}
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Anonymous() && syncField(f.Type()) {
			r[f.Name()] = true
		}
	}
	return r
}

func runN09(c *Ctx) {
	s := c.sharing()
	acc := map[string][]fieldAccess{}
	seenAt := map[ssa.Instruction]bool{}
	typeOf := map[string]types.Type{}
	ownerOfKey := map[string]*types.Named{}
	sites := 0
	note := func(root *ssa.Function, st *State, write, atomic bool, addr *T, owner *types.Named, in ssa.Instruction) {
		if in != nil {
			seenAt[in] = true
		}
		if !sharedType(owner) || st.Owned(addr) {
			return
		}
		t := eng.FieldType(owner, addr.S)
		if t == nil || syncField(t) {
			return
		}
		k := typeName(owner) + "." + addr.S
		typeOf[k], ownerOfKey[k] = t, owner
		a := fieldAccess{write: write, atomic: atomic, locks: heldOf(st, addr.A[0])}
		if in != nil {
			a.fn, a.pos = in.Parent(), in.Pos()
		}
		// the receiver of an exported method that only reads it out
		if isGetter(root) && root.Signature.Recv() != nil && token.IsExported(root.Name()) && len(root.Params) > 0 && lockOwner(owner) && len(a.locks) == 0 && addr.A[0] == eng.ParamSyms(root)[0] {
			a.deferTo = root
		}
		acc[k] = append(acc[k], a)
		sites++
	}
	s.access = func(root *ssa.Function, st *State, write bool, addr *T, owner *types.Named, in ssa.Instruction) {
		note(root, st, write, false, addr, owner, in)
	}
	// calls of methods that leave locking to the caller
	type use struct {
		held bool
		pos  token.Pos
		fn   *ssa.Function
	}
	calls := map[*ssa.Function][]use{}
	ranges := 0
	s.event = func(root *ssa.Function, st *State, e *Ev) {
		switch e.Kind {
		case "atomic":
			a := e.Args[0]
			for a.Op == "ia" {
				a = a.A[0]
			}
			if a.Op == "fa" {
				if o := eng.OwnerType(a); o != nil {
					note(root, st, !strings.HasPrefix(e.Name, "Load"), true, a, o, e.Instr)
				}
			}
		case "mapget", "mapset", "mapdel", "mapiter":
			m := eng.Unversioned(e.Args[0])
			if m.Op == "ld" && m.A[0].Op == "fa" {
				if o := eng.OwnerType(m.A[0]); o != nil {
					note(root, st, e.Kind == "mapset" || e.Kind == "mapdel", false, m.A[0], o, e.Instr)
				}
			}
		case "call":
			ci, ok := e.Instr.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() {
				return
			}
			// a range of the stored chain must be seen in one state
			if m := ci.Common().Method; m.Pkg() != nil && m.Pkg().Name() == "chain" && typeName(ci.Common().Value.Type()) == "chain.Storage" {
				r, w := false, false
				for _, l := range e.Held {
					if l.Key.Op == "fa" && eng.OwnerType(l.Key) != nil && typeName(eng.OwnerType(l.Key)) == "chain.Chain" {
						r = true
						w = w || !l.R
					}
				}
				switch {
				case m.Name() == "From":
					ranges++
					c.Must(r, "guarded", "range in "+eng.FuncName(e.Fn), e.Pos, "%s reads a range of the stored chain without the chain's lock", eng.FuncName(e.Fn))
				case strings.HasPrefix(m.Name(), "Add") || strings.HasPrefix(m.Name(), "Del"):
					c.Must(w, "guarded", "change in "+eng.FuncName(e.Fn), e.Pos, "%s changes the stored chain without the chain's lock", eng.FuncName(e.Fn))
				}
			}
			held := false
			for _, l := range e.Held {
				held = held || l.Key.Op == "ifacelock" && len(e.Args) > 0 && eng.Unversioned(l.Key.A[0]) == eng.Unversioned(e.Args[0])
			}
			for _, o := range s.g.out[e.Fn] {
				if o.in == e.Instr {
					calls[o.to] = append(calls[o.to], use{held, e.Pos, e.Fn})
				}
			}
		}
	}
	s.run(nil)
	// what the chain reports about itself
	state := map[string]bool{}
	for _, n := range []string{"Height", "TotalDifficulty", "Head"} {
		f := c.Method("chain", "Chain", n)
		if f == nil {
			continue
		}
		for h := range s.g.down(f) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						if o := ownerOf(fa); o != nil && sharedType(o) && !syncField(o.Underlying().(*types.Struct).Field(fa.Field).Type()) {
							state[typeName(o)+"."+o.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	guarded, atomics := 0, 0
	for _, k := range sortedKeys(acc) {
		as := acc[k]
		writes, plain, atom := 0, 0, 0
		for _, a := range as {
			if a.write {
				writes++
			}
			if a.atomic {
				atom++
			} else {
				plain++
			}
		}
		if writes == 0 && !state[k] {
			continue
		}
		if atom > 0 {
			atomics++
			for _, a := range as {
				c.Must(a.atomic, "atomic", k+" in "+eng.FuncName(a.fn), a.pos, "%s is shared between goroutines and changed atomically, but not here, in %s", k, eng.FuncName(a.fn))
			}
			continue
		}
		guarded++
		// the locks held at every write
		var cand map[string]bool
		if writes == 0 {
			// nothing changes it yet; the chain's own lock guards it
			cand = map[string]bool{}
			for l := range embedded(ownerOfKey[k]) {
				cand[l] = true
			}
		}
		for _, a := range as {
			if !a.write {
				continue
			}
			h := map[string]bool{}
			for l := range a.locks {
				if !strings.HasPrefix(l, "R:") {
					h[l] = true
				}
			}
			if cand == nil {
				cand = h
			} else {
				for l := range cand {
					if !h[l] {
						delete(cand, l)
					}
				}
			}
		}
		if len(cand) == 0 {
			// report the writes without what most hold
			count := map[string]int{}
			best := ""
			for _, a := range as {
				for l := range a.locks {
					count[l]++
					if !strings.HasPrefix(l, "R:") && (best == "" || count[l] > count[best]) {
						best = l
					}
				}
			}
			for _, a := range as {
				if a.write && !a.locks[best] {
					c.Fail("guarded", k+" in "+eng.FuncName(a.fn), a.pos, "%s writes %s, which other goroutines use, without its lock", eng.FuncName(a.fn), k)
				}
			}
			continue
		}
		for _, a := range as {
			ok := false
			for l := range cand {
				ok = ok || a.locks[l] || !a.write && a.locks["R:"+l]
			}
			if !ok && !a.write && a.deferTo != nil {
				for _, u := range calls[a.deferTo] {
					c.Must(u.held, "guarded", k+" via "+eng.FuncName(a.deferTo)+" in "+eng.FuncName(u.fn), u.pos, "%s calls %s, which reads %s, without holding its lock", eng.FuncName(u.fn), eng.FuncName(a.deferTo), k)
				}
				continue
			}
			c.Must(ok, "guarded", k+" in "+eng.FuncName(a.fn), a.pos, "%s uses %s without its lock (%s)", eng.FuncName(a.fn), k, strings.Join(sortedKeys(cand), ", "))
		}
	}
	// nothing was left out
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				o := ownerOf(fa)
				if o == nil || !sharedType(o) || syncField(o.Underlying().(*types.Struct).Field(fa.Field).Type()) {
					continue
				}
				c.Must(s.visited[f], "analysable", eng.FuncName(f), f.Pos(), "%s uses %s in a way that is not followed", eng.FuncName(f), typeName(o))
			}
		}
	}
	c.Floor("fields under a lock", guarded, 11)
	c.Floor("ranges of the chain", ranges, 2)
	c.Floor("atomic counters", atomics, 2)
	c.Floor("accesses", sites, 60)
	c.Floor("ways in", s.roots, 20)
	c.Floor("goroutines", s.kids, 4)

}

func init() {
	register("N09", "lockset analysis over all entry points, goroutines and paths (abstract interpretation over SSA)",
		"Every function that can be entered from elsewhere, and every goroutine started on the way, is interpreted with its helpers inlined; each access to a field of a shared object that is not still private is recorded with the locks of that very object held. For each field that is ever written there must be one lock held exclusively at all writes and at least for reading at all reads; getters that leave this to their caller must only be called with it held. Fields changed atomically must be accessed atomically everywhere.", runN09)
}
