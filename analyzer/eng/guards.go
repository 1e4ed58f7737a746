package eng

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guardKind says how a field of a shared object is protected, judged by its
// writes outside of the construction of the object.
type guardKind struct {
	fixed bool            // never written
	by    map[string]bool // mutex fields of the object held at every write
}

// guards infers, for every field of the types that hold a mutex, which of
// their mutexes is held at every write to it. Locks are told apart by type and
// field here; that it is the lock of the same object is for the check of the
// locking discipline to show.
func (p *Prog) guards() map[string]*guardKind {
	if p.guard != nil {
		return p.guard
	}
	p.guard = map[string]*guardKind{}
	entry := map[*ssa.Function]map[string]bool{} // nil: not called yet
	open := map[*ssa.Function]bool{}             // called from anywhere
	called := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					if ci.Common().IsInvoke() {
						invoked[ci.Common().Method.Name()] = true
					}
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = true
						if _, ok := in.(*ssa.Call); ok {
							callee = ci.Common().Value
						} else {
							open[g] = true
						}
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && *o != callee {
						open[g] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					open[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !called[f] || f.Parent() != nil || f.Signature.Recv() != nil && invoked[f.Name()] || f.Name() == "main" || f.Name() == "init" {
			open[f] = true
		}
		if open[f] {
			entry[f] = map[string]bool{}
		}
	}
	type write struct {
		k    string
		held map[string]bool
	}
	var writes []write
	for changed := true; changed; {
		changed = false
		writes = writes[:0]
		for _, f := range p.Funcs {
			in := entry[f]
			if in == nil || len(f.Blocks) == 0 {
				continue
			}
			at := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: in}
			for again := true; again; {
				again = false
				for _, b := range f.Blocks {
					h, ok := at[b]
					if !ok {
						continue
					}
					h = copySet(h)
					for _, i := range b.Instrs {
						flowLock(i, h)
					}
					for _, s := range b.Succs {
						o, ok := at[s]
						n := h
						if ok {
							n = common(o, h)
						}
						if !ok || len(n) != len(o) {
							at[s] = copySet(n)
							again = true
						}
					}
				}
			}
			for _, b := range f.Blocks {
				h, ok := at[b]
				if !ok {
					continue
				}
				h = copySet(h)
				for _, i := range b.Instrs {
					for _, k := range p.fieldWrites(i) {
						writes = append(writes, write{k, copySet(h)})
					}
					if c, ok := i.(*ssa.Call); ok {
						if g := c.Call.StaticCallee(); g != nil && !open[g] && len(g.Blocks) > 0 {
							o := entry[g]
							n := h
							if o != nil {
								n = common(o, h)
							}
							if o == nil || len(n) != len(o) {
								entry[g] = copySet(n)
								changed = true
							}
						}
					}
					flowLock(i, h)
				}
			}
		}
	}
	for _, w := range writes {
		g := p.guard[w.k]
		if g == nil {
			p.guard[w.k] = &guardKind{by: w.held}
			continue
		}
		g.by = common(g.by, w.held)
	}
	return p.guard
}

func copySet(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

func common(a, b map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n
}

// flowLock follows the locks of a goroutine over an instruction.
func flowLock(in ssa.Instruction, h map[string]bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return
	}
	n := FuncName(f)
	if !strings.HasPrefix(n, "sync.Mutex.") && !strings.HasPrefix(n, "sync.RWMutex.") {
		return
	}
	k := fieldKey(c.Call.Args[0])
	if k == "" {
		return
	}
	switch f.Name() {
	case "Lock":
		h[k] = true
	case "Unlock":
		delete(h, k)
	}
}

// fieldKey is "package.Type.Field" of a field address.
func fieldKey(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok {
		return ""
	}
	return TypeKey(n) + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// fieldWrites are the fields of shared objects an instruction may write.
func (p *Prog) fieldWrites(in ssa.Instruction) []string {
	var r []string
	// add notes the fields on the way to address (or value) v
	var add func(v ssa.Value, depth int)
	add = func(v ssa.Value, depth int) {
		if depth > 12 {
			return
		}
		switch a := v.(type) {
		case *ssa.FieldAddr:
			if n, ok := a.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named); ok && p.hasMutex(n) {
				if _, fresh := a.X.(*ssa.Alloc); !fresh {
					r = append(r, fieldKey(a))
				}
				return
			}
			add(a.X, depth+1)
		case *ssa.IndexAddr:
			add(a.X, depth+1)
		case *ssa.UnOp:
			if a.Op == token.MUL {
				switch a.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					add(a.X, depth+1)
				}
			}
		case *ssa.Phi:
			for _, e := range a.Edges {
				add(e, depth+1)
			}
		case *ssa.Slice:
			add(a.X, depth+1)
		}
	}
	switch i := in.(type) {
	case *ssa.Store:
		add(i.Addr, 0)
		// the address of a field kept somewhere, or a map under another name
		if fa, ok := i.Val.(*ssa.FieldAddr); ok {
			add(fa, 0)
		}
	case *ssa.MapUpdate:
		add(i.Map, 0)
	case ssa.CallInstruction:
		c := i.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if n := b.Name(); n == "delete" || n == "clear" || n == "copy" {
				add(c.Args[0], 0)
			}
			break
		}
		f := c.StaticCallee()
		if f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sync" || f.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(f.Name(), "Load")) {
			break
		}
		for _, a := range c.Args {
			switch a.Type().Underlying().(type) {
			case *types.Map:
				add(a, 0)
			case *types.Pointer:
				if _, ok := a.(*ssa.FieldAddr); ok {
					add(a, 0)
				}
			}
		}
	case *ssa.MakeClosure:
		for _, b := range i.Bindings {
			if _, ok := b.(*ssa.FieldAddr); ok {
				add(b, 0)
			}
		}
	}
	return r
}

// kept: what happens to the cell at addr between two reads, given the locks
// held: stable is true if nobody can change it, since says from which
// acquisition on (nil: from ever).
func (x *Exec) kept(st *State, addr *T) (since *T, stable bool) {
	var fa *T
	var n *types.Named
	for a := addr; a.Op == "fa" || a.Op == "ia"; a = a.A[0] {
		if a.Op == "fa" {
			if o := faOwner[a]; o != nil && x.P.hasMutex(o) {
				fa, n = a, o
				break
			}
		}
	}
	if fa == nil {
		return nil, false
	}
	g := x.P.guards()[TypeKey(n)+"."+fa.S]
	if g == nil {
		return nil, true
	}
	for _, l := range st.held {
		if l.Key.Op == "fa" && l.Key.A[0] == fa.A[0] && g.by[TypeKey(n)+"."+l.Key.S] && l.Epoch != nil {
			return l.Epoch, true
		}
	}
	return nil, false
}
