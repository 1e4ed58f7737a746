package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/eng"
)

// Goroutines are interpreted with the variables of their maker as they were at
// the go statement. captured checks that this is what they see: a variable
// shared with a goroutine may not be written by its maker once the goroutine
// runs, and may not be written by the goroutine while its maker still uses it,
// until one waits for the other. (Variables of a range loop are one variable
// for all iterations in this module.)
func (c *Ctx) captured(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			kid := mc.Fn.(*ssa.Function)
			for j, bd := range mc.Bindings {
				al, ok := bd.(*ssa.Alloc)
				if !ok || syncField(al.Type().Underlying().(*types.Pointer).Elem()) {
					continue
				}
				n++
				r, w, locked := usesOf(kid, kid.FreeVars[j], map[*ssa.Function]bool{})
				if locked || !r && !w {
					continue
				}
				if p, what := after(f, b, i+1, al, g, w); what != "" {
					c.Fail("captured", eng.FuncName(f)+" "+al.Comment, p, "the goroutine started at %s shares %s with %s, which %s while the goroutine may be running", c.P.Pos(g.Pos()), al.Comment, eng.FuncName(f), what)
				}
			}
		}
	}
	return n
}

// usesOf: is the variable behind address v read or written in fn or a function
// made there, and does fn take locks (then what it shares is not decided here).
func usesOf(fn *ssa.Function, v ssa.Value, seen map[*ssa.Function]bool) (r, w, locked bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if lock, ok := in.(ssa.CallInstruction); ok && isLockOp(in) && len(lock.Common().Args) > 0 {
				if o, ok := lock.Common().Args[0].(*ssa.FreeVar); ok && syncField(o.Type().Underlying().(*types.Pointer).Elem()) {
					locked = true // a mutex among the shared variables
				}
			}
			switch i := in.(type) {
			case *ssa.UnOp:
				r = r || i.Op == token.MUL && under(i.X, v)
			case *ssa.Store:
				w = w || under(i.Addr, v)
			case *ssa.MakeClosure:
				for k, bd := range i.Bindings {
					if sub := i.Fn.(*ssa.Function); bd == v && !seen[sub] {
						seen[sub] = true
						r2, w2, l2 := usesOf(sub, sub.FreeVars[k], seen)
						r, w, locked = r || r2, w || w2, locked || l2
					}
				}
			}
		}
	}
	return
}

// under: a is v or the address of a field of it.
func under(a, v ssa.Value) bool {
	for a != v {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		a = fa.X
	}
	return true
}

// after looks for a use of al that conflicts with the goroutine started just
// before instruction i of b: a write, or any use if the goroutine writes.
func after(f *ssa.Function, b *ssa.BasicBlock, i int, al *ssa.Alloc, g *ssa.Go, writes bool) (token.Pos, string) {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []at{{b, i}}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		stop := false
		for _, in := range x.b.Instrs[x.i:] {
			if in == ssa.Instruction(al) || joins(in) {
				stop = true
				break
			}
			switch u := in.(type) {
			case *ssa.Store:
				if under(u.Addr, al) {
					return u.Pos(), "writes it"
				}
			case *ssa.UnOp:
				if writes && u.Op == token.MUL && under(u.X, al) {
					return u.Pos(), "reads what the goroutine writes"
				}
			case *ssa.Go:
				if u == g && writes {
					return u.Pos(), "starts another one that writes it"
				}
			}
		}
		if stop {
			continue
		}
		for _, s := range x.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, at{s, 0})
			}
		}
	}
	return token.NoPos, ""
}

// joins: in waits for something another goroutine does.
func joins(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.UnOp:
		return i.Op == token.ARROW
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.RecvOnly {
				return true
			}
		}
	case *ssa.Call:
		cc := i.Common()
		if f := cc.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && f.Name() == "Wait" {
			return true
		}
	}
	return false
}

// followsGoroutines are the rules that look into goroutines.
var followsGoroutines = map[string]bool{"N03": true, "N05": true, "N06": true, "N07": true, "N08": true, "N09": true, "N15": true}
