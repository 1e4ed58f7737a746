package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cgEdge is a use of a function.
type cgEdge struct {
	from  *ssa.Function
	to    *ssa.Function
	in    ssa.Instruction
	spawn bool // go statement
}

// callGraph has an edge for every static call, every function value that is
// taken, and every interface call to each implementation in the repository.
type callGraph struct {
	out, in map[*ssa.Function][]cgEdge
}

func (c *Ctx) callGraph() *callGraph {
	g := &callGraph{out: map[*ssa.Function][]cgEdge{}, in: map[*ssa.Function][]cgEdge{}}
	add := func(e cgEdge) {
		// a method value stands for the method
		e.to = method(e.to)
		if e.to == nil || e.to.Blocks == nil || !c.P.IsRepo(e.to) {
			return
		}
		g.out[e.from] = append(g.out[e.from], e)
		g.in[e.to] = append(g.in[e.to], e)
	}
	var named []*types.Named
	for _, pkg := range c.P.Packages() {
		for _, n := range sortedKeys(pkg.Members) {
			if t, ok := pkg.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok && !types.IsInterface(nt) {
					named = append(named, nt)
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if isThunk(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				_, spawn := in.(*ssa.Go)
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						it, _ := cc.Value.Type().Underlying().(*types.Interface)
						for _, nt := range named {
							pt := types.NewPointer(nt)
							if it != nil && types.Implements(pt, it) {
								add(cgEdge{f, c.P.MethodOf(pt, cc.Method.Name()), in, spawn})
							}
						}
					} else {
						callee = cc.Value
					}
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue // counted where the closure is used
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					spawn := spawn && *op == callee || spawnsArg(in, *op)
					switch v := (*op).(type) {
					case *ssa.Function:
						add(cgEdge{f, v, in, spawn})
					case *ssa.MakeClosure:
						add(cgEdge{f, v.Fn.(*ssa.Function), in, spawn})
					}
				}
			}
		}
	}
	return g
}

// down is what can run when f runs, without what it spawns.
func (g *callGraph) down(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{f: true}
	for work := []*ssa.Function{f}; len(work) > 0; {
		h := work[0]
		work = work[1:]
		for _, e := range g.out[h] {
			if !e.spawn && !r[e.to] {
				r[e.to] = true
				work = append(work, e.to)
			}
		}
	}
	return r
}

// up is everything that can run one of fs, spawning included only if asked.
func (g *callGraph) up(fs []*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, fs...)
	for _, f := range fs {
		r[f] = true
	}
	for len(work) > 0 {
		h := work[0]
		work = work[1:]
		for _, e := range g.in[h] {
			if !e.spawn && !r[e.from] {
				r[e.from] = true
				work = append(work, e.from)
			}
		}
	}
	return r
}

// spawnsArg: function value v is handed to a function that does nothing with
// it but run it as a goroutine.
func spawnsArg(in ssa.Instruction, v ssa.Value) bool {
	ci, ok := in.(*ssa.Call)
	if !ok || ci.Common().StaticCallee() == nil || ci.Common().Value == v {
		return false
	}
	f := ci.Common().StaticCallee()
	for i, a := range ci.Common().Args {
		if a != v {
			continue
		}
		if i >= len(f.Params) || f.Params[i].Referrers() == nil {
			return false
		}
		for _, r := range *f.Params[i].Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Go:
				if r.Call.Value != f.Params[i] {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// isThunk: f stands for a method value or expression.
func isThunk(f *ssa.Function) bool {
	return f != nil && len(f.Blocks) == 1 && (strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk"))
}

// method is what a method value stands for.
func method(f *ssa.Function) *ssa.Function {
	if isThunk(f) {
		for _, in := range f.Blocks[0].Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
				return ci.Common().StaticCallee()
			}
		}
	}
	return f
}
