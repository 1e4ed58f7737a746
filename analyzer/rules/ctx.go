// Package rules states the properties of gringo as obligations over the
// paths that package eng computes from the source.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// T and friends are shorthands for the engine's types.
type (
	T     = eng.T
	State = eng.State
	Path  = eng.Path
	Ev    = eng.Ev
	Cond  = eng.Cond
)

// Finding is a broken or undecided obligation.
type Finding struct {
	Rule, Key, Pos, Msg string
}

// Ctx collects the result of one check.
type Ctx struct {
	P        *eng.Prog
	Prop     string
	Thorough bool
	Findings []Finding
	Obl      int
	Disch    int
	Cover    map[string]int
	Samples  []string
	Funcs    map[*ssa.Function]bool
	RulesN   map[string]int
	seen     map[string]bool
	paths    int
	loops    int
	steps    int
}

// Check decides one property.
type Check struct {
	ID      string
	Tech    string
	Run     func(c *Ctx)
	Explain string
	Assume  []string
}

// Registry of the checks.
var Registry = map[string]*Check{}

func register(id, tech, explain string, run func(c *Ctx), assume ...string) {
	Registry[id] = &Check{ID: id, Tech: tech, Run: run, Explain: explain, Assume: assume}
}

// NewCtx starts a check.
func NewCtx(p *eng.Prog, id string) *Ctx {
	return &Ctx{P: p, Prop: id, Cover: map[string]int{}, Funcs: map[*ssa.Function]bool{}, RulesN: map[string]int{}, seen: map[string]bool{}}
}

// Paths, Loops and Steps analysed.
func (c *Ctx) Stats() (paths, loops, steps int) { return c.paths, c.loops, c.steps }

// Fail reports a finding; the key names rule and construct, not a line.
func (c *Ctx) Fail(rule, key string, pos token.Pos, f string, a ...any) {
	c.RulesN[rule]++
	c.Obl++
	c.fail(rule, key, c.P.Pos(pos), fmt.Sprintf(f, a...))
}

func (c *Ctx) fail(rule, key, pos, msg string) {
	k := rule + "|" + key
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	c.Findings = append(c.Findings, Finding{rule, key, pos, msg})
}

// Must records an obligation and whether it was discharged.
func (c *Ctx) Must(ok bool, rule, key string, pos token.Pos, f string, a ...any) bool {
	c.RulesN[rule]++
	c.Obl++
	if ok {
		c.Disch++
		return true
	}
	c.fail(rule, key, c.P.Pos(pos), fmt.Sprintf(f, a...))
	return false
}

// Floor fails when fewer instances were found than confirmed by hand.
func (c *Ctx) Floor(what string, n, min int) {
	c.Cover[what] = n
	c.Must(n >= min, "instances", what, token.NoPos, "only %d instances of %s found, expected at least %d", n, what, min)
}

// Sample keeps an example for the evidence.
func (c *Ctx) Sample(f string, a ...any) {
	if len(c.Samples) < 40 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
}

// Exec is a fresh interpreter.
func (c *Ctx) Exec(cfg eng.Config) *eng.Exec { return eng.New(c.P, cfg) }

// Done accounts for what x analysed; what it could not analyse is a finding.
func (c *Ctx) Done(x *eng.Exec, ps []Path) {
	c.paths += len(ps)
	c.loops += len(x.Loops)
	c.steps += x.Steps
	for f := range x.Visited {
		if !c.Funcs[f] && followsGoroutines[c.Prop] && c.P.IsRepo(f) {
			c.captured(f)
		}
		c.Funcs[f] = true
	}
	for _, p := range x.Problems {
		c.Fail("analysable", p, token.NoPos, "the analysis cannot follow the code: %s", p)
	}
}

// Func is a function that must exist.
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil {
		c.Fail("anchor", pkg+"."+name, token.NoPos, "function %s.%s not found", pkg, name)
	}
	return f
}

// Method is a method that must exist.
func (c *Ctx) Method(pkg, typ, name string) *ssa.Function {
	f := c.P.Method(pkg, typ, name)
	if f == nil {
		c.Fail("anchor", pkg+"."+typ+"."+name, token.NoPos, "method %s.%s.%s not found", pkg, typ, name)
	}
	return f
}

// Named is a type that must exist.
func (c *Ctx) Named(pkg, name string) *types.Named {
	n := c.P.Named(pkg, name)
	if n == nil {
		c.Fail("anchor", pkg+"."+name, token.NoPos, "type %s.%s not found", pkg, name)
	}
	return n
}

// ---- helpers over paths ----

func lits(st *State) string {
	var s []string
	for _, l := range st.Lits() {
		s = append(s, l.String())
	}
	return strings.Join(s, " ∧ ")
}

// okPath: the path returns and its error result (the last one) is nil.
func retNil(p Path) bool {
	if p.End != "return" || len(p.Res) == 0 {
		return false
	}
	e := p.Res[len(p.Res)-1]
	return e == eng.Nil || p.St.Facts().Eval(eng.IsNil(e)) == 1
}

// retErr: the path returns a certainly non-nil error.
func retErr(p Path) bool {
	if p.End != "return" || len(p.Res) == 0 {
		return false
	}
	e := p.Res[len(p.Res)-1]
	return p.St.Facts().Eval(eng.IsNil(e)) == 0
}

func isOpaqueVerify(f *ssa.Function) bool {
	n := eng.FuncName(f)
	return strings.HasPrefix(n, "cuckoo.") && strings.HasSuffix(n, ".Verify")
}

// structOf is the struct type behind t.
func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
