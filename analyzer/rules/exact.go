package rules

import (
	"go/types"
	"math/big"
	"strings"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// clause is a disjunction; a specification is a list of clauses.
type clause struct {
	name string
	alt  []Cond
}

// entails: on this path the clause holds.
func entails(st *State, cl clause) bool {
	f := st.Facts()
	for _, a := range cl.alt {
		if f.Eval(a) == 1 {
			return true
		}
	}
	s := st.Fork()
	for _, a := range cl.alt {
		if !s.Assume(a.Not()) {
			return true
		}
	}
	return false
}

// refutes: on this path the clauses cannot all hold.
func refutes(st *State, cnf []clause) bool {
	if len(cnf) == 0 {
		return false
	}
	for _, a := range cnf[0].alt {
		s := st.Fork()
		if !s.Assume(a) {
			continue
		}
		if s.Facts().Eval(a) == 0 {
			continue
		}
		if !refutes(s, cnf[1:]) {
			return false
		}
	}
	return true
}

// exactly: path p accepts (ok) or refuses precisely as the clauses say.
func (c *Ctx) exactly(what string, p Path, ok bool, cnf []clause) {
	if ok {
		for _, cl := range cnf {
			c.Must(entails(p.St, cl), "accepts-only", what+": "+cl.name, p.Pos, "%s is accepted without %s having been established (path condition %s)", what, cl.name, lits(p.St))
		}
		return
	}
	c.Must(refutes(p.St, cnf), "refuses-only", what+" "+c.errName(p), p.Pos, "%s is refused although every requirement holds (path condition %s)", what, lits(p.St))
}

func (c *Ctx) errName(p Path) string {
	if len(p.Res) > 0 {
		s := p.Res[len(p.Res)-1].String()
		if i := strings.Index(s, "\""); i >= 0 {
			if j := strings.Index(s[i+1:], "\""); j >= 0 {
				return s[i : i+j+2]
			}
		}
	}
	return c.P.Pos(p.Pos)
}

// same: two values are equal under the facts of st.
func same(st *State, a, b *T) bool {
	if a == b {
		return true
	}
	f := st.Facts()
	x, y := eng.Simp(f, a), eng.Simp(f, b)
	_, nx := x.Int64()
	_, ny := y.Int64()
	if (nx || ny) && f.Eval(eng.EqInt(x, y)) == 1 {
		return true
	}
	return x == y || f.Eval(eng.Eq(x, y)) == 1 || sameUnder(st, x, y, 4)
}

// opaque builds the set of functions that are not entered, by name.
func opaque(names ...string) func(*ssa.Function, []*T) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function, _ []*T) bool { return m[eng.FuncName(f)] }
}

// calls records, for the result of every opaque call, what the arguments
// pointed to when the call was made.
type calls struct {
	x    *eng.Exec
	args map[*T][]*T // result -> argument values (pointers dereferenced)
	name map[*T]string
}

func newCalls() *calls { return &calls{args: map[*T][]*T{}, name: map[*T]string{}} }

func (r *calls) see(st *State, e *Ev) {
	if e.Kind != "call" || len(e.Res) == 0 {
		return
	}
	var as []*T
	for _, a := range e.Args {
		v := a
		if p, ok := derefOf(a); ok && r.x != nil {
			v = r.x.Load(st, a, p)
		}
		as = append(as, v)
	}
	for _, t := range e.Res {
		r.args[t] = as
		r.name[t] = e.Name
	}
}

func derefOf(a *T) (types.Type, bool) {
	if a == eng.Nil || a.Typ == nil {
		return nil, false
	}
	p, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// loaded is the value a parameter symbol points to.
func loaded(x *eng.Exec, st *State, p *T) *T {
	if t, ok := derefOf(p); ok {
		return x.Load(st, p, t)
	}
	return p
}

func fld(v *T, typ types.Type, names ...string) *T {
	for _, n := range names {
		ft := eng.FieldType(typ, n)
		v, typ = eng.Fld(v, n, ft), ft
	}
	return v
}

func bigOf(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

// arguments are the values name(...) was called with when it returned r; r may
// be the result of another iteration than the one that was recorded.
func (cs *calls) arguments(r *T, name string) []*T {
	if a, ok := cs.args[r]; ok {
		if cs.name[r] != name {
			return nil
		}
		return a
	}
	for q, a := range cs.args {
		if cs.name[q] != name || q.Op != r.Op || q.S != r.S || len(q.A) != len(r.A) || len(q.A) == 0 {
			continue
		}
		qs, rs := q.A[0], r.A[0]
		if qs.Op != "site" || rs.Op != "site" || qs.S != rs.S || len(qs.A) != len(rs.A) {
			continue
		}
		m := map[*T]*T{}
		for i := range qs.A {
			m[qs.A[i]] = rs.A[i]
		}
		if eng.SubstMap(q, m) != r {
			continue
		}
		var as []*T
		for _, v := range a {
			as = append(as, eng.SubstMap(v, m))
		}
		return as
	}
	return nil
}

// split separates a path by what decides its last result, an error.
func split(p Path) []Path {
	if p.End != "return" || len(p.Res) == 0 {
		return []Path{p}
	}
	work, out := []Path{p}, []Path(nil)
	for len(work) > 0 && len(out) < 64 {
		q := work[0]
		work = work[1:]
		e := eng.Simp(q.St.Facts(), q.Res[len(q.Res)-1])
		q.Res = append(append([]*T{}, q.Res[:len(q.Res)-1]...), e)
		if retNil(q) || retErr(q) {
			out = append(out, q)
			continue
		}
		cond, ok := eng.Undecided(q.St.Facts(), e)
		if !ok {
			cond = eng.IsNil(e)
		}
		done := true
		for _, a := range []Cond{cond, cond.Not()} {
			st := q.St.Fork()
			if !st.Assume(a) {
				continue
			}
			if st.Facts().Eval(a) != 1 {
				done = false
				break
			}
			n := q
			n.St = st
			work = append(work, n)
		}
		if !done {
			out = append(out, q)
		}
	}
	return append(out, work...)
}

func splitAll(ps []Path) []Path {
	var r []Path
	for _, p := range ps {
		r = append(r, split(p)...)
	}
	return r
}
