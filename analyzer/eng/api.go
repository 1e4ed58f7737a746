package eng

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Load reads the value of type typ at addr.
func (x *Exec) Load(st *State, addr *T, typ types.Type) *T { return x.read(st, addr, typ) }

// Store writes a value.
func (x *Exec) Store(st *State, addr, v *T) { x.write(st, addr, v) }

// Content is the byte string behind a byte slice or array address.
func (x *Exec) Content(st *State, s *T) *T { return x.content(st, s) }

// Rest is the unread input of reader r.
func (x *Exec) Rest(st *State, r *T) *T {
	if v, ok := st.mem[restCell(r)]; ok {
		return v
	}
	return nil
}

// SetRest gives reader r a known content.
func (x *Exec) SetRest(st *State, r, c *T) { st.mem[restCell(r)] = c }

// Fork copies a state.
func (s *State) Fork() *State { return s.fork() }

// NewObject is the address of a fresh zero object.
func NewObject(name string, t types.Type) *T {
	return mkT(types.NewPointer(t), "al", name)
}

// SymT is a typed symbol.
func SymT(name string, t types.Type, a ...*T) *T { return mkT(t, "sym", name, a...) }

// FieldAddr is the address of a field of the struct at p.
func FieldAddr(p *T, t types.Type, f string) *T { return FA(p, f, fieldType(t, f)) }

// FieldType is the type of a field.
func FieldType(t types.Type, f string) types.Type { return fieldType(t, f) }

// ElemAddr is the address of element i of a slice or array.
func ElemAddr(b, i *T, elem types.Type) *T { return IA(b, i, types.NewPointer(elem)) }

// Owner is the named type whose field a term reads or addresses, and the field.
func Owner(t *T) (string, string) {
	a := t
	if a.Op == "ld" {
		a = a.A[0]
	}
	if a.Op != "fa" {
		return "", ""
	}
	if n := faOwner[a]; n != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name(), a.S
	}
	if p := pointee(a.A[0].Typ); p != nil {
		if n, ok := p.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name(), a.S
		}
	}
	return "", a.S
}

// Packages lists the packages of the analysed module, by path.
func (p *Prog) Packages() []*ssa.Package {
	var r []*ssa.Package
	for _, q := range p.SSA.AllPackages() {
		if p.Repo[q] {
			r = append(r, q)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}

// TUnix is the Unix second of a time value.
func TUnix(t *T) *T { return UnixOf(t) }

// ResolveBits looks up bits that are read back from a packed bit string.
func ResolveBits(f *Facts, t *T) *T {
	if t.Op != "nb" {
		return t
	}
	b := t.A[1]
	if b.Op != "sbrep" || b.A[2].Op != "sb1" {
		return t
	}
	n, j, one := b.A[0], b.A[1], b.A[2]
	g := f.clone()
	g.Assume(Le(Zero, j))
	g.Assume(Lt(j, n))
	c := CondOf(one.A[1])
	if c.Pos || c.T.Op != "eqi" || c.T.N.Sign() != 0 || c.T.A[0].Op != "cbit" {
		return t
	}
	r := cbitCond(g, c.T.A[0].A[0], c.T.A[0].A[1])
	if r == nil {
		return t
	}
	return NBits(t.Typ, t.A[0], Mk("sbrep", "", n, j, Mk("sb1", "", one.A[0], r)))
}

// cbitCond is the condition under which bit p of content c is set.
func cbitCond(f *Facts, c, p *T) *T {
	parts := CatParts(c)
	for len(parts) > 1 {
		l := Scale(ByteLen(parts[0]), big.NewInt(8))
		if f.Eval(Le(l, p)) != 1 {
			return nil
		}
		p = Sub(p, l)
		parts = parts[1:]
	}
	if len(parts) != 1 {
		return nil
	}
	c = parts[0]
	if c.Op != "sb" || c.A[0].Op != "zeros" {
		return nil
	}
	o := c.A[1]
	if o.Op != "sbrep" || o.A[2].Op != "sbrep" || o.A[2].A[2].Op != "sb1" {
		return nil
	}
	n, J, in := o.A[0], o.A[1], o.A[2]
	m, jj, one := in.A[0], in.A[1], in.A[2]
	if one.A[0] != Add(Mul(m, J), jj) {
		return nil
	}
	var syms []*T
	p.Any(func(s *T) bool {
		if s.Op != "int" && s.Op != "lin" && s.Op != "mul" {
			syms = append(syms, s)
		}
		return false
	})
	for _, a := range syms {
		for _, b := range syms {
			if a == b || Add(Mul(m, a), b) != p {
				continue
			}
			if f.Eval(Lt(a, n)) == 1 && f.Eval(Le(Zero, a)) == 1 && f.Eval(Lt(b, m)) == 1 && f.Eval(Le(Zero, b)) == 1 {
				return SubstMap(one.A[1], map[*T]*T{J: a, jj: b})
			}
		}
	}
	return nil
}

// GlobalAddr is the address of a package variable.
func (x *Exec) GlobalAddr(g *ssa.Global) *T {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	globTable[name] = g
	return mkT(g.Type(), "glob", name)
}

// Simp resolves the conditional values in t that the facts decide.
func Simp(f *Facts, t *T) *T {
	memo := map[*T]*T{}
	var walk func(t *T) *T
	walk = func(t *T) *T {
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *T
		if t.Op == "ite" {
			switch f.Eval(CondOf(t.A[0])) {
			case 1:
				r = walk(t.A[1])
			case 0:
				r = walk(t.A[2])
			}
		}
		if r == nil {
			na := make([]*T, len(t.A))
			diff := false
			for i, a := range t.A {
				na[i] = walk(a)
				diff = diff || na[i] != a
			}
			r = t
			if diff {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

// Undecided is an atom that decides a conditional value in t and that the
// facts leave open.
func Undecided(f *Facts, t *T) (Cond, bool) {
	var found *Cond
	var atom func(t *T) bool
	atom = func(t *T) bool {
		c := CondOf(t)
		if f.Eval(c) >= 0 {
			return false
		}
		if c.T.Op == "all" || c.T.Op == "any" {
			for _, a := range c.T.A {
				if atom(a) {
					return true
				}
			}
			return false
		}
		c.Pos = true
		found = &c
		return true
	}
	t.Any(func(s *T) bool { return s.Op == "ite" && atom(s.A[0]) })
	if found == nil {
		return Cond{}, false
	}
	return *found, true
}

// Values are the values in memory.
func (x *Exec) Values(st *State) []*T {
	var r []*T
	for c, v := range st.mem {
		if c.Op == "cell" && c.S == "rest" {
			continue
		}
		r = append(r, v)
	}
	for _, t := range st.tmpl {
		r = append(r, t.Val)
	}
	return r
}

// TimeNanos is the instant of a time value in nanoseconds.
func TimeNanos(t *T) *T { return TimeNS(t) }

// Elements lists the elements of a slice of known length.
func (x *Exec) Elements(st *State, s *T) ([]*T, bool) {
	n, ok := Len(s).Int64()
	if !ok {
		if r := st.facts.Range(Len(s)); r.Lo != nil && r.Hi != nil && r.Lo.Cmp(r.Hi) == 0 {
			n, ok = r.Lo.Int64(), true
		}
	}
	if !ok || n > 4096 || s.Typ == nil && n > 0 {
		return nil, false
	}
	var e types.Type
	if s.Typ != nil {
		if u, isS := s.Typ.Underlying().(*types.Slice); isS {
			e = u.Elem()
		}
	}
	if e == nil {
		return nil, n == 0
	}
	var r []*T
	for i := int64(0); i < n; i++ {
		r = append(r, x.read(st, IA(s, Int(i), ptrTo(e)), e))
	}
	return r, true
}

// SortMark is the version of elements read after sorting with this order.
func SortMark(e *Ev) string {
	return "w" + fmt.Sprint(Mk("sortmark", e.Name, e.Args[1]).ID)
}

// SortIndex are the two positions a less function compares.
func SortIndex() (i, j *T) { return sortI, sortJ }

// Unversioned removes what is known about the order of writes from the loads
// in t.
func Unversioned(t *T) *T {
	m := map[*T]*T{}
	t.Any(func(s *T) bool {
		if s.Op == "ld" && s.S != "" {
			m[s] = Ld(s.A[0], "", s.Typ)
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return SubstMap(t, m)
}

// IsStr: t is a constant byte string.
func (t *T) IsStr() bool { return t.Op == "str" }

// StrVal is the value of a constant byte string.
func (t *T) StrVal() string { return t.S }

// Cell is a memory cell and its value.
type Cell struct{ Addr, Val *T }

// Writes lists the memory a state has written.
func (x *Exec) Writes(st *State) []Cell {
	var r []Cell
	for a, v := range st.mem {
		r = append(r, Cell{a, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Addr.ID < r[j].Addr.ID })
	return r
}

// ChanCap is the capacity of a channel that was made.
func ChanCap(t *T) (int64, bool) {
	if t.Op != "mkchan" || len(t.A) == 0 {
		return 0, false
	}
	return t.A[0].Int64()
}

// MapHas is the condition that map m has key k, MapGet the entry.
func MapHas(m, k *T) *T               { return mkT(types.Typ[types.Bool], "mhas", "", m, k) }
func MapGet(m, k *T, t types.Type) *T { return mkT(t, "mget", "", m, k) }

// Stream is everything that arrives over a connection.
func Stream(conn *T) *T { return Mk("stream", "", conn) }

// Bases are the objects of type n that the state or one of the values res
// knows of; written: whether the field was stored to.
func (x *Exec) Bases(st *State, n *types.Named, res []*T) []*T {
	seen := map[*T]bool{}
	var r []*T
	add := func(b *T) {
		if !seen[b] {
			seen[b] = true
			r = append(r, b)
		}
	}
	scan := func(t *T) {
		t.Any(func(s *T) bool {
			if s.Op == "fa" && faOwner[s] == n {
				add(s.A[0])
			}
			if s.Op == "al" {
				if p := pointee(s.Typ); p != nil && types.Identical(p, n) {
					add(s)
				}
			}
			return false
		})
	}
	for c, v := range st.mem {
		scan(c)
		scan(v)
	}
	for _, v := range res {
		scan(v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// Stored is the value a state has for the address, if it has one.
func (x *Exec) Stored(st *State, a *T) (*T, bool) {
	v, ok := st.mem[a]
	return v, ok
}

// Lengths: t is at most a few times the lengths of lists that exist already,
// plus a constant up to max.
func Lengths(t *T, max int64) bool {
	l := toLin(t)
	if !l.c.IsInt64() || l.c.Int64() > max {
		return false
	}
	for a, k := range l.m {
		if k.Sign() > 0 && (a.Op != "len" || !k.IsInt64() || k.Int64() > 64) {
			return false
		}
		if k.Sign() < 0 && a.Op != "len" {
			return false
		}
	}
	return true
}
