package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is an observable step of a path.
type Ev struct {
	Kind  string
	Name  string
	Args  []*T
	Res   []*T
	Pos   token.Pos
	Ctx   string // inline call stack
	Fn    *ssa.Function
	Instr ssa.Instruction
	Held  []Lock
	Rec   *Loop
	St    *State // snapshot, only for "go"
	Fin   []*T   // "loop": values of the finite variables (by Rec.Vars) when it was left
}

// Trace is a persistent list of events.
type Trace struct {
	Prev *Trace
	Ev   *Ev
	N    int
}

func (t *Trace) list() []*Ev {
	var r []*Ev
	for ; t != nil; t = t.Prev {
		r = append(r, t.Ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Lock is a held lock.
type Lock struct {
	Key *T
	R   bool
	// from when on what it protects is stable
	Epoch *T
}

// Tmpl is a set of cells filled by a loop: for all j in [0,N) the cell
// Addr[j] holds Val[j]; several indices come from nested loops.
type Tmpl struct {
	Addr, Val *T
	J, N      []*T
}

// State is the abstract state of a path.
type State struct {
	mem    map[*T]*T
	glob   map[*T]*T // frozen globals, shared and read-only
	tmpl   []Tmpl
	stores map[*T][]*T // array root -> indices written
	facts  *Facts
	trace  *Trace
	held   []Lock
	epoch  *T
	esc    map[*T]bool // allocations that escaped to unknown code
	own    map[*T]bool // allocations nobody else can have seen
	vias   []*T        // places written through pointers held in lists
}

func newState() *State {
	return &State{mem: map[*T]*T{}, stores: map[*T][]*T{}, facts: newFacts(), esc: map[*T]bool{}}
}

func (s *State) fork() *State {
	n := &State{mem: make(map[*T]*T, len(s.mem)), glob: s.glob, tmpl: s.tmpl[:len(s.tmpl):len(s.tmpl)],
		stores: make(map[*T][]*T, len(s.stores)), facts: s.facts.clone(), trace: s.trace,
		held: s.held[:len(s.held):len(s.held)], epoch: s.epoch, vias: s.vias[:len(s.vias):len(s.vias)], esc: make(map[*T]bool, len(s.esc))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.stores {
		n.stores[k] = v[:len(v):len(v)]
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	if len(s.own) > 0 {
		n.own = make(map[*T]bool, len(s.own))
		for k := range s.own {
			n.own[k] = true
		}
	}
	return n
}

// publish notes that others may see what v leads to.
func (s *State) publish(v *T) {
	if len(s.own) == 0 {
		return
	}
	var gone []*T
	v.Any(func(u *T) bool {
		if u.Op == "al" && s.own[u] {
			delete(s.own, u)
			gone = append(gone, u)
		}
		return false
	})
	for _, a := range gone {
		for c, w := range s.mem {
			if c == a || below(c, a) {
				s.publish(w)
			}
		}
	}
}

// Facts of the path.
func (s *State) Facts() *Facts { return s.facts }

// Lits of the path.
func (s *State) Lits() []Cond { return s.facts.lits }

// Events of the path.
func (s *State) Events() []*Ev { return s.trace.list() }

// Held locks.
func (s *State) HeldLocks() []Lock { return s.held }

// Assume adds a literal; false means the state is infeasible.
func (s *State) Assume(c Cond) bool { return s.facts.Assume(c) }

// Spawn is the state in which a goroutine or callback starts.
func (s *State) Spawn() *State {
	n := s.fork()
	n.held = nil
	n.trace = nil
	n.own = nil
	return n
}

// ---- addresses ----

var (
	faOwner   = map[*T]*types.Named{}
	typeTable = map[string]types.Type{}
	fnTable   = map[string]*ssa.Function{}
)

// TypeKey names a type uniquely.
func TypeKey(t types.Type) string {
	s := types.TypeString(t, nil)
	if _, ok := typeTable[s]; !ok {
		typeTable[s] = t
	}
	return s
}

// TypeOf is the type with the given key.
func TypeOf(key string) types.Type { return typeTable[key] }

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

// FA is the address of field f of the struct at p.
func FA(p *T, f string, ftyp types.Type) *T {
	if p.Op == "ite" {
		return Ite(p.A[0], FA(p.A[1], f, ftyp), FA(p.A[2], f, ftyp))
	}
	var pt types.Type
	if ftyp != nil {
		pt = types.NewPointer(ftyp)
	}
	return mkT(pt, "fa", f, p)
}

// IA is the address of element i of the slice or array rooted at base.
func IA(base, i *T, ptyp types.Type) *T {
	if base.Op == "sl" {
		return IA(base.A[0], Add(base.A[1], i), ptyp)
	}
	return mkT(ptyp, "ia", "", base, i)
}

// Sl is base[lo:hi].
func Sl(base, lo, hi *T) *T {
	if base.Op == "sl" {
		return Sl(base.A[0], Add(base.A[1], lo), Add(base.A[1], hi))
	}
	if isBytesTerm(base) {
		return SubBytes(base, lo, hi)
	}
	if base.Op != "al" && base.Op != "fa" && base.Op != "ia" && lo == Zero && hi == Len(base) {
		return base
	}
	t := Mk("sl", "", base, lo, hi)
	if t.Typ == nil {
		if e := elemType(base.Typ); e != nil {
			t.Typ = types.NewSlice(e)
		}
	}
	return t
}

func isBytesTerm(t *T) bool {
	switch t.Op {
	case "cat", "sub", "zeros", "u", "str":
		return true
	}
	return false
}

// Ld is the initial content of the memory at addr (in version ver).
func Ld(addr *T, ver string, typ types.Type) *T {
	if typ == nil {
		typ = pointee(addr.Typ)
	}
	if addr.Op == "ite" {
		return Ite(addr.A[0], Ld(addr.A[1], ver, typ), Ld(addr.A[2], ver, typ))
	}
	return mkT(typ, "ld", ver, addr)
}

// Fld is field f of the struct value v.
func Fld(v *T, f string, typ types.Type) *T {
	switch v.Op {
	case "ld":
		return Ld(FA(v.A[0], f, typ), v.S, typ)
	case "agg":
		if st, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields() && i < len(v.A); i++ {
				if st.Field(i).Name() == f {
					return v.A[i]
				}
			}
		}
	case "zero":
		if typ == nil && v.Typ != nil {
			typ = fieldType(v.Typ, f)
		}
		return ZeroOf(typ)
	case "ite":
		return Ite(v.A[0], Fld(v.A[1], f, typ), Fld(v.A[2], f, typ))
	}
	return mkT(typ, "fld", f, v)
}

func fieldType(t types.Type, f string) types.Type {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return st.Field(i).Type()
			}
		}
	}
	return nil
}

// Elem is element i of the array or slice value v.
func Elem(v, i *T, typ types.Type) *T {
	switch v.Op {
	case "arr":
		if n, ok := i.Int64(); ok && n >= 0 && n < int64(len(v.A)) {
			return v.A[n]
		}
	case "ld":
		return Ld(IA(v.A[0], i, ptrTo(typ)), v.S, typ)
	case "zero":
		return ZeroOf(typ)
	case "ite":
		return Ite(v.A[0], Elem(v.A[1], i, typ), Elem(v.A[2], i, typ))
	case "coll":
		// elements appended by a loop
		if v.A[0].Op == "nil" || Len(v.A[0]) == Zero {
			return Subst(v.A[1], v.A[3], i)
		}
	}
	return mkT(typ, "elem", "", v, i)
}

func ptrTo(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

// Ite is c ? a : b, with c a boolean term.
func Ite(c, a, b *T) *T {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == "not" {
		return Ite(c.A[0], b, a)
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return CondOf(c).Not().Term()
	}
	return mkT(a.Typ, "ite", "", c, a, b)
}

// ZeroOf is the zero value of a type.
func ZeroOf(t types.Type) *T {
	if t == nil {
		return Mk("zero", "?")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Zero
		}
		return Nil
	case *types.Array:
		if isByteType(u.Elem()) {
			return Zeros(Int(u.Len()))
		}
		if u.Len() <= 64 {
			t := T{Op: "arr", Typ: t}
			for i := int64(0); i < u.Len(); i++ {
				t.A = append(t.A, ZeroOf(u.Elem()))
			}
			return mk(t)
		}
		return mkT(t, "zero", TypeKey(t))
	case *types.Struct:
		return mkT(t, "zero", TypeKey(t))
	case *types.Tuple:
		return Mk("zero", "tuple")
	}
	return Nil
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// IsByteSlice reports a []byte-like type (or string).
func IsByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByteType(u.Elem())
	case *types.Array:
		return isByteType(u.Elem())
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func constTerm(c *ssa.Const) *T {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return ZeroOf(c.Type())
		}
		if _, ok := c.Type().Underlying().(*types.Array); ok {
			return ZeroOf(c.Type())
		}
		return Nil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		v, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			return BigInt(v)
		}
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
				if n, ok := new(big.Int).SetString(v.ExactString(), 10); ok {
					return BigInt(n)
				}
			}
		}
	}
	return mkT(c.Type(), "const", c.Value.ExactString())
}

// Root is the object an address lies in.
func Root(a *T) *T {
	for a.Op == "fa" || a.Op == "ia" || a.Op == "sl" {
		a = a.A[0]
	}
	return a
}

// ancestors of an address, nearest first, including itself.
func ancestors(a *T) []*T {
	r := []*T{a}
	for a.Op == "fa" || a.Op == "ia" {
		a = a.A[0]
		r = append(r, a)
	}
	return r
}

// below reports whether cell c lies strictly below address a.
func below(c, a *T) bool {
	for c.Op == "fa" || c.Op == "ia" {
		c = c.A[0]
		if c == a {
			return true
		}
	}
	return false
}

// ---- memory ----

// project reads the part of value v (stored at anc) that lies at addr.
func (x *Exec) project(st *State, v, anc, addr *T, typ types.Type) *T {
	if addr == anc {
		return v
	}
	up := x.project(st, v, anc, addr.A[0], pointee(addr.A[0].Typ))
	switch addr.Op {
	case "fa":
		return Fld(up, addr.S, typ)
	case "ia":
		if typ != nil && isByteType(typ) {
			return ByteAt(up, addr.A[1])
		}
		return Elem(up, addr.A[1], typ)
	}
	return Mk("fld", "?", up)
}

func (x *Exec) isShared(addr *T) bool {
	for a := addr; a.Op == "fa" || a.Op == "ia"; a = a.A[0] {
		if a.Op == "fa" {
			if n := faOwner[a]; n != nil && x.P.hasMutex(n) && Root(a).Op != "al" {
				return true
			}
		}
	}
	return false
}

func (p *Prog) hasMutex(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type().String()
		if t == "sync.Mutex" || t == "sync.RWMutex" || t == "*sync.Mutex" || t == "*sync.RWMutex" {
			return true
		}
	}
	return false
}

func (x *Exec) read(st *State, addr *T, typ types.Type) *T {
	if addr.Op == "ite" {
		return Ite(addr.A[0], x.read(st, addr.A[1], typ), x.read(st, addr.A[2], typ))
	}
	if addr.Op == "cell" {
		if v, ok := st.mem[addr]; ok {
			return v
		}
	}
	// aggregates with separately stored parts
	if typ != nil {
		if u, ok := typ.Underlying().(*types.Struct); ok {
			if x.hasBelow(st, addr) || u.NumFields() > 0 && x.tmplBelow(st, addr) {
				return x.aggregate(st, addr, typ, u)
			}
		}
		if u, ok := typ.Underlying().(*types.Array); ok && !isByteType(u.Elem()) && u.Len() <= 64 {
			if x.hasBelow(st, addr) || x.initBelow(st, addr) || x.tmplBelow(st, addr) || len(st.stores[addr]) > 0 {
				t := T{Op: "arr", Typ: typ}
				for i := int64(0); i < u.Len(); i++ {
					t.A = append(t.A, x.read(st, IA(addr, Int(i), ptrTo(u.Elem())), u.Elem()))
				}
				return mk(t)
			}
		}
	}
	// element of a byte region
	if addr.Op == "ia" && typ != nil && isByteType(typ) {
		return ByteAt(x.content(st, addr.A[0]), addr.A[1])
	}
	// element of a slice value that is itself a known collection
	if addr.Op == "ia" {
		if b := addr.A[0]; b.Op == "coll" || b.Op == "append" || b.Op == "appends" || b.Op == "acc" {
			if l := lastOf(st.stores[b]); l != nil && l.Op == "sortmark" {
				return Ld(addr, x.version(st, addr), typ)
			}
			if x.version(st, addr) == "" && st.mem[addr] == nil {
				if v, ok := x.collElem(st, b, addr.A[1], typ); ok {
					return v
				}
			}
		}
	}
	// part of such an element
	if addr.Op == "fa" {
		e := addr
		for e.Op == "fa" {
			e = e.A[0]
		}
		if e.Op == "ia" && (e.A[0].Op == "coll" || e.A[0].Op == "append") {
			if l := lastOf(st.stores[e.A[0]]); l == nil || l.Op != "sortmark" {
				known := x.version(st, e) == ""
				for c := range st.mem {
					known = known && c != e && !below(c, e)
				}
				if known {
					if v, ok := x.collElem(st, e.A[0], e.A[1], pointee(e.Typ)); ok {
						return x.project(st, v, e, addr, typ)
					}
				}
			}
		}
	}
	for _, a := range ancestors(addr) {
		if v, ok := st.mem[a]; ok && (a == addr || !x.storedAround(st, addr, a)) {
			return x.project(st, v, a, addr, typ)
		}
	}
	for i := len(st.tmpl) - 1; i >= 0; i-- {
		if v, ok := x.fromTmpl(st, st.tmpl[i], addr, typ); ok {
			return v
		}
	}
	root := Root(addr)
	ver := ""
	for a := addr; a.Op == "fa" || a.Op == "ia"; a = a.A[0] {
		if a.Op == "ia" {
			ver += x.version(st, a)
		}
	}
	if len(st.vias) > 0 && viaList(addr) {
		for _, w := range st.vias {
			if w != addr && x.otherElem(st, w, addr) {
				ver += fmt.Sprintf("v%d", w.ID)
			}
		}
	}
	if root.Op == "al" || root.Op == "mkslice" {
		for _, a := range ancestors(addr) {
			if v, ok := st.glob[a]; ok {
				return x.project(st, v, a, addr, typ)
			}
		}
		if typ != nil {
			if u, ok := typ.Underlying().(*types.Struct); ok {
				for c := range st.glob {
					if below(c, addr) {
						return x.aggregate(st, addr, typ, u)
					}
				}
			}
		}
		if x.initAround(st, addr) {
			return Ld(addr, ver, typ)
		}
		if !st.esc[root] && ver == "" {
			return ZeroOf(typ)
		}
		if ver == "" {
			ver = "esc"
		}
		return Ld(addr, ver, typ)
	}
	if root.Op == "glob" && st.glob != nil {
		for _, a := range ancestors(addr) {
			if v, ok := st.glob[a]; ok {
				return x.project(st, v, a, addr, typ)
			}
		}
		if typ != nil {
			if u, ok := typ.Underlying().(*types.Struct); ok {
				for c := range st.glob {
					if below(c, addr) {
						return x.aggregate(st, addr, typ, u)
					}
				}
			}
			if g := x.globalOf(root); g != nil && x.P.frozen[g] && ver == "" && !x.initAround(st, addr) {
				return ZeroOf(typ)
			}
		}
	}
	if x.isShared(addr) {
		ep, stable := x.kept(st, addr)
		if !stable {
			ep = st.epoch
		}
		if ep != nil {
			ver += "@" + fmt.Sprint(ep.ID)
		}
	}
	return Ld(addr, ver, typ)
}

// tmplBelow: a loop wrote into the memory at addr.
func (x *Exec) tmplBelow(st *State, addr *T) bool {
	for _, t := range st.tmpl {
		for b := t.Addr; b.Op == "fa" || b.Op == "ia"; b = b.A[0] {
			bind := map[*T]*T{}
			for _, j := range t.J {
				bind[j] = nil
			}
			if x.match(b.A[0], addr, bind) {
				return true
			}
		}
	}
	return false
}

// initBelow: a part of the memory at addr was set when the program started.
func (x *Exec) initBelow(st *State, addr *T) bool {
	for c := range st.glob {
		if below(c, addr) {
			return true
		}
	}
	return false
}

// initAround: another element of an array that addr lies in was set when the
// program started, at an index that may be the one of addr.
func (x *Exec) initAround(st *State, addr *T) bool {
	if st.glob == nil {
		return false
	}
	for a := addr; a.Op == "fa" || a.Op == "ia"; a = a.A[0] {
		if a.Op != "ia" {
			continue
		}
		for c := range st.glob {
			for b := c; b.Op == "fa" || b.Op == "ia"; b = b.A[0] {
				if b.Op == "ia" && b.A[0] == a.A[0] && !x.distinct(st, b.A[1], a.A[1]) {
					return true
				}
			}
		}
		for _, t := range x.P.Globals.tmpl {
			for b := t.Addr; b.Op == "fa" || b.Op == "ia"; b = b.A[0] {
				if b.Op == "ia" && b.A[0] == a.A[0] {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) globalOf(t *T) *ssa.Global {
	if t.Op != "glob" {
		return nil
	}
	return globTable[t.S]
}

var globTable = map[string]*ssa.Global{}

func (x *Exec) hasBelow(st *State, addr *T) bool {
	for c := range st.mem {
		if below(c, addr) {
			return true
		}
	}
	return false
}

func (x *Exec) aggregate(st *State, addr *T, typ types.Type, u *types.Struct) *T {
	t := T{Op: "agg", S: TypeKey(typ), Typ: typ}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		t.A = append(t.A, x.read(st, FA(addr, f.Name(), f.Type()), f.Type()))
	}
	if len(t.A) == 0 {
		return ZeroOf(typ)
	}
	return mk(t)
}

// version names the writes to elements of the same array that may have hit a.
func (x *Exec) version(st *State, a *T) string {
	base, idx := a.A[0], a.A[1]
	var hit []string
	for _, i := range st.stores[base] {
		if x.distinct(st, i, idx) {
			continue
		}
		hit = append(hit, fmt.Sprint(i.ID))
	}
	if hit == nil {
		return ""
	}
	return "w" + strings.Join(hit, ".")
}

func (x *Exec) distinct(st *State, i, j *T) bool {
	if bs := befores(i, nil); len(bs) > 0 {
		f := st.facts.clone()
		for _, b := range bs {
			if !f.Assume(Le(Zero, b)) || !f.Assume(Lt(b, b.A[0])) {
				return true
			}
		}
		return f.Eval(EqInt(i, j)) == 0
	}
	return st.facts.Eval(EqInt(i, j)) == 0
}

// befores lists the terms in t that stand for some number below another.
func befores(t *T, r []*T) []*T {
	if t.Op == "before" {
		r = append(r, t)
	}
	for _, a := range t.A {
		r = befores(a, r)
	}
	return r
}

// storedAround reports whether the element cell a (an ancestor of addr, or
// addr itself) may have been overwritten through another index since.
func (x *Exec) storedAround(st *State, addr, a *T) bool {
	return false
}

func (x *Exec) collElem(st *State, b, i *T, typ types.Type) (*T, bool) {
	switch b.Op {
	case "append":
		n := Len(b.A[0])
		for k := 1; k < len(b.A); k++ {
			if EqInt(i, AddN(n, int64(k-1))) == (Cond{True, true}) {
				return b.A[k], true
			}
		}
		if st.facts.Eval(Lt(i, n)) == 1 {
			return x.read(st, IA(b.A[0], i, ptrTo(typ)), typ), true
		}
	case "coll":
		n := Len(b.A[0])
		if n == Zero || st.facts.Eval(Le(n, i)) == 1 {
			return Subst(b.A[1], b.A[3], Sub(i, n)), true
		}
		if st.facts.Eval(Lt(i, n)) == 1 {
			return x.read(st, IA(b.A[0], i, ptrTo(typ)), typ), true
		}
	}
	return nil, false
}

// match binds the index J of a template so that its address equals a.
func (x *Exec) match(pat, a *T, bind map[*T]*T) bool {
	if pat == a {
		return true
	}
	if b, ok := bind[pat]; ok {
		if b == nil {
			bind[pat] = a
			return true
		}
		return b == a
	}
	if len(pat.A) == 0 {
		return false
	}
	if pat.Op == "lin" {
		// c*j + rest == a
		for i, m := range pat.A {
			b, isJ := bind[m]
			if isJ && (pat.Co[i].Cmp(big.NewInt(1)) == 0 || pat.Co[i].Cmp(big.NewInt(-1)) == 0) {
				rest := Sub(pat, Scale(m, pat.Co[i]))
				for j, v := range bind {
					if rest.Mentions(j) {
						if v == nil {
							return false
						}
						rest = Subst(rest, j, v)
					}
				}
				d := Sub(a, rest)
				if pat.Co[i].Sign() < 0 {
					d = Scale(d, big.NewInt(-1))
				}
				if b == nil {
					bind[m] = d
					return true
				}
				return b == d
			}
		}
		return false
	}
	if pat.Op != a.Op || pat.S != a.S || len(pat.A) != len(a.A) {
		return false
	}
	for i := range pat.A {
		if !x.match(pat.A[i], a.A[i], bind) {
			return false
		}
	}
	return true
}

func (x *Exec) fromTmpl(st *State, t Tmpl, addr *T, typ types.Type) (*T, bool) {
	for _, a := range ancestors(addr) {
		b := map[*T]*T{}
		for _, j := range t.J {
			b[j] = nil
		}
		if !x.match(t.Addr, a, b) {
			continue
		}
		in := 1
		for i, j := range t.J {
			v := b[j]
			if v == nil {
				in = -1
				break
			}
			n := t.N[i]
			for _, o := range t.J[:i] {
				n = Subst(n, o, b[o])
			}
			lo, hi := st.facts.Eval(Le(Zero, v)), st.facts.Eval(Lt(v, n))
			if lo == 0 || hi == 0 {
				in = 0
				break
			}
			if lo != 1 || hi != 1 {
				in = -1
			}
		}
		if in == 0 {
			continue
		}
		if in < 0 {
			return Ld(addr, "tmpl?", typ), true
		}
		return x.project(st, SubstMap(t.Val, b), a, addr, typ), true
	}
	return nil, false
}

// content is the byte string held by a byte slice value or array address.
func (x *Exec) content(st *State, s *T) *T {
	switch s.Op {
	case "nil":
		return Cat()
	case "sl":
		return SubBytes(x.content(st, s.A[0]), s.A[1], s.A[2])
	case "mkslice":
		if v, ok := st.mem[s]; ok {
			return v
		}
		if v, ok := st.glob[s]; ok {
			return v
		}
		for i := len(st.tmpl) - 1; i >= 0; i-- {
			if v, ok := x.fromTmpl(st, st.tmpl[i], s, nil); ok {
				return v
			}
		}
		return Zeros(s.A[0])
	case "al", "fa", "ia", "glob":
		// address of an array
		return x.read(st, s, pointee(s.Typ))
	case "ite":
		return Ite(s.A[0], x.content(st, s.A[1]), x.content(st, s.A[2]))
	case "append":
		c := x.content(st, s.A[0])
		for _, e := range s.A[1:] {
			c = Cat(c, U("8", e))
		}
		return c
	case "appends":
		return Cat(x.content(st, s.A[0]), x.content(st, s.A[1]))
	}
	if v, ok := st.mem[s]; ok {
		return v
	}
	return s
}

// setContent replaces the bytes behind a byte slice value.
func (x *Exec) setContent(st *State, s, c *T) {
	if s.Op == "sl" {
		b := s.A[0]
		old := x.content(st, b)
		n := Len(old)
		if Sub(s.A[2], s.A[1]) != Len(c) {
			n = nil
		}
		if n != nil {
			x.setContent(st, b, Splice(old, n, s.A[1], c))
		} else {
			x.setContent(st, b, Mk("upd", "", old, s.A[1], s.A[2], c))
		}
		return
	}
	switch s.Op {
	case "al", "fa", "ia", "glob":
		x.write(st, s, c)
		return
	}
	st.mem[s] = c
}

func (x *Exec) write(st *State, addr, v *T) {
	if addr.Op == "ia" && (isByteElem(addr)) {
		base := addr.A[0]
		old := x.content(st, base)
		i := addr.A[1]
		n := Len(old)
		if _, ok := i.Int64(); ok && old.Op != "upd" {
			x.setContent(st, base, Splice(old, n, i, U("8", v)))
		} else {
			nv, ok := setBitOf(old, i, v)
			if !ok {
				nv = Mk("upd1", "", old, i, v)
			}
			x.setContent(st, base, nv)
		}
		return
	}
	for c := range st.mem {
		if below(c, addr) {
			delete(st.mem, c)
		}
	}
	// element stores may hit other elements of the same array
	for a := addr; a.Op == "fa" || a.Op == "ia"; a = a.A[0] {
		if a.Op != "ia" {
			continue
		}
		base, idx := a.A[0], a.A[1]
		known := false
		for _, i := range st.stores[base] {
			if i == idx {
				known = true
			}
		}
		if !known {
			st.stores[base] = append(st.stores[base], idx)
		}
		for c := range st.mem {
			for b := c; b.Op == "fa" || b.Op == "ia"; b = b.A[0] {
				if b.Op == "ia" && b.A[0] == base && b.A[1] != idx && !x.distinct(st, b.A[1], idx) {
					delete(st.mem, c)
					break
				}
			}
		}
	}
	// the same part of what another element of a list points to
	if viaList(addr) {
		for c := range st.mem {
			if c != addr && x.otherElem(st, c, addr) {
				delete(st.mem, c)
			}
		}
		known := false
		for _, w := range st.vias {
			known = known || w == addr
		}
		if !known {
			st.vias = append(st.vias[:len(st.vias):len(st.vias)], addr)
		}
	}
	// a store into part of a byte array value held by an ancestor cell
	st.mem[addr] = v
}

// viaList: the address is reached through a pointer held in a list.
func viaList(a *T) bool {
	ld := false
	for {
		switch a.Op {
		case "fa":
		case "ld":
			ld = true
		case "ia":
			if ld {
				return true
			}
		default:
			return false
		}
		a = a.A[0]
	}
}

// otherElem: a and b differ only in which elements of lists they are reached
// through, and these may be the same.
func (x *Exec) otherElem(st *State, a, b *T) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op || len(a.A) == 0 || len(b.A) == 0 {
		return false
	}
	switch a.Op {
	case "fa":
		return a.S == b.S && x.otherElem(st, a.A[0], b.A[0])
	case "ld":
		return x.otherElem(st, a.A[0], b.A[0])
	case "ia":
		return !x.distinct(st, a.A[1], b.A[1]) && x.otherElem(st, a.A[0], b.A[0])
	}
	return false
}

func isByteElem(a *T) bool {
	t := pointee(a.Typ)
	return t != nil && isByteType(t)
}

// DeepVal replaces pointers to data by the data, recursively: the value an
// external pure function sees.
func (x *Exec) DeepVal(st *State, t *T, typ types.Type) *T {
	if typ == nil {
		typ = t.Typ
	}
	return x.deep(st, t, typ, 0)
}

func (x *Exec) deep(st *State, t *T, typ types.Type, d int) *T {
	if d > 6 || typ == nil {
		return t
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if t == Nil {
			return t
		}
		return x.deep(st, x.read(st, t, u.Elem()), u.Elem(), d+1)
	case *types.Slice:
		if isByteType(u.Elem()) {
			return x.content(st, t)
		}
	case *types.Struct:
		if t.Op == "agg" {
			n := T{Op: "agg", S: t.S, Typ: t.Typ}
			same := true
			for i := range t.A {
				v := x.deep(st, t.A[i], u.Field(i).Type(), d+1)
				if !(v.Op == "ld" && v.A[0] == t.A[i]) {
					same = false
				}
				n.A = append(n.A, v)
			}
			_ = same
			return mk(n)
		}
	}
	return t
}

// ---- merging ----

func (s *State) sig() string {
	var b strings.Builder
	ids := make([][2]int, 0, len(s.mem))
	for k, v := range s.mem {
		ids = append(ids, [2]int{k.ID, v.ID})
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i][0] < ids[j][0] })
	for _, p := range ids {
		fmt.Fprintf(&b, "%d=%d,", p[0], p[1])
	}
	b.WriteByte('|')
	for _, l := range s.held {
		fmt.Fprintf(&b, "%d%v,", l.Key.ID, l.R)
		if l.Epoch != nil {
			fmt.Fprintf(&b, "%d,", l.Epoch.ID)
		}
	}
	b.WriteByte('|')
	for e := s.trace; e != nil; e = e.Prev {
		fmt.Fprintf(&b, "%p,", e.Ev)
	}
	return b.String()
}

// DumpMem renders the memory of a state.
func (s *State) DumpMem() string {
	var ks []*T
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "      %s := %s\n", k, s.mem[k])
	}
	for _, t := range s.tmpl {
		fmt.Fprintf(&b, "      tmpl %s := %s for %v < %v\n", t.Addr, t.Val, t.J, t.N)
	}
	return b.String()
}

// Owned: nobody else can have seen the object address a belongs to.
func (s *State) Owned(a *T) bool { return s.own[Root(a)] }

// OwnerType is the struct type whose field address a is, if known.
func OwnerType(a *T) *types.Named { return faOwner[a] }
