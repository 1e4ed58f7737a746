package rules

import (
	"go/types"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// Functions of package consensus whose meaning other checks decide.
var consensusOpaque = opaque("consensus.Block.Validate", "consensus.BlockHeader.Validate", "consensus.NextDifficulty",
	"consensus.Proof.ToDifficulty", "consensus.Block.Hash", "consensus.BlockHeader.Hash")

// chainRun interprets a function of the chain and remembers what calls got.
type chainRun struct {
	*calls
	c  *Ctx
	ps []Path
	as []*T
	// calls whose arguments differ between paths
	multi map[*T]bool
}

func (c *Ctx) chainRun(f *ssa.Function, cfg eng.Config, as []*T) *chainRun {
	r := &chainRun{calls: newCalls(), c: c, multi: map[*T]bool{}}
	see := cfg.OnEvent
	cfg.Opaque = consensusOpaque
	cfg.OnEvent = func(st *State, e *Ev) {
		r.note(st, e)
		if see != nil {
			see(st, e)
		}
	}
	r.x = c.Exec(cfg)
	if as == nil {
		as = eng.ParamSyms(f)
	}
	r.as = as
	r.ps = splitAll(r.x.Run(f, as))
	c.Done(r.x, r.ps)
	return r
}

// note is like see, but block ids are taken apart: hash, height (or nil).
func (r *chainRun) note(st *State, e *Ev) {
	if e.Kind != "call" || len(e.Res) == 0 {
		return
	}
	var as []*T
	for _, a := range e.Args {
		as = append(as, a)
		if a.Typ != nil && typeName(a.Typ) == "consensus.BlockID" || a.Op == "agg" && a.Typ != nil {
			t := a.Typ
			h := fld(a, t, "Height")
			at := h
			if p, ok := derefOf(h); ok {
				h = r.x.Load(st, h, p)
			}
			as = as[:len(as)-1]
			as = append(as, eng.Mk("blockid", "", r.x.Content(st, fld(a, t, "Hash")), h, at))
		}
	}
	for _, t := range e.Res {
		if old, ok := r.args[t]; ok {
			for i := range as {
				if i < len(old) && old[i] != as[i] {
					r.multi[t] = true
				}
			}
		}
		r.args[t] = as
		r.name[t] = e.Name
	}
}

// lookup are the arguments of a storage call, as this path has them.
func (r *chainRun) lookup(st *State, t *T, name string) []*T {
	a := r.arguments(t, name)
	if len(a) < 2 || a[1].Op != "blockid" {
		return nil
	}
	if r.multi[t] {
		if p, ok := derefOf(a[1].A[2]); ok {
			a = append([]*T{}, a...)
			a[1] = eng.Mk("blockid", "", a[1].A[0], r.x.Load(st, a[1].A[2], p), a[1].A[2])
		}
	}
	return a
}

// of: v is the block p points to, or the block or header itself.
func (r *chainRun) of(st *State, v, p *T) bool {
	if v == p || same(st, v, p) {
		return true
	}
	t, ok := derefOf(p)
	if !ok {
		return false
	}
	if same(st, v, eng.FieldAddr(p, t, "Header")) {
		return true
	}
	b := r.x.Load(st, p, t)
	return v == b || same(st, v, eng.Fld(b, "Header", eng.FieldType(t, "Header")))
}

// hashOf: t is the block hash of what p points to.
func (r *chainRun) hashOf(st *State, t, p *T) bool {
	for _, n := range []string{"consensus.Block.Hash", "consensus.BlockHeader.Hash"} {
		if a := r.arguments(t, n); len(a) == 1 && r.of(st, a[0], p) {
			return true
		}
	}
	return false
}

// equalHash: the path knows whether two hashes are equal; is tells them apart.
func equalHash(st *State, a, b func(t *T) bool) int {
	for _, l := range st.Lits() {
		if l.T.Op != "eqb" {
			continue
		}
		p, q := l.T.A[0], l.T.A[1]
		if a(p) && b(q) || a(q) && b(p) {
			if l.Pos {
				return 1
			}
			return 0
		}
	}
	return -1
}

// validated: the path knows whether the block p points to passed validation.
func (r *chainRun) validated(st *State, p *T) int {
	for _, l := range st.Lits() {
		if l.T.Op != "isnil" {
			continue
		}
		if a := r.arguments(l.T.A[0], "consensus.Block.Validate"); len(a) == 1 && r.of(st, a[0], p) {
			if l.Pos {
				return 1
			}
			return 0
		}
	}
	return -1
}

// looked up blocks: results of the storage for a hash (and height).
func (r *chainRun) found(st *State, name string, match func(hash, height *T, rest []*T) bool) []*T {
	var out []*T
	seen := map[*T]bool{}
	try := func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		a := r.lookup(st, t, name)
		if a == nil {
			return
		}
		if match(a[1].A[0], a[1].A[1], a[2:]) {
			out = append(out, t)
		}
	}
	for _, l := range st.Lits() {
		l.T.Any(func(s *T) bool {
			if s.Op == "res" && s.S == name {
				try(s)
			}
			return false
		})
	}
	for _, e := range st.Events() {
		if e.Kind == "call" && e.Name == name {
			for _, t := range e.Res {
				try(t)
			}
		}
	}
	return out
}

func field(x *eng.Exec, st *State, p *T, names ...string) *T {
	t, _ := derefOf(p)
	return fld(x.Load(st, p, t), t, names...)
}

// ---- V09 ----

func runV09(c *Ctx) {
	f := c.Method("chain", "Chain", "ProcessBlock")
	heads := c.accessor("Head")
	if f == nil || heads == nil {
		return
	}
	as := eng.ParamSyms(f)
	if !c.Must(len(as) == 2, "anchor", "ProcessBlock", f.Pos(), "ProcessBlock takes %d arguments", len(as)) {
		return
	}
	blk := as[1]
	if _, ok := derefOf(blk); !c.Must(ok, "anchor", "ProcessBlock block", f.Pos(), "ProcessBlock does not take a pointer to a block") {
		return
	}
	r := c.chainRun(f, eng.Config{}, as)
	known, unknown, tips, refused := 0, 0, 0, 0
	for _, p := range r.ps {
		if p.End != "return" {
			continue // refused by ending
		}
		if !retNil(p) {
			refused++
			if !retErr(p) {
				c.Fail("decided", "ProcessBlock", p.Pos, "it is not clear whether the block is accepted: %v", p.Res)
			}
			continue
		}
		st := p.St
		fs := st.Facts()
		hd := func(t *T) bool {
			for _, n := range []string{"consensus.Block.Hash", "consensus.BlockHeader.Hash"} {
				if a := r.arguments(t, n); len(a) == 1 && heads(a[0]) {
					return true
				}
			}
			return false
		}
		if equalHash(st, hd, func(t *T) bool { return r.hashOf(st, t, blk) }) == 1 {
			tips++
			continue
		}
		key := lits(st)
		c.Must(r.validated(st, blk) == 1, "accepts-only", "validated "+c.P.Pos(p.Pos), p.Pos, "a block is accepted without having passed its own validation (%s)", key)
		h := func(names ...string) *T { return field(r.x, st, blk, append([]string{"Header"}, names...)...) }
		parents := r.found(st, "chain.Storage.GetBlock", func(hash, height *T, _ []*T) bool {
			return same(st, hash, r.x.Content(st, h("Previous"))) && height != eng.Nil && same(st, height, eng.AddN(h("Height"), -1))
		})
		if !c.Must(len(parents) > 0, "parent", "lookup "+c.P.Pos(p.Pos), p.Pos, "a block is accepted without its parent having been looked up by the previous hash at the height just below (%s)", key) {
			continue
		}
		ok := false
		for _, pr := range parents {
			if fs.Eval(eng.IsNil(pr)) == 1 {
				ok = true
				unknown++
			}
		}
		if ok {
			continue
		}
		known++
		pr := parents[0]
		c.Must(fs.Eval(eng.IsNil(pr)) == 0, "parent", "exists", p.Pos, "the parent is used without having been found")
		ph := func(names ...string) *T { return field(r.x, st, pr, append([]string{"Header"}, names...)...) }
		c.Must(fs.Eval(eng.Lt(eng.TimeNanos(ph("Timestamp")), eng.TimeNanos(h("Timestamp")))) == 1, "accepts-only", "time", p.Pos,
			"a block is accepted without its time being strictly later than its parent's (%s)", key)
		// total difficulty
		total := false
		for _, l := range st.Lits() {
			l.T.Any(func(s *T) bool {
				if a := r.arguments(s, "consensus.Proof.ToDifficulty"); s.Op == "res" && len(a) == 1 {
					pow := ph("POW")
					at := a[0]
					if t, ok := derefOf(at); ok {
						at = r.x.Load(st, at, t)
					}
					if same(st, at, pow) && fs.Eval(eng.EqInt(h("TotalDifficulty"), eng.Add(ph("TotalDifficulty"), s))) == 1 {
						total = true
					}
				}
				return false
			})
		}
		c.Must(total, "accepts-only", "total difficulty", p.Pos, "a block is accepted without its total difficulty having been found equal to the parent's total plus the difficulty of the parent's proof (%s)", key)
		// difficulty
		diff := false
		why := "no comparison with the next difficulty"
		for _, l := range st.Lits() {
			l.T.Any(func(s *T) bool {
				a := r.arguments(s, "consensus.NextDifficulty")
				if s.Op != "res" || len(a) != 1 {
					return false
				}
				if fs.Eval(eng.Le(s, h("Difficulty"))) != 1 {
					why = "the difficulty may be lower than the computed one"
					return false
				}
				hist := r.lookup(st, a[0], "chain.Storage.From")
				if len(hist) != 3 || hist[1].Op != "blockid" {
					why = "the history " + a[0].String() + " does not come from storage"
					return false
				}
				from, limit := hist[1].A[1], hist[2]
				if hist[1].A[0] != eng.Nil && hist[1].A[0] != eng.Cat() && fs.Eval(eng.IsNil(hist[1].A[0])) != 1 {
					why = "the history is looked up by hash"
					return false
				}
				n := eng.Int(71)
				if !same(st, limit, n) {
					why = "the history has " + limit.String() + " blocks, not 71"
					return false
				}
				start := eng.Sub(h("Height"), n)
				good := fs.Eval(eng.Le(h("Height"), n)) == 1 && (same(st, from, eng.Zero) || fs.Eval(eng.EqInt(h("Height"), n)) == 1) ||
					fs.Eval(eng.Le(n, h("Height"))) == 1 && same(st, from, start)
				if !good {
					why = "the history starts at " + from.String()
					return false
				}
				diff = true
				return false
			})
		}
		c.Must(diff, "accepts-only", "difficulty", p.Pos, "a block is accepted without its difficulty having been compared with the one computed from the 71 blocks before it: %s (%s)", why, key)
	}
	c.Floor("ways a block with known parent is accepted", known, 1)
	c.Floor("ways a block is refused", refused, 4)
	c.Cover["ways the current tip is accepted"] = tips
	c.Cover["ways a block without parent is accepted"] = unknown
	c.Sample("ProcessBlock: %d paths; accepted: %d with parent, %d without, %d as current tip; %d refused", len(r.ps), known, unknown, tips, refused)
}

// accessor recognises the values a method of the chain without arguments
// reports: Head yields the pointer it copies from (or the value itself).
func (c *Ctx) accessor(name string) func(t *T) bool {
	f := c.Method("chain", "Chain", name)
	if f == nil {
		return nil
	}
	x := c.Exec(eng.Config{Opaque: consensusOpaque})
	ps := x.Run(f, eng.ParamSyms(f))
	var shapes []*T
	for _, p := range ps {
		if p.End == "return" && len(p.Res) == 1 {
			shapes = append(shapes, p.Res[0])
		}
	}
	c.Done(x, ps)
	if !c.Must(len(shapes) == 1, "anchor", name, f.Pos(), "%s does not report one value", name) {
		return nil
	}
	want := eng.Unversioned(shapes[0])
	return func(t *T) bool {
		u := eng.Unversioned(t)
		if u == want || alphaEq(u, want) {
			return true
		}
		if e, ok := derefOf(u); ok {
			l := eng.Unversioned(x.Load(x.Start(), u, e))
			return l == want || alphaEq(l, want)
		}
		return false
	}
}

// ---- V11 ----

func runV11(c *Ctx) {
	f := c.Method("chain", "Chain", "Validate")
	head, gen := c.accessor("Head"), c.accessor("Genesis")
	if f == nil || head == nil || gen == nil {
		return
	}
	r := c.chainRun(f, eng.Config{Plain: true, Unroll: 1}, nil)
	accepted, steps := 0, 0
	for _, p := range r.ps {
		if p.End != "return" {
			continue
		}
		if !retNil(p) {
			c.Must(retErr(p), "decided", "Validate", p.Pos, "it is not clear whether the chain is accepted: %v", p.Res)
			continue
		}
		accepted++
		isGen := func(t *T) bool {
			for _, n := range []string{"consensus.Block.Hash", "consensus.BlockHeader.Hash"} {
				if a := r.arguments(t, n); len(a) == 1 && gen(a[0]) {
					return true
				}
			}
			return false
		}
		why := "there is no walk from the head"
		ok := false
		for _, e := range p.St.Events() {
			if e.Kind != "loop" || e.Rec == nil {
				continue
			}
			for _, v := range e.Rec.Vars {
				if v.Init == nil || v.Val == nil || !head(v.Init) {
					continue
				}
				good := true
				for _, t := range e.Rec.Trans {
					steps++
					next := t.Next[v]
					a := r.lookup(t.St, next, "chain.Storage.GetBlock")
					switch {
					case r.validated(t.St, v.Val) != 1:
						good, why = false, "a block of the walk is not validated: "+condText(t.Lits)
					case len(a) != 2 || a[1].Op != "blockid":
						good, why = false, "the walk continues with "+next.String()
					case !same(t.St, a[1].A[0], r.x.Content(t.St, field(r.x, t.St, v.Val, "Header", "Previous"))):
						good, why = false, "the walk continues with the block of hash "+a[1].A[0].String()
					case a[1].A[1] != eng.Nil && !same(t.St, a[1].A[1], eng.AddN(field(r.x, t.St, v.Val, "Header", "Height"), -1)):
						good, why = false, "the walk continues at height "+a[1].A[1].String()
					case t.St.Facts().Eval(eng.IsNil(next)) != 0:
						good, why = false, "the walk continues without the parent having been found"
					}
				}
				last := eng.Subst(v.Val, e.Rec.K, e.Args[1])
				if e.Args[1] == eng.Zero {
					last = v.Init
				}
				if equalHash(p.St, func(t *T) bool { return r.hashOf(p.St, t, last) }, isGen) != 1 {
					good, why = false, "the walk ends at a block that is not known to be the genesis block"
				}
				ok = ok || good
			}
		}
		c.Must(ok, "accepts-only", "walk", p.Pos, "the chain is accepted although %s (%s)", why, lits(p.St))
	}
	c.Floor("ways a chain is accepted", accepted, 1)
	c.Floor("steps of the walk", steps, 1)
	c.Sample("Chain.Validate: %d paths, %d accepting", len(r.ps), accepted)
}

// ---- V15 ----

func runV15(c *Ctx) {
	get := map[string]*ssa.Function{}
	for _, n := range []string{"Height", "TotalDifficulty", "Head", "Genesis"} {
		get[n] = c.Method("chain", "Chain", n)
		if get[n] == nil {
			return
		}
	}
	ct := c.Named("chain", "Chain")
	if ct == nil {
		return
	}
	// in a state, what the accessors of a chain report
	report := func(st *State, recv *T, name string) (*T, *State) {
		x := c.Exec(eng.Config{Opaque: consensusOpaque})
		ps := x.RunIn(get[name], []*T{recv}, st)
		c.Done(x, nil)
		if len(ps) != 1 || ps[0].End != "return" || len(ps[0].Res) != 1 {
			c.Fail("accessor", name, get[name].Pos(), "%s has %d paths", name, len(ps))
			return nil, nil
		}
		return ps[0].Res[0], ps[0].St
	}
	agree := func(p Path, recv *T, what string) {
		hd, st := report(p.St, recv, "Head")
		if hd == nil {
			return
		}
		ht, _ := report(p.St, recv, "Height")
		td, _ := report(p.St, recv, "TotalDifficulty")
		if ht == nil || td == nil {
			return
		}
		bt := c.Named("consensus", "Block")
		c.Must(same(st, ht, fld(hd, bt, "Header", "Height")), "height", what, p.Pos, "%s leaves the reported height %v while the head has %v", what, ht, fld(hd, bt, "Header", "Height"))
		c.Must(same(st, td, fld(hd, bt, "Header", "TotalDifficulty")), "total", what, p.Pos, "%s leaves the reported total difficulty %v while the head has %v", what, td, fld(hd, bt, "Header", "TotalDifficulty"))
	}
	// construction
	f := c.Func("chain", "New")
	if f == nil {
		return
	}
	r := c.chainRun(f, eng.Config{}, nil)
	made, stored, empty := 0, 0, 0
	for _, p := range r.ps {
		if p.End != "return" || len(p.Res) == 0 {
			continue
		}
		made++
		ch := p.Res[0]
		agree(p, ch, "construction")
		hd, _ := report(p.St, ch, "Head")
		gn, _ := report(p.St, ch, "Genesis")
		if hd == nil || gn == nil {
			return
		}
		var genesis *T
		for _, a := range r.as {
			if t, ok := derefOf(a); ok && typeName(t) == "consensus.Block" {
				genesis = r.x.Load(p.St, a, t)
			}
		}
		if !c.Must(genesis != nil, "anchor", "New genesis", f.Pos(), "chain.New does not take a genesis block") {
			return
		}
		c.Must(same(p.St, gn, genesis), "genesis", "construction", p.Pos, "the genesis block of the chain is %v", gn)
		ok := false
		for _, e := range p.St.Events() {
			if e.Kind != "call" || e.Name != "chain.Storage.GetLastBlock" || len(e.Res) != 1 {
				continue
			}
			tip := e.Res[0]
			switch p.St.Facts().Eval(eng.IsNil(tip)) {
			case 1:
				ok = same(p.St, hd, genesis)
				empty++
			case 0:
				t, _ := derefOf(tip)
				ok = same(p.St, hd, r.x.Load(p.St, tip, t))
				stored++
			}
		}
		c.Must(ok, "head", "construction", p.Pos, "the head after construction is %v, not the stored tip or else the genesis block (%s)", hd, lits(p.St))
	}
	c.Floor("constructions from a stored tip", stored, 1)
	c.Floor("constructions from genesis", empty, 1)
	// every function of the package
	checked, writers := 0, 0
	for _, g := range c.P.Funcs {
		if g.Pkg == nil || g.Pkg.Pkg.Name() != "chain" || g == f || g.Synthetic != "" || g.Parent() != nil || g.Blocks == nil || g.Name() == "init" {
			continue
		}
		as := eng.ParamSyms(g)
		var recv *T
		for _, a := range as {
			if t, ok := derefOf(a); ok && types.Identical(t, ct) {
				recv = a
			}
		}
		if recv == nil {
			continue
		}
		checked++
		wrote := false
		x := c.Exec(eng.Config{Opaque: consensusOpaque, OnAccess: func(st *State, write bool, addr *T, owner *types.Named, in ssa.Instruction, ctx string) {
			if write && addr.Mentions(recv) {
				wrote = true
			}
		}})
		ps := x.Run(g, as)
		c.Done(x, ps)
		if !wrote {
			c.Obl++
			c.Disch++
			continue
		}
		writers++
		for _, p := range ps {
			touched := false
			for _, w := range x.Writes(p.St) {
				touched = touched || w.Addr.Mentions(recv)
			}
			if p.End == "return" && touched {
				agree(p, recv, g.Name())
			}
		}
	}
	c.Floor("functions with access to the chain", checked, 8)
	c.Cover["functions that change the chain"] = writers
	c.Sample("New: %d paths; %d functions with access to the chain, %d of them write", made, checked, writers)
}

// ---- N14 ----

func runN14(c *Ctx) {
	f := c.Method("chain", "Chain", "GetBlockHeaders")
	head := c.accessor("Head")
	if f == nil || head == nil {
		return
	}
	r := c.chainRun(f, eng.Config{Unroll: 1}, nil)
	var list *T
	for _, a := range r.as {
		if a.Typ != nil && typeName(a.Typ) == "consensus.Locator" {
			list = fld(a, a.Typ, "Hashes")
		}
	}
	if !c.Must(list != nil, "anchor", "locator", f.Pos(), "GetBlockHeaders does not take a locator") {
		return
	}
	et := list.Typ.Underlying().(*types.Slice).Elem()
	hash := func(st *State, i *T) *T { return r.x.Content(st, r.x.Load(st, eng.ElemAddr(list, i, et), et)) }
	isHead := func(st *State, i *T) int {
		h := hash(st, i)
		return equalHash(st, func(t *T) bool { return same(st, t, h) }, func(t *T) bool {
			for _, n := range []string{"consensus.Block.Hash", "consensus.BlockHeader.Hash"} {
				if a := r.arguments(t, n); len(a) == 1 && head(a[0]) {
					return true
				}
			}
			return false
		})
	}
	from := func(st *State, i *T) []*T {
		h := hash(st, i)
		return r.found(st, "chain.Storage.From", func(hs, height *T, rest []*T) bool {
			return same(st, hs, h) && height == eng.Nil && len(rest) == 1 && same(st, rest[0], eng.Int(513))
		})
	}
	atHead, located, none := 0, 0, 0
	for _, p := range r.ps {
		if p.End != "return" || len(p.Res) != 1 {
			c.Fail("returns", "GetBlockHeaders", p.Pos, "GetBlockHeaders ends in %s", p.End)
			continue
		}
		res := p.Res[0]
		st := p.St
		fs := st.Facts()
		// the search
		var e *Ev
		for _, v := range st.Events() {
			if v.Kind != "loop" || v.Rec == nil {
				continue
			}
			for _, t := range v.Rec.Trans {
				if isHead(t.St, v.Rec.K) >= 0 || len(from(t.St, v.Rec.K)) > 0 {
					e = v
				}
			}
		}
		i := eng.Zero
		if e != nil {
			i = e.Args[1]
			for _, t := range e.Rec.Trans {
				ok := isHead(t.St, e.Rec.K) == 0
				un := false
				for _, l := range from(t.St, e.Rec.K) {
					un = un || t.St.Facts().Eval(eng.EqInt(eng.Len(l), eng.Zero)) == 1
				}
				c.Must(ok && un, "first-known", "passed over", e.Rec.Pos, "the search passes over a hash without having found it to be neither the head nor known to the storage: %s", condText(t.Lits))
			}
		} else if fs.Eval(eng.EqInt(eng.Len(list), eng.Zero)) != 1 {
			c.Fail("first-known", "search", p.Pos, "the answer does not come from a search over the locator (%s)", lits(st))
			continue
		}
		isEmpty := fs.Eval(eng.EqInt(eng.Len(res), eng.Zero)) == 1
		if fs.Eval(eng.Le(eng.Len(list), i)) == 1 || fs.Eval(eng.Le(eng.Int(14), i)) == 1 {
			none++
			c.Must(isEmpty, "empty", "none known", p.Pos, "no hash is known but %v is answered", res)
			continue
		}
		c.Must(fs.Eval(eng.Lt(i, eng.Int(14))) == 1, "limit", "locator", p.Pos, "more than the first 14 hashes can be considered (position %v)", i)
		if isHead(st, i) == 1 {
			atHead++
			c.Must(isEmpty, "empty", "head", p.Pos, "the hash is the head but %v is answered", res)
			continue
		}
		ok, why := false, "the hash was not looked up in the storage, with a limit of 513 blocks"
		for _, l := range from(st, i) {
			why = "the blocks may be missing"
			if fs.Eval(eng.EqInt(eng.Len(l), eng.Zero)) != 0 {
				continue
			}
			ok, why = r.follow(st, l, res)
			break
		}
		located++
		c.Must(ok, "headers", "after the located block", p.Pos, "the answer is not the list of headers that follow the first known hash: %s (%s)", why, lits(st))
	}
	c.Floor("answers for the head", atHead, 1)
	c.Floor("answers with headers", located, 1)
	c.Floor("answers without known hash", none, 1)
	c.Sample("GetBlockHeaders: %d paths: %d at the head, %d located, %d unknown", len(r.ps), atHead, located, none)
}

// follow: res lists the headers of all blocks of l but the first.
func (r *chainRun) follow(st *State, l, res *T) (bool, string) {
	n := eng.AddN(eng.Len(l), -1)
	fs := st.Facts()
	if fs.Eval(eng.EqInt(eng.Len(res), n)) != 1 {
		return false, "it has " + eng.Simp(fs, eng.Len(res)).String() + " elements, not " + n.String()
	}
	if fs.Eval(eng.EqInt(n, eng.Zero)) == 1 {
		return true, ""
	}
	i := eng.SymT("position", types.Typ[types.Int])
	s := st.Fork()
	s.Assume(eng.Le(eng.Zero, i))
	s.Assume(eng.Lt(i, n))
	if res.Typ == nil || l.Typ == nil {
		return false, "it has no type"
	}
	rt := res.Typ.Underlying().(*types.Slice).Elem()
	lt := l.Typ.Underlying().(*types.Slice).Elem()
	got := r.x.Load(s, eng.ElemAddr(res, i, rt), rt)
	blk := r.x.Load(s, eng.ElemAddr(l, eng.AddN(i, 1), lt), lt)
	if bt, ok := derefOf(blk); ok {
		blk, lt = r.x.Load(s, blk, bt), bt
	}
	want := fld(blk, lt, "Header")
	if !same(s, got, want) {
		return false, "its element i is " + got.String() + ", not " + want.String()
	}
	return true, ""
}

func init() {
	register("V09", "conditions of every accepting path (abstract interpretation over SSA, storage and the decided parts of consensus as unknown functions)",
		"ProcessBlock is interpreted on an arbitrary chain and block; every path that accepts must have found the block to be the current tip, or have validated it, looked its parent up by (previous hash, height-1) and, where the parent exists, have found its time later, its total difficulty equal to the sum and its difficulty at least NextDifficulty of the 71 blocks before it.", runV09,
		"storage is deterministic; V01, V12 and V16 decide validation, retargeting and proof difficulty")
	register("V11", "inductive step analysis of the walk from the head (abstract interpretation over SSA)",
		"On every accepting path of Chain.Validate a walk starts at the head, each step validates the block at hand and goes to the block the storage has for its previous hash, which must exist, and the walk ends at a block with the hash of the genesis block.", runV11,
		"V01 decides what validation of one block means")
	register("V15", "state agreement at the end of every path of every function with access to the chain (abstract interpretation over SSA)",
		"chain.New is interpreted with an arbitrary storage; in the resulting state, and after every function that writes to a chain, the values Height and TotalDifficulty report must be those of the block Head reports.", runV15)
	register("N14", "search and answer conditions over all paths with loop summaries (abstract interpretation over SSA)",
		"GetBlockHeaders is interpreted on an arbitrary locator and storage: hashes passed over must be unknown and not the head, at most 14 positions are considered, and the answer is empty or consists of the headers of the located blocks without the first.", runN14,
		"storage.From returns the blocks from the given one on, in chain order, at most as many as asked for")
}
