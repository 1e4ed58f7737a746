package rules

import (
	"bytes"
	"fmt"
	"go/types"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

// genesisBlock is a built-in block and the id its proof gives it.
type genesisBlock struct {
	name string
	g    *ssa.Global
	id   []byte // packed nonces
	bits int64
}

// pack packs nonces as bit fields, lowest bit first.
func pack(nonces []int64, bits int64) []byte {
	out := make([]byte, (int64(len(nonces))*bits+7)/8)
	for n, v := range nonces {
		for b := int64(0); b < bits; b++ {
			if b < 63 && v>>uint(b)&1 == 1 {
				p := int64(n)*bits + b
				out[p/8] |= 1 << uint(p%8)
			}
		}
	}
	return out
}

func runV14(c *Ctx) {
	bt := c.Named("consensus", "Block")
	if bt == nil {
		return
	}
	x := c.Exec(eng.Config{})
	st := x.Start()
	var all []genesisBlock
	for _, pkg := range c.P.Packages() {
		for _, m := range sortedKeys(pkg.Members) {
			g, ok := pkg.Members[m].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem() // type of the variable itself
			addr := x.GlobalAddr(g)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if !types.Identical(p.Elem(), bt) {
					continue
				}
				addr = x.Load(st, addr, t)
			} else if !types.Identical(t, bt) {
				continue
			}
			all = append(all, c.genesis(x, st, pkg.Pkg.Name()+"."+m, g, x.Load(st, addr, bt), bt))
		}
	}
	c.unchanged(all)
	c.Floor("built-in genesis blocks", len(all), 5)
	for i, a := range all {
		for _, b := range all[i+1:] {
			c.Must(!bytes.Equal(a.id, b.id), "distinct", a.name+" "+b.name, b.g.Pos(), "%s and %s have the same id: their packed nonces are the same %d bytes", a.name, b.name, len(a.id))
		}
	}
	c.Done(x, nil)
}

// unchanged: nothing but the initialisers writes into a built-in block.
func (c *Ctx) unchanged(all []genesisBlock) {
	of := map[*ssa.Global]string{}
	for _, a := range all {
		of[a.g] = a.name
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
			root:
				for {
					switch v := a.(type) {
					case *ssa.FieldAddr:
						a = v.X
					case *ssa.IndexAddr:
						a = v.X
					case *ssa.UnOp:
						a = v.X
					case *ssa.Slice:
						a = v.X
					default:
						break root
					}
				}
				if g, ok := a.(*ssa.Global); ok && of[g] != "" {
					c.Fail("changed", of[g]+" "+eng.FuncName(f), s.Pos(), "%s writes into %s", eng.FuncName(f), of[g])
				}
			}
		}
	}
}

func (c *Ctx) genesis(x *eng.Exec, st *State, name string, g *ssa.Global, v *T, bt types.Type) genesisBlock {
	r := genesisBlock{name: name, g: g}
	h := func(n ...string) *T { return fld(v, bt, append([]string{"Header"}, n...)...) }
	num := func(n ...string) int64 {
		k, ok := h(n...).Int64()
		if h(n...).Op == "zero" {
			return 0
		}
		if !c.Must(ok, "constant", name+" "+n[len(n)-1], g.Pos(), "%s of %s is not a constant: %v", n[len(n)-1], name, h(n...)) {
			return -1
		}
		return k
	}
	c.Must(num("Height") == 0, "height", name, g.Pos(), "%s has height %v", name, h("Height"))
	c.Must(num("Version") == 1, "version", name, g.Pos(), "%s has version %v", name, h("Version"))
	for _, f := range []string{"Previous", "PreviousRoot", "UTXORoot", "RangeProofRoot", "KernelRoot", "TotalKernelOffset"} {
		n := eng.Len(h(f))
		k, ok := eng.Simp(st.Facts(), n).Int64()
		if h(f) == eng.Nil {
			k, ok = 0, true
		}
		c.Must(ok && k == 32, "encodable", name+" "+f, g.Pos(), "%s of %s has %v bytes, not 32", f, name, n)
	}
	r.bits = num("POW", "EdgeBits")
	valid := c.Must(r.bits >= 1 && r.bits <= 64, "edge-bits", name, g.Pos(), "%s has %d edge bits, which no decoder accepts", name, r.bits)
	el, ok := x.Elements(st, h("POW", "Nonces"))
	if !c.Must(ok && len(el) == 42, "nonces", name, g.Pos(), "%s has %d nonces, not 42", name, len(el)) {
		return r
	}
	var ns []int64
	last := int64(-1)
	for i, e := range el {
		k, ok := e.Int64()
		if !c.Must(ok, "nonces", fmt.Sprint(name, " constant ", i), g.Pos(), "nonce %d of %s is not a constant: %v", i, name, e) {
			return r
		}
		c.Must(k > last, "increasing", fmt.Sprint(name, " ", i), g.Pos(), "nonce %d of %s, %#x, is not larger than the one before, %#x", i, name, k, last)
		if valid {
			c.Must(r.bits >= 63 || k>>uint(r.bits) == 0, "fits", fmt.Sprint(name, " ", i), g.Pos(), "nonce %d of %s, %#x, has more than %d bits", i, name, k, r.bits)
		}
		last = k
		ns = append(ns, k)
	}
	r.id = pack(ns, max(r.bits, 0))
	c.Sample("%s: %d edge bits, id is the hash of %d bytes", name, r.bits, len(r.id))
	return r
}

func init() {
	register("V14", "evaluation of the package initialisers (constant propagation over SSA)",
		"Every package variable that is a block is evaluated as its package initialiser leaves it; height, version, lengths of the fixed-size fields, edge bits, number, order and range of the nonces are checked, and the packed nonces, from which the id is computed, are compared pairwise.", runV14,
		"V06 decides that the id is the hash of the packed nonces")
}
