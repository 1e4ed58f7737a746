// dump prints the paths of a function as the analysis sees them.
package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif/analyzer/eng"

	"golang.org/x/tools/go/ssa"
)

func main() {
	t0 := time.Now()
	dir := os.Getenv("REPO")
	if dir == "" {
		dir = "/repo"
	}
	p, err := eng.Load(dir)
	if err != nil {
		panic(err)
	}
	fmt.Println("load", time.Since(t0), "init problems:", p.InitErrs)
	for _, name := range os.Args[1:] {
		for _, f := range p.Funcs {
			if eng.FuncName(f) != name {
				continue
			}
			dump(p, f)
		}
	}
	if len(os.Args) == 1 {
		for _, f := range p.Funcs {
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			t := time.Now()
			x := eng.New(p, eng.Config{Opaque: func(f *ssa.Function, _ []*eng.T) bool {
				n := eng.FuncName(f)
				return strings.HasPrefix(n, "cuckoo.") && strings.HasSuffix(n, ".Verify")
			}})
			ps := x.Run(f, nil)
			d := time.Since(t)
			fmt.Printf("%-45s paths %4d steps %6d loops %3d %8s problems %d\n", eng.FuncName(f), len(ps), x.Steps, len(x.Loops), d.Round(time.Millisecond), len(x.Problems))
			for _, s := range x.Problems {
				fmt.Println("      ", s)
			}
		}
	}
}

func dump(p *eng.Prog, f *ssa.Function) {
	t := time.Now()
	x := eng.New(p, eng.Config{Opaque: func(f *ssa.Function, _ []*eng.T) bool {
		n := eng.FuncName(f)
		for _, o := range strings.Split(os.Getenv("OPAQUE"), ",") {
			if o == n {
				return true
			}
		}
		return strings.HasPrefix(n, "cuckoo.") && strings.HasSuffix(n, ".Verify")
	}})
	ps := x.Run(f, nil)
	fmt.Println("==", eng.FuncName(f), len(ps), "paths", time.Since(t))
	for _, s := range x.Problems {
		fmt.Println("PROBLEM", s)
	}
	for i, pa := range ps {
		fmt.Printf("-- path %d %s %s\n", i, pa.End, p.Pos(pa.Pos))
		for _, l := range pa.St.Lits() {
			fmt.Println("   if", l)
		}
		for _, e := range pa.St.Events() {
			ev(p, e, "   ")
		}
		for n, r := range pa.Res {
			fmt.Printf("   result %d: %s\n", n, r)
		}
		if os.Getenv("MEM") != "" {
			fmt.Println(pa.St.DumpMem())
		}
	}
}

func ev(p *eng.Prog, e *eng.Ev, in string) {
	var as, rs []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	for _, a := range e.Res {
		rs = append(rs, a.String())
	}
	fmt.Printf("%s* %s %s (%s) -> %s  [%s]\n", in, e.Kind, e.Name, strings.Join(as, ", "), strings.Join(rs, ", "), p.Pos(e.Pos))
	if e.Rec != nil {
		for _, v := range e.Rec.Vars {
			fmt.Printf("%s    var %s %s init=%v val=%v step=%v\n", in, v.Name(), v.Mode, v.Init, v.Val, v.Step)
		}
		for _, c := range e.Rec.Hold {
			fmt.Printf("%s    hold %v\n", in, c)
		}
		for i, t := range e.Rec.Trans {
			fmt.Printf("%s    trans %d if %v\n", in, i, t.Lits)
			for v, n := range t.Next {
				fmt.Printf("%s       %s' = %v\n", in, v.Name(), n)
			}
			for _, e := range t.Events {
				ev(p, e, in+"       ")
			}
		}
	}
}
