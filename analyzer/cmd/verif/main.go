// verif decides one property: verif [-repo DIR] [-root DIR] ID...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/eng"
	"verif/analyzer/rules"
)

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "tree to analyse")
	root := flag.String("root", "/verif", "where evidence and reports go")
	flag.Parse()
	rc := 0
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "list" {
		ids = nil
		for id := range rules.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, rules.Registry[id].Tech)
		}
		return
	}
	for _, id := range ids {
		if run(*repo, *root, id) {
			rc = 1
		}
	}
	os.Exit(rc)
}

type known struct{ prop, key, text string }

func readKnown(root string) []known {
	b, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 2)
		if len(f) != 2 || !strings.HasPrefix(f[1], "key=\"") {
			continue
		}
		rest := f[1][5:]
		i := strings.Index(rest, "\"")
		if i < 0 {
			continue
		}
		r = append(r, known{f[0], rest[:i], strings.TrimSpace(rest[i+1:])})
	}
	return r
}

func run(repo, root, id string) bool {
	t0 := time.Now()
	ck := rules.Registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	var c *rules.Ctx
	p, err := eng.Load(repo)
	if err != nil {
		c = rules.NewCtx(nil, id)
		c.Findings = append(c.Findings, rules.Finding{Rule: "builds", Key: "load", Msg: err.Error()})
	} else {
		c = rules.NewCtx(p, id)
		c.Thorough = os.Getenv("VERIF_TIER") == "thorough"
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Findings = append(c.Findings, rules.Finding{Rule: "analysable", Key: "panic", Msg: fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack())})
				}
			}()
			for _, s := range p.InitErrs {
				c.Fail("analysable", "init "+s, 0, "package initialisation cannot be followed: %s", s)
			}
			ck.Run(c)
		}()
	}
	kn := readKnown(root)
	var out []rules.Finding
	for _, f := range c.Findings {
		k := f.Rule + ":" + f.Key
		found := false
		for _, n := range kn {
			if n.prop == id && n.key == k {
				found = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, n.text)
			}
		}
		if !found {
			out = append(out, f)
		}
	}
	evidence(root, id, ck, c, out, time.Since(t0))
	rep := filepath.Join(root, "evidence", id+".report.txt")
	var b strings.Builder
	for _, f := range out {
		fmt.Fprintf(&b, "property %s, rule %s, construct %s\n  at %s\n  %s\n", id, f.Rule, f.Key, f.Pos, f.Msg)
	}
	os.WriteFile(rep, []byte(b.String()), 0o644)
	for _, f := range out {
		fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Key, f.Msg)
	}
	if len(out) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return true
	}
	fmt.Printf("%s holds: %d obligations discharged over %d functions (%.1fs)\n", id, c.Disch, len(c.Funcs), time.Since(t0).Seconds())
	return false
}

func evidence(root, id string, ck *rules.Check, c *rules.Ctx, out []rules.Finding, d time.Duration) {
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, eng.FuncName(f))
	}
	sort.Strings(fns)
	paths, loops, steps := c.Stats()
	cov := map[string]any{
		"explanation":          ck.Explain,
		"obligations":          c.Obl,
		"discharged":           c.Disch,
		"obligations_per_rule": c.RulesN,
		"functions_analysed":   fns,
		"paths":                paths,
		"loop_summaries":       loops,
		"instructions":         steps,
		"samples":              c.Samples,
	}
	if len(c.Cover) > 0 {
		cov["instances"] = c.Cover
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"the models of the standard library and third-party calls listed in DESIGN.md"}, ck.Assume...),
		"wall_s":      d.Seconds(), "violations": len(out)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644)
}
