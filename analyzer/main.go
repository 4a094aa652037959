package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Finding struct {
	Prop, Rule, Construct, Pos, Msg, Chain string
}

func (f *Finding) Key() string { return f.Rule + "|" + f.Construct }

// Result of one property check.
type Result struct {
	Findings    []*Finding
	Explanation string
	Counts      map[string]int
	Minimums    map[string]int // vacuity guards: a count below its minimum is a violation
	Rules       []string
	Analysed    []string
	Assumptions []string
}

func (r *Result) add(f *Finding) { r.Findings = append(r.Findings, f) }

type Check struct {
	ID  string
	Run func(p *Prog) *Result
}

var checks []Check

func register(id string, f func(p *Prog) *Result) { checks = append(checks, Check{id, f}) }

func main() {
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("property", "", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "")
	dump := flag.Bool("dump", false, "print all findings, known or not")
	flag.Parse()
	start := time.Now()
	code := func() (code int) {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("AZ_PANIC") != "" {
					panic(r)
				}
				code = fail(*prop, *verif, *tier, start, fmt.Sprintf("analyzer could not decide: panic: %v", r))
			}
		}()
		p, err := loadProg(*repo)
		if err != nil {
			return fail(*prop, *verif, *tier, start, "cannot load /repo: "+err.Error())
		}
		for _, c := range checks {
			if c.ID == *prop {
				res := c.Run(p)
				if d, ok := docs[c.ID]; ok {
					res.Explanation, res.Rules = d.Explanation, d.Rules
					res.Assumptions = append(res.Assumptions, d.Assumptions...)
				}
				return finish(c.ID, p, res, *verif, *tier, start, *dump)
			}
		}
		return fail(*prop, *verif, *tier, start, "unknown property")
	}()
	os.Exit(code)
}

type knownEnt struct{ prop, key, what string }

func readKnown(verif string) []knownEnt {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []knownEnt
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(ln, "known: property=")
		i := strings.Index(rest, " key=[")
		j := strings.Index(rest, "] ")
		if i < 0 || j < 0 {
			continue
		}
		r = append(r, knownEnt{rest[:i], rest[i+6 : j], rest[j+2:]})
	}
	return r
}

func finish(id string, p *Prog, res *Result, verif, tier string, start time.Time, dump bool) int {
	for k, m := range res.Minimums {
		if res.Counts[k] < m {
			res.add(&Finding{Prop: id, Rule: "vacuous", Construct: k, Pos: "-", Msg: fmt.Sprintf("only %d instances of %s analysed, at least %d expected: the rule no longer sees the code it decides", res.Counts[k], k, m)})
		}
	}
	sort.SliceStable(res.Findings, func(i, j int) bool {
		if res.Findings[i].Pos != res.Findings[j].Pos {
			return res.Findings[i].Pos < res.Findings[j].Pos
		}
		return res.Findings[i].Key() < res.Findings[j].Key()
	})
	known := map[string]string{}
	for _, k := range readKnown(verif) {
		if k.prop == id {
			known[k.key] = k.what
		}
	}
	var viol, old []*Finding
	seen := map[string]bool{}
	for _, f := range res.Findings {
		if seen[f.Key()] {
			continue
		}
		seen[f.Key()] = true
		if _, ok := known[f.Key()]; ok && !dump {
			old = append(old, f)
		} else {
			viol = append(viol, f)
		}
	}
	for _, f := range old {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s: %s\n", id, f.Key(), f.Pos, known[f.Key()])
	}
	code := 0
	replay := ""
	if len(viol) > 0 {
		code = 1
		replay = writeReplay(verif, id, viol)
		for _, f := range viol {
			fmt.Printf("  [%s] %s\n    %s\n    path: %s\n", f.Key(), f.Pos, f.Msg, f.Chain)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	writeEvidence(verif, id, tier, start, res, viol, old)
	fmt.Printf("property %s: %d violations, %d known findings; %s\n", id, len(viol), len(old), countsLine(res.Counts))
	return code
}

func countsLine(m map[string]int) string {
	var l []string
	for _, k := range sortedKeys(m) {
		l = append(l, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(l, " ")
}

func writeReplay(verif, id string, viol []*Finding) string {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	path := filepath.Join(verif, "evidence", id+"-violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "replay: bash %s/run.sh %s quick\n\n", verif, id)
	for _, f := range viol {
		fmt.Fprintf(&sb, "rule: %s\nconstruct: %s\nat: %s\n%s\npath: %s\n\n", f.Rule, f.Construct, f.Pos, f.Msg, f.Chain)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	return path
}

func fail(id, verif, tier string, start time.Time, msg string) int {
	f := &Finding{Prop: id, Rule: "undecided", Construct: "analysis", Pos: "-", Msg: msg}
	replay := writeReplay(verif, id, []*Finding{f})
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	writeEvidence(verif, id, tier, start, &Result{Explanation: "analysis did not complete: " + msg, Counts: map[string]int{}}, []*Finding{f}, nil)
	return 1
}

func writeEvidence(verif, id, tier string, start time.Time, res *Result, viol, old []*Finding) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	cov := map[string]any{
		"explanation": res.Explanation,
		"counts":      res.Counts,
		"rules":       res.Rules,
	}
	if len(res.Analysed) > 0 {
		a := res.Analysed
		if len(a) > 400 {
			a = a[:400]
		}
		cov["analysed"] = a
	}
	var vs, ks []map[string]string
	for _, f := range viol {
		vs = append(vs, map[string]string{"rule": f.Rule, "construct": f.Construct, "at": f.Pos, "what": f.Msg, "path": f.Chain})
	}
	for _, f := range old {
		ks = append(ks, map[string]string{"rule": f.Rule, "construct": f.Construct, "at": f.Pos, "what": f.Msg})
	}
	if len(ks) > 0 {
		cov["known_findings"] = ks
	}
	if tier != "quick" && tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
	}
	if len(res.Assumptions) > 0 {
		ev["assumptions"] = res.Assumptions
	}
	if len(vs) > 0 {
		ev["violations"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
}
