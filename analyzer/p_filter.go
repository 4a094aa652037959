package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S04: every row answered to a call with a metadata filter satisfies each entry of the filter: the
// statement that reads it says so, or the row is compared with the entry's value before it is kept.

type filterPlugin struct {
	*scopePlugin
	maps     map[string]bool // locations of the filter maps
	judgeAgg bool            // figures computed over rows are an answer to the filter
}

// Instr: a map the entries of the filter are copied to is a filter, too.
func (l *filterPlugin) Instr(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	if u, ok := in.(*ssa.MapUpdate); ok {
		if m := e.eval(st, u.Map); m.Path != "" && isScope(e.eval(st, u.Value)) {
			l.maps[m.Path] = true
		}
	}
	l.scopePlugin.Instr(e, fr, st, in)
}

func (l *filterPlugin) Loaded(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, v *Abs) *Abs {
	if strings.HasSuffix(loc, "[]") && l.maps[loc[:len(loc)-2]] {
		return filterValue()
	}
	return v
}

// wantedValue: the value of a filter entry, or a rendering of it.
func wantedValue(a *Abs) bool {
	if a == nil || a.Str == nil || a.Str.top || len(a.Str.alts) == 0 {
		return false
	}
	for _, x := range a.Str.alts {
		number := tagHas(a.Tags, scopeTag) && len(x) == 1 && x[0].K == pHole && strings.HasPrefix(x[0].S, "#")
		if !isScopeSeq(x) && !number {
			return false
		}
	}
	return true
}

func (l *filterPlugin) Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	a, b := e.eval(st, x), e.eval(st, y)
	if wantedValue(b) {
		a, b = b, a
	}
	if wantedValue(a) && unTags(b.Tags) != "" {
		if eq {
			if in, ok := x.(ssa.Instruction); ok {
				l.checks[in] = true
			}
			st.prop["it"] = "hit"
		} else if st.prop["it"] == "" {
			st.prop["it"] = "miss"
		}
	}
	return true
}

// Edge: the row satisfies the filter when no entry is left and none was found to differ.
func (l *filterPlugin) Edge(e *Eng, st *State, from, to *ssa.BasicBlock) {
	if l.header(e, st, to) != nil {
		if !inLoop(to, from) { // another row
			delete(st.prop, "it")
			delete(st.prop, "pend")
			return
		}
		switch st.prop["it"] {
		case "hit":
			if st.prop["pend"] == "" {
				st.prop["pend"] = "*"
			}
		case "miss":
			st.prop["pend"] = "no"
		}
		delete(st.prop, "it")
		return
	}
	if l.header(e, st, from) == nil || len(from.Succs) != 2 || from.Succs[1] != to {
		return
	}
	if st.prop["pend"] == "*" {
		st.prop["ok"] = "*"
		delete(st.prop, "okx")
	}
	delete(st.prop, "pend")
}

// header: the block asks for the next entry of the filter.
func (l *filterPlugin) header(e *Eng, s *State, h *ssa.BasicBlock) *ssa.Next {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && l.maps[e.eval(s, n.Iter).Path] {
			return n
		}
	}
	return nil
}

func (l *filterPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if strings.HasPrefix(c.Name, "(*database/sql.") && strings.HasPrefix(c.Name[strings.LastIndexByte(c.Name, '.')+1:], "Query") {
		m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
		tag := l.classifyFilter(e, fr, st, c, sqlArg(c), c.Args[len(c.Args)-1])
		row := &Abs{Nil: No, Tags: tag, Path: "rows@" + strings.NewReplacer(".", "_").Replace(l.p.pos(c.Pos()))}
		if strings.HasPrefix(m, "QueryRow") {
			return true, []Outcome{{st: st, res: row}}
		}
		return true, []Outcome{{st: st, res: &Abs{Tup: []*Abs{row, {Nil: Yes}}}}, {st: st.clone(), res: &Abs{Tup: []*Abs{{Nil: Yes}, {Nil: No}}}}}
	}
	if c.Name == "encoding/json.Unmarshal" {
		bad := st.clone()
		if d := c.Args[1].Path; d != "" {
			st.killUnder(d)
			st.heap[d] = &Abs{Tags: unTags(c.Args[0].Tags)}
		}
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}, set: true}, {st: bad, res: &Abs{Nil: No}}}
	}
	return l.scopePlugin.Call(e, fr, st, c)
}

func (l *filterPlugin) classifyFilter(e *Eng, fr *Frame, st *State, c *CallSite, q, args *Abs) string {
	pos := l.p.pos(c.Pos())
	if q == nil || q.Str == nil || q.Str.top {
		l.stmts[c.Instr] = "?"
		return "un:" + pos
	}
	var al []Seq
	if t := e.listOf(st, args); t != nil && !t.top {
		al = t.alts
	}
	relevant, ok := false, true
	for _, alt := range q.Str.alts {
		toks := sqlTokens(alt)
		s := parseSelect(toks)
		if s == nil || !s.reads("embeddings") {
			continue
		}
		fit := fitting(toks, al)
		if len(fit) == 0 && len(al) > 0 {
			continue
		}
		relevant = true
		if !l.filtered(s, fit) {
			if s.aggregates() && !l.judgeAgg {
				relevant = false
				continue
			}
			ok = false
			if s.aggregates() && l.judgeAgg {
				k := "aggregate|" + fnName(fr.root) + "|" + pos
				if l.findings[k] == nil {
					l.findings[k] = &Finding{Rule: "unfiltered-aggregate", Construct: fnName(fr.root) + " <- " + pos, Pos: pos, Msg: fmt.Sprintf("the figures computed at %s for %s take in rows that do not satisfy the filter", pos, fnName(fr.root)), Chain: fr.chain()}
				}
			}
		}
		if l.dump {
			fmt.Fprintf(os.Stderr, "%s %s ok=%v\n   %s\n   args=%v\n", fnName(fr.root), pos, ok, tokString(toks), fit)
		}
	}
	if !relevant {
		return ""
	}
	l.stmts[c.Instr] = pos
	if ok {
		l.scoped[c.Instr] = true
		return ""
	}
	return "un:" + pos
}

// filtered: a condition every row satisfies compares something of the row with the filter's value.
func (l *filterPlugin) filtered(s *selStmt, al []Seq) bool {
	if s.holeTop {
		return false
	}
	for _, cj := range s.conj {
		t := cj.toks
		if hasTopOr(t) {
			continue
		}
		if i := eqParam(t, func(col []sqlTok) bool { return true }); i >= 0 && boundTo(s.toks, cj.at+i, al, isScopeSeq) {
			return true
		}
	}
	return false
}

// filterSources lists the places of a parameter that hold a metadata filter.
func filterSources(path string, t types.Type, depth int) []string {
	var r []string
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fp := path + "." + f.Name()
		if isFilterMap(f.Type(), f.Name()) {
			r = append(r, fp)
		} else if _, isS := f.Type().Underlying().(*types.Struct); isS {
			r = append(r, filterSources(fp, f.Type(), depth+1)...)
		}
	}
	return r
}

func isFilterMap(t types.Type, name string) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringType(m.Key()) {
		return false
	}
	if _, isS := m.Elem().Underlying().(*types.Struct); isS {
		return false
	}
	return strings.HasSuffix(strings.ToLower(name), "filter") || strings.HasSuffix(strings.ToLower(name), "filters")
}

// answersRows: the function hands out rows, not only figures.
func answersRows(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if strings.Contains(res.At(i).Type().String(), "ScoredEmbedding") {
			return true
		}
	}
	return false
}

func init() {
	register("S04", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 8, "statements": 5}}
		findings := map[string]*Finding{}
		stmts, scoped, checks := map[ssa.Instruction]string{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		visited := map[*ssa.Function]bool{}
		writes := p.reaches(func(n string) bool { return strings.HasPrefix(n, "(*database/sql.") && strings.Contains(n, ").Exec") })
		roots := p.exportedRoots("core", "cortexdb")
		for _, fn := range p.allFuncs { // the strategies of a recall run on their own
			if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/hindsight") && fn.Parent() == nil && fn.Synthetic == "" {
				roots = append(roots, fn)
			}
		}
		run := func(fn *ssa.Function, place string, isOwner, split bool) map[string]*Finding {
			out := map[string]*Finding{}
			l := &filterPlugin{scopePlugin: &scopePlugin{p: p, findings: out, stmts: stmts, scoped: scoped, checks: checks, dump: os.Getenv("SCOPE_DUMP") != ""}, maps: map[string]bool{place: true}, judgeAgg: !answersRows(fn)}
			e := NewEng(p, l)
			e.keepStr, e.anonHoles, e.deep, e.forkBool, e.exactCmp, e.loopOnce, e.splitBool = true, true, true, true, true, true, split
			e.skipField = ".Entities"
			e.onceIf = func(s *State, h *ssa.BasicBlock) bool { return l.header(e, s, h) != nil }
			heap := map[string]*Abs{place: {Path: place, Nil: No, Emp: No}, place + "[]": filterValue()}
			if isOwner { // the rows of one memory bank
				heap = map[string]*Abs{place: scopeAbs("")}
				l.maps = map[string]bool{}
			}
			e.argOver = map[int]*Abs{}
			for i, prm := range fn.Params {
				if place == fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type())) {
					e.argOver[i] = heap[place]
					delete(heap, place)
				}
			}
			exits := e.RunRoot(fn, nil, heap)
			for f := range e.visited {
				visited[f] = true
			}
			for _, x := range exits {
				st := &State{heap: x.heap, prop: x.prop}
				for i, a := range x.res {
					if isErrorType(fn.Signature.Results().At(i).Type()) {
						continue
					}
					for _, t := range strings.Split(unTags(e.deepTags(st, a, 0)), ";") {
						if t == "" {
							continue
						}
						k := "unfiltered|" + fnName(fn) + "|" + t
						if out[k] == nil {
							out[k] = &Finding{Rule: "unfiltered", Construct: fnName(fn) + " <- " + t[3:], Pos: t[3:], Msg: fmt.Sprintf("rows read at %s reach the result of %s without having been compared with %s", t[3:], fnName(fn), place), Chain: fnName(fn)}
						}
					}
				}
			}
			for _, k := range sortedKeys(e.overflow) {
				out["undecided|"+k] = &Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"}
			}
			return out
		}
		for _, fn := range roots {
			if only := os.Getenv("SCOPE_ONLY"); only != "" && fnName(fn) != only {
				continue
			}
			bank := strings.HasSuffix(fn.Pkg.Pkg.Path(), "hindsight")
			if !returnsRows(fn) || writes(fn) && !bank {
				continue
			}
			var places []string
			owner := map[string]bool{}
			for i, prm := range fn.Params {
				if i == 0 && fn.Signature.Recv() != nil {
					continue
				}
				path := fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type()))
				if isFilterMap(prm.Type(), prm.Name()) {
					places = append(places, path)
				}
				places = append(places, filterSources(path, prm.Type(), 0)...)
				if bank && isStringType(prm.Type()) && strings.EqualFold(prm.Name(), "bankID") {
					places, owner[path] = append(places, path), true
				}
				if bank && hasField(prm.Type(), "BankID") {
					places, owner[path+".BankID"] = append(places, path+".BankID"), true
				}
			}
			if len(places) == 0 {
				continue
			}
			r.Counts["roots"]++
			for _, place := range places { // one filter at a time
				r.Counts["filters"]++
				// with booleans kept apart only if needed: either reading decides
				var first map[string]*Finding
				for _, split := range []bool{false, true} {
					fs := run(fn, place, owner[place], split)
					if first == nil {
						first = fs
					}
					if len(fs) == 0 {
						first = nil
						break
					}
				}
				for k, f := range first {
					if findings[k] == nil {
						findings[k] = f
					}
				}
			}
		}
		r.Counts["statements"], r.Counts["filtered_statements"], r.Counts["row_checks"], r.Counts["functions"] = len(stmts), len(scoped), len(checks), len(visited)
		overwritten(p, r, findings)
		for _, k := range sortedKeys(findings) {
			r.add(findings[k])
		}
		return r
	})
}

// filterValue: the value of an entry, which may be empty.
func filterValue() *Abs {
	a := scopeAbs("")
	a.Emp = Unk
	return a
}

// ---- the entries searches select by are the store's own ----

// mapRoot names the map a value denotes: the value itself, or the field it is loaded from.
func mapRoot(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
		return u.X
	}
	return v
}

func keyConst(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// isFilterStore: the map is or becomes the filter of a search.
func isFilterStore(m ssa.Value) bool {
	if u, ok := m.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && isFilterMap(m.Type(), fieldName(fa.X.Type(), fa.Field)) {
			return true
		}
	}
	if m.Referrers() == nil {
		return false
	}
	for _, r := range *m.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == m {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isFilterMap(m.Type(), fieldName(fa.X.Type(), fa.Field)) {
				return true
			}
		}
	}
	return false
}

var metaKey = regexp.MustCompile(`'\$\.(_[A-Za-z0-9_]+)'`)

// reservedKeys: the metadata keys searches and statements of the module select rows by.
func reservedKeys(p *Prog) map[string]bool {
	keys := map[string]bool{}
	for _, fn := range p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && isFilterStore(u.Map) {
					if k, ok := keyConst(u.Key); ok {
						keys[k] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if s, ok := keyConst(*op); ok {
						for _, m := range metaKey.FindAllStringSubmatch(s, -1) {
							keys[m[1]] = true
						}
					}
				}
			}
		}
	}
	return keys
}

// overwritten reports updates with keys from outside that may replace a reserved entry set before.
func overwritten(p *Prog, r *Result, findings map[string]*Finding) {
	keys := reservedKeys(p)
	r.Counts["reserved_keys"] = len(keys)
	for _, fn := range p.allFuncs {
		var own, other []*ssa.MapUpdate
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || isFilterStore(u.Map) {
					continue
				}
				if k, isC := keyConst(u.Key); isC {
					if keys[k] {
						own = append(own, u)
					}
				} else {
					other = append(other, u)
				}
			}
		}
		r.Counts["reserved_entries"] += len(own)
		for _, u := range own {
			for _, o := range other {
				if mapRoot(u.Map) != mapRoot(o.Map) || !follows(u, o) || examined(o.Key) {
					continue
				}
				k, _ := keyConst(u.Key)
				key := "overwritten|" + fnName(fn) + "|" + k
				if findings[key] == nil {
					findings[key] = &Finding{Rule: "overwritten", Construct: fnName(fn) + " entry " + k, Pos: p.pos(o.Pos()), Msg: fmt.Sprintf("in %s the entry %q, which searches select rows by, is set at %s and may be replaced by an entry from outside at %s", fnName(fn), k, p.pos(u.Pos()), p.pos(o.Pos())), Chain: fnName(fn)}
				}
			}
		}
	}
}

// follows: b can run after a on the same map.
func follows(a, b *ssa.MapUpdate) bool {
	def := map[*ssa.BasicBlock]bool{}
	if in, ok := mapRoot(a.Map).(ssa.Instruction); ok {
		def[in.Block()] = true
	}
	if a.Block() == b.Block() && idxOf(a) < idxOf(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] || def[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		stack = append(stack, x.Succs...)
	}
	return false
}

// examined: the key is looked at before it is used.
func examined(k ssa.Value) bool {
	if k.Referrers() == nil {
		return false
	}
	for _, r := range *k.Referrers() {
		switch r.(type) {
		case *ssa.Lookup, *ssa.BinOp, *ssa.Call:
			return true
		}
	}
	return false
}
