package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S02: rows read for a call that names a collection come from that collection: either the
// statement says so in a condition every row satisfies, or each row is compared before it is kept.

const scopeTag = "scope"

type scopePlugin struct {
	p        *Prog
	findings map[string]*Finding
	stmts    map[ssa.Instruction]string
	scoped   map[ssa.Instruction]bool
	checks   map[ssa.Instruction]bool
	dump     bool

	graphRows bool // the root answers with graph neighbours as well
}

func (l *scopePlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if isStringType(x.X.Type()) {
					return true
				}
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				n := callName(x.Common())
				if dbUse(n) || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "(*strings.Builder)") || n == "fmt.Sprintf" {
					return true
				}
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return true
				}
			}
		}
	}
	return false
}

func scopeAbs(path string) *Abs {
	return &Abs{Path: path, Emp: No, Tags: scopeTag, Str: &Tmpl{alts: []Seq{{{K: pHole, S: scopeTag}}}}}
}

// isScope: the value is exactly the collection name given by the caller.
func isScope(a *Abs) bool {
	return a != nil && a.Str != nil && !a.Str.top && len(a.Str.alts) == 1 && isScopeSeq(a.Str.alts[0])
}
func isScopeSeq(s Seq) bool { return len(s) == 1 && s[0].K == pHole && s[0].S == scopeTag }
func isScopeIDSeq(s Seq) bool {
	return len(s) == 1 && s[0].K == pHole && s[0].S == "scopeid"
}

func (l *scopePlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	switch c.Name {
	case "strings.TrimSpace":
		if isScope(c.Args[0]) {
			return true, []Outcome{{st: st, res: c.Args[0]}}
		}
		return false, nil
	}
	if !strings.HasPrefix(c.Name, "(*database/sql.") {
		return false, nil
	}
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	switch {
	case strings.HasPrefix(m, "Query"):
		q := sqlArg(c)
		tag := l.classify(e, fr, st, c, q, c.Args[len(c.Args)-1])
		row := &Abs{Nil: No, Tags: tag, Path: "rows@" + strings.NewReplacer(".", "_").Replace(l.p.pos(c.Pos()))}
		if strings.HasPrefix(m, "QueryRow") {
			return true, []Outcome{{st: st, res: row}}
		}
		return true, []Outcome{{st: st, res: &Abs{Tup: []*Abs{row, {Nil: Yes}}}}, {st: st.clone(), res: &Abs{Tup: []*Abs{{Nil: Yes}, {Nil: No}}}}}
	case m == "Scan":
		return true, l.scan(e, fr, st, c)
	case m == "Next":
		if t := unTags(c.Args[0].Tags); t != "" && st.prop["ok"] != "" {
			st.prop["okx"] = tagUnion(st.prop["okx"], t)
		}
		return true, []Outcome{{st: st, res: absUnk}}
	case m == "Err" || m == "Close":
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}}
	}
	return false, nil
}

func blockID(in ssa.Instruction) string {
	return fmt.Sprintf("%s#%d", in.Parent().String(), in.Block().Index)
}

func unTags(t string) string {
	return tagFilter(t, func(x string) bool { return strings.HasPrefix(x, "un:") })
}

// classify decides what the rows of a statement are bound to.
func (l *scopePlugin) classify(e *Eng, fr *Frame, st *State, c *CallSite, q, args *Abs) string {
	pos := l.p.pos(c.Pos())
	if q == nil || q.Str == nil || q.Str.top {
		l.stmts[c.Instr] = "?"
		return "un:" + pos
	}
	var al []Seq
	if t := e.listOf(st, args); t != nil && !t.top {
		al = t.alts
	}
	relevant, ok := false, true
	var why string
	tags := ""
	for _, alt := range q.Str.alts {
		toks := sqlTokens(alt)
		s := parseSelect(toks)
		if s == nil {
			if len(toks) > 0 && toks[0].hole != "" {
				// a statement whose beginning is not known may read any row
				relevant, ok, why = true, false, "statement text not resolved"
			}
			continue
		}
		if l.graphRows && s.reads("graph_nodes") && !s.reads("embeddings") {
			relevant, ok, why = true, false, "graph nodes"
			continue
		}
		if !s.reads("embeddings") {
			if s.reads("collections") && len(s.cols) > 0 {
				if k := l.nameCond(s, al); k {
					tags = tagUnion(tags, "scopesel")
				}
			}
			continue
		}
		relevant = true
		if w := l.scopedStmt(s, al); w != "" {
			ok = false
			why = w
			if s.aggregates() {
				k := "aggregate|" + fnName(fr.root) + "|" + pos
				if l.findings[k] == nil {
					l.findings[k] = &Finding{Rule: "unscoped-aggregate", Construct: fnName(fr.root) + " <- " + pos, Pos: pos, Msg: fmt.Sprintf("the figures computed at %s for %s take in rows of other collections: %s", pos, fnName(fr.root), w), Chain: fnName(fr.root)}
				}
			}
		}
	}
	if l.dump {
		fmt.Fprintf(os.Stderr, "%s %s rel=%v ok=%v %s\n   args=%v\n", fnName(fr.root), pos, relevant, ok, why, al)
		for _, alt := range q.Str.alts {
			fmt.Fprintf(os.Stderr, "   %s\n", tokString(sqlTokens(alt)))
		}
	}
	if !relevant {
		return tags
	}
	l.stmts[c.Instr] = pos
	if ok {
		l.scoped[c.Instr] = true
		return ""
	}
	return "un:" + pos
}

func (l *scopePlugin) nameCond(s *selStmt, al []Seq) bool {
	for _, cj := range s.conj {
		if i := eqParam(cj.toks, func(col []sqlTok) bool { return colIs(s, col, "collections", "name") }); i >= 0 && boundTo(s.toks, cj.at+i, al, isScopeSeq) {
			return true
		}
	}
	return false
}

// colIs: the tokens name column col of the table.
func colIs(s *selStmt, t []sqlTok, table, col string) bool {
	switch len(t) {
	case 1:
		return t[0].is(col) && s.reads(table)
	case 3:
		return t[1].is(".") && t[2].is(col) && s.tableOf(t[0].s) == table
	}
	return false
}

// eqParam matches "<col> = ?" (either way round) and returns the index of the placeholder.
func eqParam(t []sqlTok, col func([]sqlTok) bool) int {
	n := len(t)
	if n >= 3 && (t[n-2].is("=") || t[n-2].is("is")) && t[n-1].is("?") && col(t[:n-2]) {
		return n - 1
	}
	if n >= 3 && t[0].is("?") && t[1].is("=") && col(t[2:]) {
		return 0
	}
	return -1
}

// boundTo: for some combination of argument lists, the placeholder is bound to the wanted value.
func boundTo(stmt []sqlTok, i int, al []Seq, want func(Seq) bool) bool {
	for _, a := range al {
		if l, ok := argAt(stmt, i, a); ok {
			for _, x := range l {
				if want(x) {
					return true
				}
			}
		}
	}
	return false
}

// scopedStmt returns "" if every row of the statement belongs to the named collection.
func (l *scopePlugin) scopedStmt(s *selStmt, al []Seq) string {
	if s.holeTop {
		return "the conditions contain text that is not known and may be a disjunction, outside parentheses"
	}
	for _, cj := range s.conj {
		t := cj.toks
		// c.name = ?
		if i := eqParam(t, func(col []sqlTok) bool { return colIs(s, col, "collections", "name") }); i >= 0 {
			if boundTo(s.toks, cj.at+i, al, isScopeSeq) {
				return ""
			}
			return "the collection condition is bound to something else"
		}
		// e.collection_id = ? (looked up before)
		if i := eqParam(t, func(col []sqlTok) bool { return colIs(s, col, "embeddings", "collection_id") }); i >= 0 {
			if boundTo(s.toks, cj.at+i, al, isScopeIDSeq) {
				return ""
			}
			return "the collection condition is bound to something else"
		}
		// e.collection_id = (SELECT id FROM collections WHERE name = ?)
		for k := range t {
			if !(t[k].is("=") || t[k].is("in")) || !colIs(s, t[:k], "embeddings", "collection_id") || k+1 >= len(t) || !t[k+1].is("(") || matchParen(t, k+1) != len(t)-1 {
				continue
			}
			sub := parseSelect(t[k+2 : len(t)-1])
			if sub == nil || sub.orTop || sub.opaque || len(sub.cols) != 1 || !colIs(sub, sub.cols[0], "collections", "id") {
				continue
			}
			for _, sc := range sub.conj {
				if i := eqParam(sc.toks, func(col []sqlTok) bool { return colIs(sub, col, "collections", "name") }); i >= 0 && boundTo(s.toks, cj.at+k+2+sc.at+i, al, isScopeSeq) {
					return ""
				}
			}
		}
		// EXISTS (SELECT … FROM collections c WHERE c.id = e.collection_id AND c.name = ?)
		if len(t) > 3 && t[0].is("exists") && t[1].is("(") && matchParen(t, 1) == len(t)-1 {
			if sub := parseSelect(t[2 : len(t)-1]); sub != nil && !sub.orTop && !sub.opaque && sub.reads("collections") {
				idOK, nameOK := false, false
				for _, sc := range sub.conj {
					u := tokString(sc.toks)
					if strings.Contains(u, "collection_id") && strings.Contains(u, "=") {
						idOK = true
					}
					if i := eqParam(sc.toks, func(col []sqlTok) bool { return colIs(sub, col, "collections", "name") }); i >= 0 && boundTo(s.toks, cj.at+2+sc.at+i, al, isScopeSeq) {
						nameOK = true
					}
				}
				if idOK && nameOK {
					return ""
				}
			}
		}
	}
	if s.opaque {
		return "unreadable statement"
	}
	if s.orTop {
		return "the condition is a disjunction"
	}
	return "no collection condition"
}

// scan hands the row's origin to the scanned variables.
func (l *scopePlugin) scan(e *Eng, fr *Frame, st *State, c *CallSite) []Outcome {
	tag := c.Args[0].Tags
	if t := unTags(tag); t != "" && st.prop["ok"] != "" {
		st.prop["okx"] = tagUnion(st.prop["okx"], t) // another row
	}
	var dests []string
	if len(c.Args) > 1 && c.Args[1].Path != "" {
		for i := 0; ; i++ {
			v, ok := st.heap[fmt.Sprintf("%s[%d]", c.Args[1].Path, i)]
			if !ok {
				break
			}
			dests = append(dests, v.Path)
		}
	}
	if l.dump {
		fmt.Fprintln(os.Stderr, "SCAN", fnName(fr.fn), tag, dests, c.Args[1].Path)
	}
	bad := st.clone()
	for _, d := range dests {
		if d == "" {
			continue
		}
		st.killUnder(d)
		if tagHas(tag, "scopesel") {
			st.heap[d] = &Abs{Str: &Tmpl{alts: []Seq{{{K: pHole, S: "scopeid"}}}}}
		} else if t := unTags(tag); t != "" {
			st.heap[d] = &Abs{Tags: t}
		}
	}
	return []Outcome{{st: st, res: &Abs{Nil: Yes}, set: true}, {st: bad, res: &Abs{Nil: No}}}
}

// Compare: a row's value equals the collection name.
func (l *scopePlugin) Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	if !eq {
		return true
	}
	a, b := e.eval(st, x), e.eval(st, y)
	if isScope(b) {
		a, b = b, a
	}
	if isScope(a) {
		if t := unTags(b.Tags); t != "" {
			if in, ok := x.(ssa.Instruction); ok {
				l.checks[in] = true
			}
			st.prop["ok"] = "*"
			delete(st.prop, "okx")
		}
	}
	return true
}

func (l *scopePlugin) Instr(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	if st.prop["el"] != "" && st.prop["ok"] != "" && firstReal(in) {
		id := blockID(in) + "="
		for _, el := range strings.Split(st.prop["el"], ";") {
			if strings.HasPrefix(el, id) {
				st.prop["okx"] = tagUnion(st.prop["okx"], strings.ReplaceAll(el[len(id):], "|", ";"))
			}
		}
	}
	if i := idxOf(in); i > 0 {
		l.debugFn(e, fr, st, in.Block().Instrs[i-1])
	}
	switch v := in.(type) {
	case *ssa.Store:
		// entity names are shared by all collections
		if fa, ok := v.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Entities" {
			if _, isC := v.Val.(*ssa.Const); !isC {
				st.env[v.Val] = absUnk
			}
		}
	case *ssa.IndexAddr:
		if t := unTags(e.eval(st, v.X).Tags); t != "" {
			if d, ok := v.Index.(ssa.Instruction); ok {
				l.element(st, d, t)
			}
		}
	case *ssa.Next:
		if t := unTags(e.eval(st, v.Iter).Tags); t != "" && st.prop["ok"] != "" {
			st.prop["okx"] = tagUnion(st.prop["okx"], t)
		}
	}
}

// element: in the loop whose index is computed by d, each round deals with another row.
func (l *scopePlugin) element(st *State, d ssa.Instruction, t string) {
	entry := blockID(d) + "=" + strings.ReplaceAll(t, ";", "|")
	if st.prop["ok"] != "" && !tagHas(st.prop["el"], entry) {
		st.prop["okx"] = tagUnion(st.prop["okx"], t)
	}
	st.prop["el"] = tagUnion(st.prop["el"], entry)
}

func idxOf(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func firstReal(in ssa.Instruction) bool {
	for _, x := range in.Block().Instrs {
		switch x.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		}
		return x == in
	}
	return false
}

// KeepElem filters the tags of a value that is put into a container.
func (l *scopePlugin) KeepElem(st *State, tags string) (string, bool) {
	ok := st.prop["ok"]
	if ok == "" {
		return tags, unTags(tags) != "" // the record may be reused for the next row: what it held is kept with the element
	}
	return tagFilter(tags, func(x string) bool { return !strings.HasPrefix(x, "un:") || tagHas(st.prop["okx"], x) }), true
}

var collName = regexp.MustCompile(`^[Cc]ollection(Name)?$`)

// scopeSources lists the places of a parameter that hold a collection name.
func scopeSources(path string, t types.Type, depth int) []string {
	var r []string
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fp := path + "." + f.Name()
		if isStringType(f.Type()) && collName.MatchString(f.Name()) {
			r = append(r, fp)
		} else if _, isS := f.Type().Underlying().(*types.Struct); isS {
			r = append(r, scopeSources(fp, f.Type(), depth+1)...)
		}
	}
	return r
}

func init() {
	register("S02", func(p *Prog) *Result {
		l := &scopePlugin{p: p, findings: map[string]*Finding{}, stmts: map[ssa.Instruction]string{}, scoped: map[ssa.Instruction]bool{}, checks: map[ssa.Instruction]bool{}, dump: os.Getenv("SCOPE_DUMP") != ""}
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 10, "statements": 8}}
		writes := p.reaches(func(n string) bool { return strings.HasPrefix(n, "(*database/sql.") && strings.Contains(n, ").Exec") })
		e := NewEng(p, l)
		e.keepStr = true
		e.anonHoles = true
		e.deep = true
		e.forkBool = true
		e.skipField = ".Entities"
		e.exactCmp = true
		n := 0
		for _, fn := range p.exportedRoots("core", "cortexdb", "hindsight") {
			if only := os.Getenv("SCOPE_ONLY"); only != "" && fnName(fn) != only {
				continue
			}
			heap := map[string]*Abs{}
			over := map[int]*Abs{}
			for i, prm := range fn.Params {
				if i == 0 && fn.Signature.Recv() != nil {
					continue
				}
				path := fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type()))
				if isStringType(prm.Type()) && collName.MatchString(prm.Name()) {
					over[i] = scopeAbs("")
				}
				for _, s := range scopeSources(path, prm.Type(), 0) {
					heap[s] = scopeAbs("")
				}
			}
			if len(heap) == 0 && len(over) == 0 || !returnsRows(fn) || writes(fn) {
				continue
			}
			l.graphRows = strings.HasSuffix(fn.Pkg.Pkg.Path(), "cortexdb")
			if l.dump {
				fmt.Fprintf(os.Stderr, "ROOT %s\n", fnName(fn))
			}
			n++
			e.argOver = over
			exits := e.RunRoot(fn, nil, heap)
			e.argOver = nil
			if l.dump {
				fmt.Fprintf(os.Stderr, "ROOT %s sims=%d states=%d calls=%d\n", fnName(fn), e.nSim, e.nStates, e.nCalls)
			}
			for _, x := range exits {
				st := &State{heap: x.heap, prop: x.prop}
				for i, a := range x.res {
					if isErrorType(fn.Signature.Results().At(i).Type()) {
						continue
					}
					if l.dump {
						fmt.Fprintf(os.Stderr, "EXIT %s res%d path=%s tags=%s\n", fnName(fn), i, a.Path, a.Tags)
						for k, v := range st.heap {
							if v.Tags != "" || strings.HasPrefix(k, a.Path) {
								fmt.Fprintf(os.Stderr, "    %s -> %s tags=%s\n", k, v.Path, v.Tags)
							}
						}
					}
					for _, t := range strings.Split(unTags(e.deepTags(st, a, 0)), ";") {
						if t == "" {
							continue
						}
						k := "unscoped|" + fnName(fn) + "|" + t
						if l.findings[k] == nil {
							l.findings[k] = &Finding{Rule: "unscoped", Construct: fnName(fn) + " <- " + t[3:], Pos: t[3:], Msg: fmt.Sprintf("rows read at %s reach the result of %s without having been restricted to the requested collection", t[3:], fnName(fn)), Chain: fnName(fn)}
						}
					}
				}
			}
		}
		r.Counts["roots"], r.Counts["statements"], r.Counts["scoped_statements"], r.Counts["row_checks"], r.Counts["functions"] = n, len(l.stmts), len(l.scoped), len(l.checks), len(e.visited)
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
}

// returnsRows: the function hands out something other than errors and identifiers.
func returnsRows(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if !isErrorType(t) && !isStringType(t) {
			return true
		}
	}
	return false
}

func (l *scopePlugin) debugFn(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	if w := os.Getenv("SCOPE_WATCH"); w != "" {
		if v := st.heap[w]; v != nil && v.Tags != "" {
			fmt.Fprintf(os.Stderr, "WATCH %s b%d after %s: %s | %v\n", fnName(fr.fn), in.Block().Index, in, v.Tags, st.prop)
		}
	}
	want := os.Getenv("SCOPE_FN")
	if want == "" || fr.fn.Name() != want {
		return
	}
	if os.Getenv("SCOPE_PARAM") != "" && in.Block().Index == 0 && idxOf(in) == 0 {
		for _, p := range fr.fn.Params {
			a := e.eval(st, p)
			fmt.Fprintf(os.Stderr, "   PARAM %s path=%s tags=%s emp=%d\n", p.Name(), a.Path, a.Tags, a.Emp)
		}
	}
	if v, ok := in.(ssa.Value); ok {
		a := st.env[v]
		s := ""
		if a != nil && a.Str != nil {
			if a.Str.top {
				s = "TOP"
			}
			for _, x := range a.Str.alts {
				s += " | " + x.String()
			}
		}
		if s != "" || a != nil && a.Tags != "" {
			fmt.Fprintf(os.Stderr, "   b%d %s = %s: path=%s tags=%s nil=%d emp=%d str=%s prop=%v\n", in.Block().Index, v.Name(), in, a.Path, a.Tags, a.Nil, a.Emp, s, st.prop)
		}
	}
}

// Enter: the loops of a callee are its own.
func (l *scopePlugin) Enter(prop map[string]string) (map[string]string, func(map[string]string) map[string]string) {
	inner := map[string]string{}
	for k, v := range prop {
		if k != "el" {
			inner[k] = v
		}
	}
	return inner, func(x map[string]string) map[string]string {
		r := map[string]string{}
		for k, v := range x {
			if k != "el" {
				r[k] = v
			}
		}
		if v := prop["el"]; v != "" {
			r["el"] = v
		}
		return r
	}
}

// aggregates: the statement hands out figures computed over many rows.
func (s *selStmt) aggregates() bool {
	for _, c := range s.cols {
		for i := 0; i+1 < len(c); i++ {
			switch {
			case !c[i+1].is("("):
			case c[i].is("count"), c[i].is("sum"), c[i].is("avg"), c[i].is("min"), c[i].is("max"), c[i].is("total"), c[i].is("group_concat"):
				return true
			}
		}
	}
	return false
}
