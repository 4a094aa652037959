package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// I01: the in-memory vector indexes follow the rows. Every path of an operation that makes a change of
// rows of an indexed table durable also applies it to each index that is in use, and an operation that
// fails has not touched them.

// indexed tables and the indexes over them
var indexesOf = map[string][]string{"embeddings": {"H", "I"}, "graph_nodes": {"G"}}
var indexNames = map[string]string{"H": "the HNSW index", "I": "the IVF index", "G": "the graph's vector index"}

type rowEffect struct {
	table, kind string // del, up (replaces an earlier version), new
	where       string // which rows, as a condition on the table
	direct      bool   // the rows are named by their ids
}

type indexPlugin struct {
	p        *Prog
	sch      *dbSchema
	effects  []rowEffect
	effIdx   map[rowEffect]int
	sels     []string
	selIdx   map[string]int
	findings map[string]*Finding
	writes   map[ssa.Instruction]bool
	events   map[ssa.Instruction]bool
	sources  map[string]bool
	selfDel  map[*ssa.Function]bool
}

// indexEvent classifies a call on an in-memory index.
func indexEvent(n string) (idx, ev string) {
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return "", ""
	}
	m := n[i+1:]
	switch {
	case strings.HasSuffix(n[:i], "/index.HNSW)"):
		idx = "H"
	case strings.HasSuffix(n[:i], "/index.IVFIndex)"):
		idx = "I"
	case strings.HasSuffix(n[:i], "/graph.SimpleHNSW)"):
		idx = "G"
	case strings.HasSuffix(n[:i], "/index"):
		switch m {
		case "NewHNSW":
			return "H", "del"
		case "NewIVFIndex":
			return "I", "del"
		}
		return "", ""
	default:
		return "", ""
	}
	switch m {
	case "Insert", "Add", "InsertBatch", "InsertBatchParallel":
		return idx, "ins"
	case "Delete", "Remove", "Clear":
		return idx, "del"
	}
	return "", ""
}

func indexType(t types.Type) string {
	s := types.TypeString(t, nil)
	switch {
	case strings.HasSuffix(s, "/index.HNSW"):
		return "H"
	case strings.HasSuffix(s, "/index.IVFIndex"):
		return "I"
	case strings.HasSuffix(s, "/graph.SimpleHNSW"), strings.HasSuffix(s, "/graph.HNSWGraphIndex"):
		return "G"
	}
	return ""
}

func (l *indexPlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := callName(c.Common())
				if dbUse(n) || releaseCall(n) {
					return true
				}
				if i, _ := indexEvent(n); i != "" {
					return true
				}
			}
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if indexType(fn.Signature.Results().At(i).Type()) != "" {
			return true
		}
	}
	return passesError(fn)
}

func whereOf(l []sqlTok) string {
	for i, t := range l {
		if t.is("where") {
			e := len(l)
			for j := i + 1; j < len(l); j++ {
				if l[j].is("returning") || l[j].is(";") {
					e = j
					break
				}
			}
			return tokString(l[i+1 : e])
		}
	}
	return ""
}

var directIDs = regexp.MustCompile(`^id (= \?|in \()`)

// effectsOf lists what a statement does to the rows of indexed tables.
func (l *indexPlugin) effectsOf(a *Abs) []rowEffect {
	if a == nil || a.Str == nil || a.Str.top {
		return nil
	}
	var r []rowEffect
	for _, alt := range a.Str.alts {
		t := sqlTokens(alt)
		if len(t) < 3 {
			continue
		}
		switch {
		case t[0].is("delete"):
			w := whereOf(t)
			tab := t[2].s
			if indexesOf[tab] != nil {
				r = append(r, rowEffect{tab, "del", w, directIDs.MatchString(w)})
			}
			for _, d := range l.cascades(tab) {
				cw := strings.Replace(w, "id", d.col, 1)
				if w != "id = ?" {
					cw = "*" // not followed
				}
				r = append(r, rowEffect{d.table, "del", cw, false})
			}
		case t[0].is("update"):
			i := 1
			if t[1].is("or") {
				i = 3
			}
			if i+1 < len(t) && indexesOf[t[i].s] != nil {
				set, _ := parseSet(t, i+2)
				if set["vector"] != nil || set["id"] != nil {
					r = append(r, rowEffect{t[i].s, "up", "", true})
				}
			}
		case t[0].is("insert"), t[0].is("replace"):
			s := parseInsert(t)
			if s == nil {
				continue
			}
			k := "new"
			if s.or == "replace" || s.set["vector"] != nil {
				k = "up"
			}
			if indexesOf[s.table] != nil {
				r = append(r, rowEffect{s.table, k, "", true})
			}
			if s.or == "replace" {
				for _, d := range l.cascades(s.table) {
					r = append(r, rowEffect{d.table, "del", "*", false})
				}
			}
		}
	}
	return r
}

type cascade struct{ table, col string }

func (l *indexPlugin) cascades(tab string) []cascade {
	var r []cascade
	for _, n := range sortedKeys(l.sch.tables) {
		if indexesOf[n] == nil {
			continue
		}
		for _, f := range l.sch.tables[n].fks {
			if f.ref == tab && f.onDelete == "cascade" {
				r = append(r, cascade{n, f.col})
			}
		}
	}
	return r
}

func (l *indexPlugin) enc(es []rowEffect) string {
	var s []string
	for _, e := range es {
		n, ok := l.effIdx[e]
		if !ok {
			n = len(l.effects)
			l.effects = append(l.effects, e)
			l.effIdx[e] = n
		}
		s = append(s, strconv.Itoa(n))
	}
	return strings.Join(s, "_")
}

func (l *indexPlugin) dec(s string) []rowEffect {
	var r []rowEffect
	for _, x := range strings.Split(s, "_") {
		if n, err := strconv.Atoi(x); err == nil {
			r = append(r, l.effects[n])
		}
	}
	return r
}

func joinEnc(a, b string) string {
	m := map[string]bool{}
	var r []string
	for _, x := range strings.Split(a+"_"+b, "_") {
		if x != "" && !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return strings.Join(r, "_")
}

func (l *indexPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if idx, ev := indexEvent(c.Name); idx != "" {
		l.event(fr, st, c, idx, ev)
		return true, l.results(st, c)
	}
	if !strings.HasPrefix(c.Name, "(*database/sql.") && !strings.HasPrefix(c.Name, "(database/sql.Result)") && !queryIface(c) {
		return false, nil
	}
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	recv := c.Args[0].Path
	val := func(v *Abs, err Tri) *Abs { return &Abs{Tup: []*Abs{v, {Nil: err}}} }
	at := strings.NewReplacer(".", "_", "[", "_").Replace(l.p.pos(c.Pos()))
	both := func(v *Abs) []Outcome {
		return []Outcome{{st: st, res: val(v, Yes)}, {st: st.clone(), res: val(&Abs{Nil: Yes}, No)}}
	}
	switch {
	case m == "Begin" || m == "BeginTx":
		id := "tx@" + at
		bad := st.clone()
		st.prop[id] = "open"
		return true, []Outcome{{st: st, res: val(&Abs{Path: id, Nil: No}, Yes)}, {st: bad, res: val(&Abs{Nil: Yes}, No)}}
	case strings.HasPrefix(m, "Prepare"):
		return true, both(&Abs{Path: "stmt(" + txID(recv) + ")" + l.enc(l.effectsOf(sqlArg(c))) + "@" + at, Nil: No})
	case m == "Stmt" || m == "StmtContext":
		if len(c.Args) > 1 && strings.HasPrefix(recv, "tx@") && strings.HasPrefix(c.Args[len(c.Args)-1].Path, "stmt(") {
			p := c.Args[len(c.Args)-1].Path
			return true, []Outcome{{st: st, res: &Abs{Nil: No, Path: "stmt(" + recv + p[strings.IndexByte(p, ')'):]}}}
		}
		return false, nil
	case strings.HasPrefix(m, "Exec"):
		var enc string
		if strings.HasPrefix(recv, "stmt(") {
			rest := recv[strings.IndexByte(recv, ')')+1:]
			if i := strings.IndexByte(rest, '@'); i >= 0 {
				enc = rest[:i]
			}
		} else {
			enc = l.enc(l.effectsOf(sqlArg(c)))
		}
		bad := st.clone()
		if enc != "" {
			l.writes[c.Instr] = true
			if tx := txID(recv); tx != "" && st.prop[tx] != "" {
				st.prop[tx] = joinEnc(strings.TrimPrefix(st.prop[tx], "open"), enc)
			} else {
				l.durable(st, enc)
			}
		}
		return true, []Outcome{{st: st, res: val(&Abs{Nil: No}, Yes)}, {st: bad, res: val(&Abs{Nil: Yes}, No)}}
	case m == "Commit":
		bad := st.clone()
		delete(bad.prop, recv)
		l.durable(st, st.prop[recv])
		st.prop["committed"] = "1"
		delete(st.prop, recv)
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: bad, res: &Abs{Nil: No}}}
	case m == "Rollback":
		delete(st.prop, recv)
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}}
	case m == "RowsAffected" || m == "LastInsertId":
		return true, both(absUnk)
	case m == "Query" || m == "QueryContext" || m == "QueryRow" || m == "QueryRowContext":
		row := &Abs{Nil: No, Tags: l.selTag(e, sqlArg(c)), Path: "rows@" + at}
		if strings.HasPrefix(m, "QueryRow") {
			return true, []Outcome{{st: st, res: row}}
		}
		return true, both(row)
	case m == "Scan":
		return true, l.scan(st, c)
	case m == "Next":
		return true, []Outcome{{st: st, res: absUnk}}
	case m == "Err" || m == "Close":
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: st.clone(), res: &Abs{Nil: No}}}
	}
	return false, nil
}

// queryIface: a query method of an interface *sql.DB and *sql.Tx implement.
func queryIface(c *CallSite) bool {
	if !c.Common.IsInvoke() {
		return false
	}
	s := c.Common.Signature()
	return s.Results().Len() > 0 && strings.HasPrefix(types.TypeString(s.Results().At(0).Type(), nil), "*database/sql.")
}

func (l *indexPlugin) results(st *State, c *CallSite) []Outcome {
	sig := c.Common.Signature()
	switch {
	case sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()):
		return []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: st.clone(), res: &Abs{Nil: No}}}
	case sig.Results().Len() == 1 && isPointer(sig.Results().At(0).Type()):
		return []Outcome{{st: st, res: &Abs{Nil: No, Path: "idx@" + strings.NewReplacer(".", "_").Replace(l.p.pos(c.Pos()))}}}
	}
	return []Outcome{{st: st, res: absUnk}}
}

func isPointer(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// selTag identifies the condition of a query for ids of indexed rows.
func (l *indexPlugin) selTag(e *Eng, a *Abs) string {
	if a == nil || a.Str == nil || a.Str.top {
		return ""
	}
	tag := ""
	for _, alt := range a.Str.alts {
		toks := sqlTokens(alt)
		s := parseSelect(toks)
		if s == nil || len(s.tables) != 1 || indexesOf[s.tables[0].name] == nil {
			continue
		}
		w := "*"
		i := -1
		for j, t := range toks {
			if t.is("where") {
				i = j
				break
			}
		}
		if i < 0 {
			w = ""
		} else {
			w = tokString(toks[i+1:])
		}
		if s.limit {
			w = "limited: " + w
		}
		n, ok := l.selIdx[w]
		if !ok {
			n = len(l.sels)
			l.sels = append(l.sels, w)
			l.selIdx[w] = n
		}
		tag = tagUnion(tag, fmt.Sprintf("sel:%d", n))
	}
	return tag
}

func (l *indexPlugin) scan(st *State, c *CallSite) []Outcome {
	bad := st.clone()
	if len(c.Args) > 1 && c.Args[1].Path != "" {
		for i := 0; ; i++ {
			v, ok := st.heap[fmt.Sprintf("%s[%d]", c.Args[1].Path, i)]
			if !ok {
				break
			}
			if v.Path != "" {
				st.killUnder(v.Path)
				if t := c.Args[0].Tags; t != "" {
					st.heap[v.Path] = &Abs{Tags: t}
				}
			}
		}
	}
	return []Outcome{{st: st, res: &Abs{Nil: Yes}, set: true}, {st: bad, res: &Abs{Nil: No}}}
}

// durable: the row changes have taken effect.
func (l *indexPlugin) durable(st *State, enc string) {
	for _, ef := range l.dec(enc) {
		for _, x := range indexesOf[ef.table] {
			st.prop["done:"+x] = "1"
			early := "e:" + x + ":" + map[string]string{"del": "del", "up": "ins", "new": "ins"}[ef.kind]
			if st.prop[early] != "" {
				delete(st.prop, early)
				if ef.kind != "del" {
					delete(st.prop, "e:"+x+":del")
				}
				continue
			}
			k := "p:" + x + ":" + ef.kind
			st.prop[k] = joinEnc(st.prop[k], l.enc([]rowEffect{ef}))
		}
	}
}

// event: an index is changed.
func (l *indexPlugin) event(fr *Frame, st *State, c *CallSite, x, ev string) {
	l.events[c.Instr] = true
	early := st.prop["done:"+x] == "" && st.prop["committed"] == ""
	switch ev {
	case "del":
		st.prop["d:"+x] = "1"
		if early {
			st.prop["e:"+x+":del"] = "1"
			return
		}
		if enc := st.prop["p:"+x+":del"]; enc != "" {
			if w := l.otherRows(st, c, enc); w != "" {
				k := "other-rows|" + fnName(fr.root) + "|" + x
				if l.findings[k] == nil {
					l.findings[k] = &Finding{Rule: "other-rows", Construct: fnName(fr.root), Pos: l.p.pos(c.Pos()), Msg: fmt.Sprintf("%s removes from %s other entries than the rows it deletes: %s", fnName(fr.root), indexNames[x], w), Chain: fr.chain()}
				}
			}
			delete(st.prop, "p:"+x+":del")
			st.prop["dd:"+x] = enc
		} else {
			delete(st.prop, "dd:"+x)
		}
	case "ins":
		repl := st.prop["d:"+x] != "" || l.replaces(c)
		delete(st.prop, "d:"+x)
		if early {
			st.prop["e:"+x+":ins"] = "1"
			return
		}
		if enc := st.prop["dd:"+x]; enc != "" && st.prop["p:"+x+":up"] != "" {
			st.prop["p:"+x+":del"] = enc // that removal made room for this entry
		}
		delete(st.prop, "dd:"+x)
		delete(st.prop, "p:"+x+":new")
		if repl {
			delete(st.prop, "p:"+x+":up")
		} else if st.prop["p:"+x+":up"] != "" {
			k := "stale|" + fnName(fr.root) + "|" + x
			if l.findings[k] == nil {
				l.findings[k] = &Finding{Rule: "stale-entry", Construct: fnName(fr.root), Pos: l.p.pos(c.Pos()), Msg: fmt.Sprintf("%s adds the new version of a row to %s without removing the earlier one", fnName(fr.root), indexNames[x]), Chain: fr.chain()}
			}
			delete(st.prop, "p:"+x+":up")
		}
	}
}

// replaces: the insert operation removes an earlier entry itself.
func (l *indexPlugin) replaces(c *CallSite) bool {
	f := c.Callee
	if f == nil {
		return false
	}
	if r, ok := l.selfDel[f]; ok {
		return r
	}
	r := l.p.reaches(func(n string) bool { _, ev := indexEvent(n); return ev == "del" })(f)
	l.selfDel[f] = r
	return r
}

// otherRows compares the ids removed from the index with the rows deleted.
func (l *indexPlugin) otherRows(st *State, c *CallSite, enc string) string {
	if strings.HasSuffix(c.Name, ".Clear") || strings.Contains(c.Name, "New") || len(c.Args) < 2 {
		return ""
	}
	var sel []string
	for _, t := range strings.Split(c.Args[1].Tags, ";") {
		if strings.HasPrefix(t, "sel:") {
			n, _ := strconv.Atoi(t[4:])
			sel = append(sel, l.sels[n])
		}
	}
	if len(sel) == 0 {
		return "" // ids given by the caller, or not followed
	}
	for _, s := range sel {
		ok := false
		var want []string
		for _, ef := range l.dec(enc) {
			if ef.where == s || ef.where == "*" || ef.direct {
				ok = true
			}
			want = append(want, "["+ef.where+"]")
		}
		l.sources[s] = true
		if !ok {
			return fmt.Sprintf("ids are selected by [%s], rows deleted by %s", s, strings.Join(want, ", "))
		}
	}
	return ""
}

// ---- conditions under which an index is not in use ----

func (l *indexPlugin) RefineBool(e *Eng, fr *Frame, st *State, loc string, truth bool) {
	if truth {
		return
	}
	switch {
	case strings.HasSuffix(loc, ".HNSW.Enabled"):
		st.prop["no:H"] = "1"
	case strings.HasSuffix(loc, ".Trained"):
		st.prop["no:I"] = "1"
	}
}

func (l *indexPlugin) Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	if isNilConst(x) {
		x, y = y, x
	}
	if isNilConst(y) {
		if i := indexType(x.Type()); i != "" && eq {
			st.prop["no:"+i] = "1"
		}
		return true
	}
	if c, ok := x.(*ssa.Const); ok {
		x, y = y, c
	}
	if c, ok := y.(*ssa.Const); ok && strings.HasSuffix(types.TypeString(x.Type(), nil), "/core.IndexType") && c.Value != nil {
		if l.isIVF(c) != eq {
			st.prop["no:I"] = "1"
		}
	}
	return true
}

func (l *indexPlugin) isIVF(c *ssa.Const) bool {
	n, ok := c.Type().(*types.Named)
	if !ok {
		return false
	}
	o, ok := n.Obj().Pkg().Scope().Lookup("IndexTypeIVF").(*types.Const)
	return ok && constant.Compare(o.Val(), 39 /* token.EQL */, c.Value)
}

func (l *indexPlugin) Return(e *Eng, fr *Frame, st *State, res []*Abs) {
	for i, r := range res {
		if r.Nil == Yes {
			if x := indexType(fr.fn.Signature.Results().At(i).Type()); x != "" {
				st.prop["no:"+x] = "1"
			}
		}
	}
}

func (l *indexPlugin) checkExits(root *ssa.Function, exits []*Exit, writes bool) {
	ei := errIndex(root.Signature)
	add := func(rule, msg string) {
		k := rule + "|" + fnName(root)
		if l.findings[k] == nil {
			l.findings[k] = &Finding{Rule: rule, Construct: fnName(root), Pos: l.p.pos(root.Pos()), Msg: msg, Chain: fnName(root)}
		}
	}
	for _, x := range exits {
		failed := ei >= 0 && ei < len(x.res) && x.res[ei].Nil == No
		for _, k := range sortedKeys(x.prop) {
			f := strings.Split(k, ":")
			if len(f) != 3 || x.prop["no:"+f[1]] != "" {
				continue
			}
			what := map[string]string{"del": "deleted rows", "up": "stored rows", "new": "new rows"}[f[2]]
			if f[0] == "p" && !failed {
				add("missing-"+f[1]+f[2], fmt.Sprintf("%s can succeed with %s that %s does not reflect", fnName(root), what, indexNames[f[1]]))
			}
			if f[0] == "e" && failed && writes && x.prop["done:"+f[1]] == "" {
				add("early-"+f[1]+f[2], fmt.Sprintf("%s can fail without changing any row after it has already changed %s", fnName(root), indexNames[f[1]]))
			}
		}
	}
}

// snapshotRules: a stored copy of an index is dropped with the first change of a row.
func (l *indexPlugin) snapshotRules() (n int) {
	if l.sch.tables["index_snapshots"] == nil {
		return 0
	}
	for _, ev := range []string{"insert", "delete", "update"} {
		ok := false
		for _, t := range l.sch.triggers {
			if t.table != "embeddings" || t.event != ev {
				continue
			}
			for _, b := range t.body {
				if len(b) > 2 && b[0].is("delete") && b[2].is("index_snapshots") && !t.cond {
					ok = true
				}
				if len(b) > 2 && b[0].is("delete") && b[2].is("index_snapshots") && ev == "update" && len(t.of) > 0 {
					for _, c := range t.of {
						if c == "vector" {
							ok = true
						}
					}
				}
			}
		}
		n++
		if !ok {
			l.findings["snapshot|"+ev] = &Finding{Rule: "stale-snapshot", Construct: "embeddings " + ev, Pos: l.sch.tables["embeddings"].pos, Msg: "no unconditional trigger drops the stored index snapshot on " + ev + " of embeddings: after a crash the old index is loaded and the change is not found"}
		}
	}
	return n
}

// writersElsewhere lists the functions of the other packages that write rows of indexed tables themselves.
func (l *indexPlugin) writersElsewhere() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range l.p.allFuncsAndInit() {
		if fn.Pkg == nil {
			continue
		}
		pk := fn.Pkg.Pkg.Path()
		if strings.HasSuffix(pk, "/pkg/core") || strings.HasSuffix(pk, "/pkg/graph") || fn.Parent() != nil {
			continue
		}
		found := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !dbUse(callName(c.Common())) {
					continue
				}
				for _, a := range c.Common().Args {
					if isStringType(a.Type()) && len(l.effectsOf(&Abs{Str: &Tmpl{alts: l.p.texts(a)}})) > 0 {
						found = true
					}
				}
			}
		}
		if found {
			r = append(r, fn)
		}
	}
	return r
}

func init() {
	register("I01", func(p *Prog) *Result {
		l := &indexPlugin{p: p, sch: p.schema(), effIdx: map[rowEffect]int{}, selIdx: map[string]int{}, findings: map[string]*Finding{}, writes: map[ssa.Instruction]bool{}, events: map[ssa.Instruction]bool{}, sources: map[string]bool{}, selfDel: map[*ssa.Function]bool{}}
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 100, "row_changes": 12, "index_changes": 10}}
		e := NewEng(p, l)
		e.keepStr, e.loopOnce = true, true
		n := 0
		all := map[*ssa.Function][]*Exit{}
		var roots []*ssa.Function
		for _, fn := range p.exportedRoots("core", "graph") {
			n++
			all[fn] = e.RunRoot(fn, nil, nil)
			roots = append(roots, fn)
		}
		for _, fn := range l.writersElsewhere() {
			n++
			all[fn] = e.RunRoot(fn, nil, nil)
			roots = append(roots, fn)
		}
		writers := map[string]bool{}
		for in := range l.writes {
			for f := in.Parent(); f != nil; f = f.Parent() {
				writers[fnFull(f)] = true
			}
		}
		reach := p.reaches(func(n string) bool { return writers[n] })
		for _, fn := range roots {
			l.checkExits(fn, all[fn], writers[fnFull(fn)] || reach(fn))
		}
		r.Counts["snapshot_rules"] = l.snapshotRules()
		r.Counts["roots"], r.Counts["row_changes"], r.Counts["index_changes"], r.Counts["functions"], r.Counts["id_queries"] = n, len(l.writes), len(l.events), len(e.visited), len(l.sources)
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
}
