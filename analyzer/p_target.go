package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S03: an operation addressed to one record, document, session, user, entity or memory bucket reads and
// changes rows of that one only: every statement over the tables concerned carries a condition, holding
// for each row, that binds the addressing column to the value the caller gave.

// target: a parameter (or a field of one) of an operation and the columns that identify its rows.
type target struct {
	root  string              // operation
	param int                 // parameter, not counting the receiver
	field string              // field of a request, or ""
	cols  map[string][]string // table -> columns that may carry the condition
	not   bool                // the rows of the value are left out
	with  map[string]string   // other fields of the request and their values
	key   string              // field that forms the key together with this one
	acl   bool                // the parameter lists the identities of the caller
	row   bool                // an internal lookup: the one row read is the one of the key passed
	list  bool                // the parameter lists the values; which of them a placeholder takes is not followed
}

func tcols(l ...string) map[string][]string {
	m := map[string][]string{}
	for _, x := range l {
		f := strings.SplitN(x, ":", 2)
		m[f[0]] = strings.Split(f[1], ",")
	}
	return m
}

const coreT, graphT, dbT, toolT = "(*core.SQLiteStore).", "(*graph.GraphStore).", "(*cortexdb.DB).", "(*cortexdb.GraphRAGToolbox)."

var targets = []target{
	{coreT + "GetByID", 1, "", tcols("embeddings:id"), false, nil, "", false, false, false},
	{coreT + "Delete", 1, "", tcols("embeddings:id"), false, nil, "", false, false, false},
	{coreT + "GetByDocID", 1, "", tcols("embeddings:doc_id"), false, nil, "", false, false, false},
	{coreT + "DeleteByDocID", 1, "", tcols("embeddings:doc_id"), false, nil, "", false, false, false},
	{coreT + "GetDocument", 1, "", tcols("documents:id"), false, nil, "", false, false, false},
	{coreT + "DeleteDocument", 1, "", tcols("documents:id", "embeddings:doc_id"), false, nil, "", false, false, false},
	{coreT + "UpdateDocument", 1, "ID", tcols("documents:id"), false, nil, "", false, false, false},
	{coreT + "ListDocumentsWithFilter", 1, "", tcols("documents:author"), false, nil, "", false, false, false},
	{coreT + "GetCollection", 1, "", tcols("collections:name,id"), false, nil, "", false, false, false},
	{coreT + "DeleteCollection", 1, "", tcols("collections:name,id", "embeddings:collection_id,collections.name"), false, nil, "", false, false, false},
	{coreT + "CreateCollection", 1, "", tcols("collections:name,id"), false, nil, "", false, false, false},
	{coreT + "GetCollectionStats", 1, "", tcols("collections:name,id", "embeddings:collection_id,collections.name"), false, nil, "", false, false, false},
	{coreT + "GetSession", 1, "", tcols("sessions:id"), false, nil, "", false, false, false},
	{coreT + "GetSessionHistory", 1, "", tcols("messages:session_id"), false, nil, "", false, false, false},
	{coreT + "SearchChatHistory", 2, "", tcols("messages:session_id"), false, nil, "", false, false, false},
	{coreT + "AddMessage", 1, "SessionID", tcols("sessions:id"), false, nil, "", false, false, false},
	{coreT + "KeywordSearchMessages", 2, "", tcols("messages:sessions.user_id"), false, nil, "", false, false, false},
	{coreT + "SearchMessagesByUser", 1, "", tcols("messages:sessions.user_id"), false, nil, "", false, false, false},
	{coreT + "KeywordSearchMessages", 3, "", tcols("messages:session_id"), true, nil, "", false, false, false},
	{coreT + "SearchMessagesByUser", 3, "", tcols("messages:session_id"), true, nil, "", false, false, false},
	{coreT + "GetMultiVectorEntity", 1, "", tcols("embeddings:$_entity_id,id"), false, nil, "", false, false, false},
	{coreT + "DeleteMultiVectorEntity", 1, "", tcols("embeddings:$_entity_id,id"), false, nil, "", false, false, false},
	{graphT + "GetNode", 1, "", tcols("graph_nodes:id"), false, nil, "", false, false, false},
	{graphT + "DeleteNode", 1, "", tcols("graph_nodes:id", "graph_edges:from_node_id,to_node_id"), false, nil, "", false, false, false},
	{graphT + "DeleteEdge", 1, "", tcols("graph_edges:id"), false, nil, "", false, false, false},
	{graphT + "GetEdges", 1, "", tcols("graph_edges:from_node_id,to_node_id"), false, nil, "", false, false, false},
	{dbT + "GetMemory", 1, "MemoryID", tcols("messages:id"), false, nil, "", false, false, false},
	{dbT + "UpdateMemory", 1, "MemoryID", tcols("messages:id"), false, nil, "", false, false, false},
	{dbT + "DeleteMemory", 1, "MemoryID", tcols("messages:id", "sessions:id,messages.id"), false, nil, "", false, false, false},
	{toolT + "GetMemory", 1, "MemoryID", tcols("messages:id"), false, nil, "", false, false, false},
	{toolT + "UpdateMemory", 1, "MemoryID", tcols("messages:id"), false, nil, "", false, false, false},
	{toolT + "DeleteMemory", 1, "MemoryID", tcols("messages:id", "sessions:id,messages.id"), false, nil, "", false, false, false},
	{dbT + "GetKnowledge", 1, "KnowledgeID", tcols("documents:id"), false, nil, "", false, false, false},
	{dbT + "DeleteKnowledge", 1, "KnowledgeID", tcols("documents:id", "embeddings:doc_id"), false, nil, "", false, false, false},
	{toolT + "DeleteKnowledge", 1, "KnowledgeID", tcols("documents:id", "embeddings:doc_id"), false, nil, "", false, false, false},
	{toolT + "GetKnowledge", 1, "KnowledgeID", tcols("documents:id"), false, nil, "", false, false, false},
}

func init() {
	for _, on := range []string{dbT, toolT} {
		for _, op := range []string{"SearchMemory", "SaveMemory"} {
			for scope, owner := range map[string]string{"user": "UserID", "session": "SessionID", "global": ""} {
				f, k := owner, "Namespace"
				if owner == "" {
					f, k = k, ""
				}
				targets = append(targets, target{on + op, 1, f, tcols("messages:session_id"), false, map[string]string{"Scope": scope}, k, false, false, false})
			}
		}
	}
	targets = append(targets, target{coreT + "SearchWithACL", 2, "", tcols("embeddings:acl"), false, nil, "", true, false, false})
	for _, x := range []struct {
		root string
		cols map[string][]string
	}{
		{coreT + "DeleteBatch", tcols("embeddings:id")},
		{coreT + "ClearByDocID", tcols("embeddings:doc_id")},
		{graphT + "GetNodesBatch", tcols("graph_nodes:id")},
		{graphT + "GetEdgesBatch", tcols("graph_edges:id")},
		{graphT + "DeleteNodesBatch", tcols("graph_nodes:id", "graph_edges:from_node_id,to_node_id")},
		{graphT + "DeleteEdgesBatch", tcols("graph_edges:id")},
	} {
		targets = append(targets, target{x.root, 1, "", x.cols, false, nil, "", false, false, true})
	}
	sort.SliceStable(targets, func(i, j int) bool {
		return targets[i].root+targets[i].with["Scope"] < targets[j].root+targets[j].with["Scope"]
	})
}

type targetPlugin struct {
	p        *Prog
	t        *target
	findings map[string]*Finding
	stmts    map[ssa.Instruction]bool
	hits     map[string]bool
	text     map[string]*Abs
	schema   *dbSchema
	dump     bool
}

func (l *targetPlugin) Touches(fn *ssa.Function) bool {
	return (&scopePlugin{}).Touches(fn) || passesError(fn)
}

func (l *targetPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	switch c.Name {
	case "(*strings.Replacer).Replace", "net/url.PathEscape", "net/url.QueryEscape", "strconv.Quote", "encoding/hex.EncodeToString", "strings.ReplaceAll":
		a := c.Args[0]
		if strings.HasPrefix(c.Name, "(") {
			a = c.Args[1]
		}
		if h := oneHole(a); h == scopeTag || h == "key" {
			return true, []Outcome{{st: st, res: &Abs{Emp: No, Str: &Tmpl{alts: []Seq{{{K: pHole, S: h + "q"}}}}}}}
		}
		return false, nil
	case "strings.TrimSpace", "strings.ToLower":
		if oneHole(c.Args[0]) != "" {
			return true, []Outcome{{st: st, res: c.Args[0]}}
		}
		return false, nil
	}
	if !strings.HasPrefix(c.Name, "(*database/sql.") && !queryIface(c) {
		return false, nil
	}
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	at := strings.NewReplacer(".", "_", "[", "_").Replace(l.p.pos(c.Pos()))
	both := func(v *Abs) []Outcome {
		return []Outcome{{st: st, res: &Abs{Tup: []*Abs{v, {Nil: Yes}}}}, {st: st.clone(), res: &Abs{Tup: []*Abs{{Nil: Yes}, {Nil: No}}}}}
	}
	switch {
	case strings.HasPrefix(m, "Prepare"):
		id := "tstmt@" + at
		l.text[id] = sqlArg(c)
		return true, both(&Abs{Path: id, Nil: No})
	case strings.HasPrefix(m, "Query"), strings.HasPrefix(m, "Exec"):
		q := sqlArg(c)
		if strings.HasPrefix(c.Args[0].Path, "tstmt@") {
			q = l.text[c.Args[0].Path]
		}
		tag := l.judge(e, fr, st, c, q, c.Args[len(c.Args)-1])
		row := &Abs{Nil: No, Tags: tag, Path: "rows@" + at}
		if strings.HasPrefix(m, "QueryRow") {
			return true, []Outcome{{st: st, res: row}}
		}
		return true, both(row)
	case m == "Scan":
		bad := st.clone()
		bad.prop["failed"] = "1" // kept apart
		if len(c.Args) > 1 && c.Args[1].Path != "" {
			for i := 0; ; i++ {
				v, ok := st.heap[fmt.Sprintf("%s[%d]", c.Args[1].Path, i)]
				if !ok {
					break
				}
				if v.Path != "" {
					st.killUnder(v.Path)
					if tagHas(c.Args[0].Tags, "scopesel") {
						st.heap[v.Path] = &Abs{Str: &Tmpl{alts: []Seq{{{K: pHole, S: "scopeid"}}}}}
					}
				}
			}
		}
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}, set: true}, {st: bad, res: &Abs{Nil: No}}}
	case m == "Next":
		return true, []Outcome{{st: st, res: absUnk}}
	case m == "Err" || m == "Close":
		return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}}
	}
	return false, nil
}

// Compare keeps the arms of a switch apart.
func (l *targetPlugin) Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	prm, isP := x.(*ssa.Parameter)
	if c, ok := y.(*ssa.Const); ok && isP && c.Value != nil && c.Value.Kind() == constant.String {
		k := "arm:" + prm.Parent().Name() + ":" + prm.Name()
		v := constant.StringVal(c.Value)
		if old, ok := st.prop[k]; ok {
			return (old == v) == eq
		}
		if eq {
			st.prop[k] = v
		}
	}
	return true
}

// addressed: the value is the one the caller gave, is built from it, or was read from rows it selects.
func addressed(s Seq) bool {
	for _, x := range s {
		if x.K == pHole && (x.S == scopeTag || x.S == "scopeid" || x.S == scopeTag+"q") {
			return true
		}
	}
	return false
}

// oneHole names the marked value this is, or "".
func oneHole(a *Abs) string {
	if a == nil || a.Str == nil || a.Str.top || len(a.Str.alts) != 1 || len(a.Str.alts[0]) != 1 || a.Str.alts[0][0].K != pHole {
		return ""
	}
	switch h := a.Str.alts[0][0].S; h {
	case scopeTag, "key", scopeTag + "q", "keyq":
		return h
	}
	return ""
}

// wanted: the value bound to the addressing column identifies the target, alone or as the only
// decoding of a composite key.
func (l *targetPlugin) wanted(s Seq) bool {
	if l.t.list {
		return true
	}
	if !addressed(s) {
		return false
	}
	if l.t.key == "" {
		return true
	}
	n, open := 0, 0
	for _, x := range s {
		if x.K != pHole {
			continue
		}
		switch x.S {
		case "scopeid":
			return true
		case "key", "keyq":
			n++
		}
		if !strings.HasSuffix(x.S, "q") {
			open++
		}
	}
	return n > 0 && open <= 1
}

// conditionOf parses a SELECT, UPDATE or DELETE into its tables and conditions.
func conditionOf(t []sqlTok) (*selStmt, string) {
	if len(t) < 3 {
		return nil, ""
	}
	mk := func(tab, verb string, from int) (*selStmt, string) {
		s := &selStmt{toks: t, tables: []tableRef{{name: tab, alias: tab}}}
		for i := from; i < len(t); i++ {
			if t[i].is("where") {
				e := len(t)
				for j, d := i+1, 0; j < len(t); j++ {
					if t[j].is("(") {
						d++
					} else if t[j].is(")") {
						d--
					} else if d == 0 && (t[j].is("returning") || t[j].is(";") || t[j].is("limit")) {
						e = j
						break
					}
				}
				s.addConds(t[i+1:e], i+1)
				break
			}
		}
		return s, verb
	}
	switch {
	case t[0].is("select"), t[0].is("with"):
		s := parseSelect(t)
		if s == nil {
			return nil, ""
		}
		return s, "reads"
	case t[0].is("insert"), t[0].is("replace"):
		if in := parseInsert(t); in != nil && len(in.cols) > 0 {
			// the values given take the place of conditions
			s := &selStmt{toks: t, tables: []tableRef{{name: in.table, alias: in.table}}}
			for i, c := range in.cols {
				if i < len(in.vals) && len(in.vals[i]) == 1 && in.vals[i][0].is("?") {
					s.conj = append(s.conj, conjunct{[]sqlTok{{s: c, raw: c}, {s: "=", raw: "="}, {s: "?", raw: "?"}}, in.valAt[i] - 2})
				}
			}
			return s, "stores"
		}
	case t[0].is("delete"):
		return mk(t[2].s, "deletes", 3)
	case t[0].is("update"):
		i := 1
		if t[1].is("or") {
			i = 3
		}
		return mk(t[i].s, "changes", i+1)
	}
	return nil, ""
}

// judge reports a statement over one of the target's tables that is not restricted to the target.
func (l *targetPlugin) judge(e *Eng, fr *Frame, st *State, c *CallSite, q, args *Abs) string {
	pos := l.p.pos(c.Pos())
	if q == nil || q.Str == nil || q.Str.top {
		return ""
	}
	var al []Seq
	if t := e.listOf(st, args); t != nil && !t.top {
		al = t.alts
	}
	if l.t.row && !(strings.Contains(c.Name, "QueryRow") && l.bindsIt(al)) {
		return ""
	}
	tag := ""
	for _, alt := range q.Str.alts {
		toks := sqlTokens(alt)
		s, verb := conditionOf(toks)
		if s == nil {
			continue
		}
		fit := fitting(toks, al)
		if len(fit) == 0 && len(al) > 0 {
			continue // this text does not go with these arguments
		}
		cols := l.t.cols
		if l.t.row {
			if len(s.tables) == 0 || aggregates(s) || verb != "reads" {
				continue
			}
			cols = map[string][]string{s.tables[0].name: {"*"}}
		}
		for _, tab := range sortedKeys(cols) {
			save := strings.HasSuffix(l.t.root, "SaveMemory")
			if !s.reads(tab) || verb == "stores" && !save {
				continue
			}
			if verb == "reads" && save {
				continue // reading back what was stored
			}
			l.stmts[c.Instr] = true
			why := l.restricted(s, fit, tab)
			if l.dump {
				fmt.Fprintf(os.Stderr, "%s %s [%s] %s: %q\n   %s\n   args=%v\n", fnName(fr.root), pos, verb, tab, why, tokString(toks), al)
			}
			if why == "" {
				l.hits[l.t.root] = true
				tag = "scopesel"
				continue
			}
			k := "target|" + fnName(fr.root) + "|" + pos
			if l.findings[k] == nil {
				what := "the rows it was asked for"
				if l.t.not {
					what = "rows it was asked to leave out as well"
				}
				l.findings[k] = &Finding{Rule: "untargeted", Construct: fnName(fr.root) + " <- " + pos, Pos: pos, Msg: fmt.Sprintf("the statement at %s, run for %s, %s other rows of %s than %s: %s", pos, fnName(fr.root), verb, tab, what, why), Chain: fr.chain()}
			}
		}
	}
	return tag
}

// bindsIt: the marked value alone is one of the arguments.
func (l *targetPlugin) bindsIt(al []Seq) bool {
	for _, a := range al {
		es, _ := listElems(a)
		for _, x := range es {
			if len(x.s) == 1 && x.s[0].K == pHole && x.s[0].S == scopeTag {
				return true
			}
		}
	}
	return false
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// aggregates: the statement answers with figures over its rows, or with the first of a ranking.
func aggregates(s *selStmt) bool {
	if s.group || s.limit || len(s.order) > 0 {
		return true
	}
	for _, c := range s.cols {
		for i, t := range c {
			switch strings.ToLower(t.s) {
			case "count", "sum", "avg", "min", "max", "total", "exists", "group_concat":
				if i+1 < len(c) && c[i+1].is("(") {
					return true
				}
			}
		}
	}
	return false
}

// lookups finds the internal functions that read one row by a key passed as their only string.
func (l *targetPlugin) lookups(fns []*ssa.Function) []lookup {
	var r []lookup
	for _, fn := range fns {
		if fn.Parent() != nil || l.p.isAPI(fn) || fn.Synthetic != "" {
			continue
		}
		one := -1
		for i, prm := range fn.Params {
			if isStringType(prm.Type()) {
				if one >= 0 {
					one = -2
					break
				}
				one = i
			}
		}
		if one < 0 {
			continue
		}
		reads := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && strings.Contains(callName(c.Common()), "QueryRow") {
					reads = true
				}
			}
		}
		if reads {
			r = append(r, lookup{fn, one})
		}
	}
	return r
}

type lookup struct {
	fn  *ssa.Function
	arg int
}

// fitting keeps the argument lists whose length can be that of the statement's placeholders.
func fitting(toks []sqlTok, al []Seq) []Seq {
	n, exact := placeholders(toks)
	if !exact {
		return al
	}
	var r []Seq
	for _, a := range al {
		es, ok := listElems(a)
		star := false
		for _, x := range es {
			star = star || x.star
		}
		if !ok || star || len(es) == n {
			r = append(r, a)
		}
	}
	return r
}

func (l *targetPlugin) colMatch(s *selStmt, tab string) func([]sqlTok) bool {
	return func(col []sqlTok) bool {
		if l.t.row {
			if len(col) != 1 && (len(col) != 3 || !col[1].is(".")) || !isIdent(col[len(col)-1].s) {
				return false
			}
			t := l.schema.tables[tab]
			if t == nil || t.pk == "" && len(t.uniq) == 0 {
				return true
			}
			for _, k := range append([]string{t.pk, "rowid"}, t.uniq...) {
				if k != "" && colIs(s, col, tab, k) {
					return true
				}
			}
			return false
		}
		for _, c := range l.t.cols[tab] {
			switch {
			case strings.HasPrefix(c, "$"): // a metadata key
				x, key := tokString(col), false
				for _, t := range col {
					key = key || t.raw == "'$."+c[1:]+"'" || t.raw == "'"+c[1:]+"'"
				}
				if key && strings.Contains(x, "metadata") && (strings.HasPrefix(x, "json_extract (") || strings.Contains(x, "- >")) {
					return true
				}
			case strings.Contains(c, "."):
				f := strings.SplitN(c, ".", 2)
				if colIs(s, col, f[0], f[1]) {
					return true
				}
			default:
				if colIs(s, col, tab, c) {
					return true
				}
			}
		}
		return false
	}
}

// restricted returns "" if every row the statement takes is one of the target's.
func (l *targetPlugin) restricted(s *selStmt, al []Seq, tab string) string {
	if s.opaque && s.holeTop {
		return "the conditions contain text that is not known"
	}
	if l.t.acl {
		for _, cj := range s.conj {
			if aclCond(cj.toks) {
				return ""
			}
		}
		return "no condition limits them to public rows and rows whose access list names one of the identities"
	}
	other := ""
	for _, cj := range s.conj {
		switch l.cond(s, cj.toks, cj.at, al, tab) {
		case 1:
			return ""
		case 2:
			other = "the condition on it is bound to something else"
		}
	}
	if other != "" {
		return other
	}
	return "no condition ties them to the value given by the caller"
}

// cond: 1 the condition holds only for the target's rows, 2 it is bound to another value, 0 neither.
func (l *targetPlugin) cond(s *selStmt, t []sqlTok, at int, al []Seq, tab string) int {
	for len(t) >= 2 && t[0].is("(") && matchParen(t, 0) == len(t)-1 {
		t, at = t[1:len(t)-1], at+1
	}
	// a disjunction each part of which does
	if hasTopOr(t) {
		d, start, n := 0, 0, 0
		var res []int
		add := func(i int) {
			p := t[start:i]
			if l.t.not && len(p) == 3 && p[1].is("=") && (p[0].is("?") && p[2].raw == "''" || p[2].is("?") && p[0].raw == "''") {
				// "? = ''": nothing was to be left out
				k := 0
				if p[2].is("?") {
					k = 2
				}
				if boundTo(s.toks, at+start+k, al, l.wanted) {
					res = append(res, 1)
					return
				}
			}
			res = append(res, l.conjs(s, p, at+start, al, tab))
			n++
		}
		for i, x := range t {
			switch {
			case x.is("("):
				d++
			case x.is(")"):
				d--
			case d == 0 && x.is("or"):
				add(i)
				start = i + 1
			}
		}
		add(len(t))
		r := 1
		for _, x := range res {
			if x != 1 {
				r = x
			}
		}
		return r
	}
	m := l.colMatch(s, tab)
	if l.t.not {
		n := len(t)
		if n >= 3 && (t[n-2].is("!=") || t[n-2].is("<>")) && t[n-1].is("?") && m(t[:n-2]) {
			return bind(boundTo(s.toks, at+n-1, al, l.wanted))
		}
		if n >= 4 && t[n-3].is("is") && t[n-2].is("not") && t[n-1].is("?") && m(t[:n-3]) {
			return bind(boundTo(s.toks, at+n-1, al, l.wanted))
		}
		return 0
	}
	if i := eqParam(t, m); i >= 0 {
		return bind(boundTo(s.toks, at+i, al, l.wanted))
	}
	for k := range t {
		if k > 0 && (t[k].is("in") || t[k].is("=")) && m(t[:k]) && k+1 < len(t) && t[k+1].is("(") && matchParen(t, k+1) == len(t)-1 {
			if sub := parseSelect(t[k+2 : len(t)-1]); sub != nil {
				// a subquery restricted to the target
				for _, sc := range sub.conj {
					for n := range sc.toks {
						if sc.toks[n].is("?") && n > 0 && sc.toks[n-1].is("=") && boundTo(s.toks, at+k+2+sc.at+n, al, l.wanted) && !sub.orTop && !sub.opaque {
							return 1
						}
					}
				}
				return 0
			}
			for n := k + 2; n < len(t)-1; n++ {
				if t[n].is("?") && !l.t.list && !boundTo(s.toks, at+n, al, l.wanted) {
					return 2
				}
			}
			return 1
		}
	}
	return 0
}

// aclCond: each alternative takes public rows, or rows whose list holds one of the values given.
func aclCond(t []sqlTok) bool {
	for len(t) >= 2 && t[0].is("(") && matchParen(t, 0) == len(t)-1 {
		t = t[1 : len(t)-1]
	}
	var parts [][]sqlTok
	d, start := 0, 0
	var flat []sqlTok
	for _, x := range t {
		if x.star != nil { // an alternative that may be absent
			for _, a := range x.star {
				flat = append(flat, a...)
			}
			continue
		}
		flat = append(flat, x)
	}
	t = flat
	for i, x := range t {
		switch {
		case x.is("("):
			d++
		case x.is(")"):
			d--
		case d == 0 && x.is("or"):
			parts = append(parts, t[start:i])
			start = i + 1
		}
	}
	parts = append(parts, t[start:])
	for _, p := range parts {
		for len(p) >= 2 && p[0].is("(") && matchParen(p, 0) == len(p)-1 {
			p = p[1 : len(p)-1]
		}
		n := len(p)
		hasACL := false
		for _, x := range p {
			hasACL = hasACL || x.is("acl")
		}
		switch {
		case !hasACL:
			return false
		case n >= 3 && p[n-2].is("is") && p[n-1].is("null") && !hasTopOr(p):
		case n >= 3 && p[n-2].is("=") && p[n-1].is("'") && (p[n-1].raw == "''" || p[n-1].raw == "'[]'" || p[n-1].raw == "'null'"):
		case p[0].is("exists") && n > 3 && p[1].is("(") && matchParen(p, 1) == n-1:
			sub := parseSelect(p[2 : n-1])
			if sub == nil || sub.orTop {
				return false
			}
			ok := false
			for _, cj := range sub.conj {
				c := cj.toks
				k := 0
				for k < len(c) && !c[k].is("in") && !c[k].is("=") {
					k++
				}
				if k > 0 && k < len(c) && c[k-1].is("value") && !hasNot(c[:k]) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func hasNot(t []sqlTok) bool {
	for _, x := range t {
		if x.is("not") {
			return true
		}
	}
	return false
}

func (l *targetPlugin) conjs(s *selStmt, t []sqlTok, at int, al []Seq, tab string) int {
	sub := &selStmt{toks: s.toks, tables: s.tables}
	sub.addConds(t, at)
	r := 0
	for _, cj := range sub.conj {
		if len(cj.toks) == len(t) && hasTopOr(t) {
			return 0
		}
		switch l.cond(s, cj.toks, cj.at, al, tab) {
		case 1:
			return 1
		case 2:
			r = 2
		}
	}
	return r
}

func bind(ok bool) int {
	if ok {
		return 1
	}
	return 2
}

func init() {
	register("S03", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"operations": 25, "statements": 25}}
		l := &targetPlugin{p: p, schema: p.schema(), findings: map[string]*Finding{}, stmts: map[ssa.Instruction]bool{}, hits: map[string]bool{}, dump: os.Getenv("TARGET_DUMP") != ""}
		byName := map[string]*ssa.Function{}
		for _, fn := range p.exportedRoots("core", "graph", "cortexdb") {
			byName[fnName(fn)] = fn
		}
		visited := map[*ssa.Function]bool{}
		for _, x := range l.lookups(p.allFuncs) {
			l.t, l.text = &target{root: fnName(x.fn), row: true}, map[string]*Abs{}
			e := NewEng(p, l)
			e.keepStr, e.anonHoles, e.forkBool = true, true, true
			e.argOver = map[int]*Abs{x.arg: scopeAbs("")}
			r.Counts["lookups"]++
			e.RunRoot(x.fn, nil, map[string]*Abs{})
			for f := range e.visited {
				visited[f] = true
			}
			for _, k := range sortedKeys(e.overflow) {
				r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
			}
		}
		for i := range targets {
			t := &targets[i]
			fn := byName[t.root]
			if fn == nil || len(fn.Params) <= t.param+1 {
				continue
			}
			if only := os.Getenv("TARGET_ONLY"); only != "" && t.root != only {
				continue
			}
			l.t, l.text = t, map[string]*Abs{}
			e := NewEng(p, l)
			e.keepStr, e.anonHoles, e.forkBool = true, true, true
			heap := map[string]*Abs{}
			prm := fn.Params[t.param+1]
			if t.acl || t.list {
			} else if t.field == "" {
				if !isStringType(prm.Type()) {
					continue
				}
				e.argOver = map[int]*Abs{t.param + 1: scopeAbs("")}
			} else {
				if !hasField(prm.Type(), t.field) {
					continue
				}
				heap[fmt.Sprintf("p%d_%s.%s", t.param+1, pathSafe(prm.Type()), t.field)] = scopeAbs("")
				for f, v := range t.with {
					heap[fmt.Sprintf("p%d_%s.%s", t.param+1, pathSafe(prm.Type()), f)] = &Abs{Emp: No, Str: litTmpl(v)}
				}
				if t.key != "" {
					heap[fmt.Sprintf("p%d_%s.%s", t.param+1, pathSafe(prm.Type()), t.key)] = &Abs{Emp: No, Str: &Tmpl{alts: []Seq{{{K: pHole, S: "key"}}}}}
				}
			}
			r.Counts["operations"]++
			e.RunRoot(fn, nil, heap)
			for f := range e.visited {
				visited[f] = true
			}
			for _, k := range sortedKeys(e.overflow) {
				r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
			}
		}
		r.Counts["statements"], r.Counts["functions"], r.Counts["restricted_operations"] = len(l.stmts), len(visited), len(l.hits)
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		return r
	})
}

func hasField(t types.Type, f string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return true
		}
	}
	return false
}
