package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func arrayLen(t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return a.Len()
		}
	}
	return -1
}

// The database schema, read from the DDL constants of the program.
type dbSchema struct {
	tables   map[string]*dbTable
	fts      map[string]*ftsTable
	triggers []*dbTrigger
	ddl      int
}
type dbTable struct {
	name string
	cols []string
	pos  string
	fks  []dbFK
	uniq []string
	pk   string
}
type dbFK struct{ col, ref, onDelete string }
type ftsTable struct {
	name, content, pos string
	rowid              string
	cols               []string
}
type dbTrigger struct {
	name, when, event, table, pos string
	cond                          bool     // WHEN or a column list that leaves changes out
	of                            []string // UPDATE OF
	body                          [][]sqlTok
}

func (t *dbTable) has(c string) bool {
	for _, x := range t.cols {
		if x == c {
			return true
		}
	}
	return false
}

func (p *Prog) schema() *dbSchema {
	s := &dbSchema{tables: map[string]*dbTable{}, fts: map[string]*ftsTable{}}
	seen := map[string]bool{}
	for _, fn := range p.allFuncsAndInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var texts []Seq
				if c, ok := in.(ssa.CallInstruction); ok && dbUse(callName(c.Common())) {
					for _, a := range c.Common().Args {
						if isStringType(a.Type()) {
							texts = p.texts(a)
						}
					}
				}
				for _, t := range texts {
					k := t.key()
					if u := strings.ToUpper(k); seen[k] || !strings.Contains(u, "CREATE") {
						continue
					}
					seen[k] = true
					s.read(sqlTokens(t), p.pos(in.Pos()))
				}
			}
		}
	}
	return s
}

// read splits a script into statements; BEGIN … END bodies stay together.
func (s *dbSchema) read(l []sqlTok, pos string) {
	var cur []sqlTok
	inBody := false
	for _, t := range l {
		if t.is("begin") {
			inBody = true
		}
		if t.is(";") && !inBody {
			s.stmt(cur, pos)
			cur = nil
			continue
		}
		if t.is("end") {
			inBody = false
		}
		cur = append(cur, t)
	}
	s.stmt(cur, pos)
}

func skipWords(l []sqlTok, i int, w ...string) int {
	for _, x := range w {
		if i < len(l) && l[i].is(x) {
			i++
		} else {
			return i
		}
	}
	return i
}

func (s *dbSchema) stmt(l []sqlTok, pos string) {
	if len(l) < 3 || !l[0].is("create") {
		return
	}
	s.ddl++
	i := 1
	if l[i].is("temp") || l[i].is("temporary") {
		i++
	}
	switch {
	case l[i].is("table"):
		i = skipWords(l, i+1, "if", "not", "exists")
		t := &dbTable{name: l[i].s, pos: pos}
		if i+1 >= len(l) || !l[i+1].is("(") {
			return
		}
		for _, d := range splitTop(l[i+2:matchParen(l, i+1)], ",") {
			if len(d) == 0 {
				continue
			}
			k := 0
			if d[0].is("constraint") {
				k = 2
			}
			if k < len(d) && d[k].is("foreign") {
				// FOREIGN KEY (c) REFERENCES t(x) ON DELETE a
				if k+4 < len(d) && d[k+2].is("(") {
					t.fks = append(t.fks, fkOf(d[k+3].s, d))
				}
				continue
			}
			if k < len(d) && (d[k].is("primary") || d[k].is("unique") || d[k].is("check")) {
				if d[k].is("primary") && k+3 < len(d) {
					t.pk = d[k+3].s
				}
				if d[k].is("unique") && k+2 < len(d) {
					t.uniq = append(t.uniq, d[k+2].s)
				}
				continue
			}
			t.cols = append(t.cols, d[0].s)
			for j := range d {
				if d[j].is("references") {
					t.fks = append(t.fks, fkOf(d[0].s, d))
				}
				if d[j].is("primary") {
					t.pk = d[0].s
				}
				if d[j].is("unique") {
					t.uniq = append(t.uniq, d[0].s)
				}
			}
		}
		s.tables[t.name] = t
	case l[i].is("virtual"):
		i = skipWords(l, i+2, "if", "not", "exists")
		f := &ftsTable{name: l[i].s, pos: pos, rowid: "rowid"}
		i++
		if i+2 >= len(l) || !l[i].is("using") || !strings.HasPrefix(l[i+1].s, "fts") {
			return
		}
		for _, d := range splitTop(l[i+3:matchParen(l, i+2)], ",") {
			switch {
			case len(d) >= 3 && d[0].is("content") && d[1].is("="):
				f.content = strings.ToLower(strings.Trim(d[2].raw, "'\""))
			case len(d) >= 3 && d[0].is("content_rowid") && d[1].is("="):
				f.rowid = strings.ToLower(strings.Trim(d[2].raw, "'\""))
			case len(d) >= 2 && d[1].is("="):
			case len(d) > 0:
				f.cols = append(f.cols, d[0].s)
			}
		}
		s.fts[f.name] = f
	case l[i].is("trigger"):
		i = skipWords(l, i+1, "if", "not", "exists")
		t := &dbTrigger{name: l[i].s, pos: pos}
		i++
		for i < len(l) && !l[i].is("begin") {
			switch {
			case l[i].is("after"), l[i].is("before"), l[i].is("instead"):
				t.when = l[i].s
			case l[i].is("insert"), l[i].is("delete"), l[i].is("update"):
				t.event = l[i].s
			case l[i].is("of"):
				for i++; i < len(l) && !l[i].is("on"); i++ {
					if !l[i].is(",") {
						t.of = append(t.of, l[i].s)
					}
				}
				continue
			case l[i].is("on") && i+1 < len(l):
				t.table = l[i+1].s
			case l[i].is("when"):
				t.cond = true
			}
			i++
		}
		var body []sqlTok
		for i++; i < len(l) && !l[i].is("end"); i++ {
			body = append(body, l[i])
		}
		for _, d := range splitTop(body, ";") {
			if len(d) > 0 {
				t.body = append(t.body, d)
			}
		}
		s.triggers = append(s.triggers, t)
	}
}

func fkOf(col string, d []sqlTok) dbFK {
	f := dbFK{col: col}
	for j := range d {
		if d[j].is("references") && j+1 < len(d) {
			f.ref = d[j+1].s
		}
		if d[j].is("delete") && j > 0 && d[j-1].is("on") && j+1 < len(d) {
			f.onDelete = d[j+1].s
			if f.onDelete == "set" && j+2 < len(d) {
				f.onDelete += " " + d[j+2].s
			}
		}
	}
	return f
}

func splitTop(l []sqlTok, sep string) [][]sqlTok {
	var r [][]sqlTok
	var cur []sqlTok
	depth := 0
	for _, t := range l {
		if t.is("(") {
			depth++
		}
		if t.is(")") {
			depth--
		}
		if depth == 0 && t.is(sep) {
			r = append(r, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	return append(r, cur)
}

// insStmt is an INSERT.
type insStmt struct {
	table    string
	or       string // replace, ignore
	cols     []string
	vals     [][]sqlTok
	valAt    []int // where the value starts in the statement
	conflict []string
	doWhat   string // nothing, update
	set      map[string][]sqlTok
	setAt    map[string]int
	sel      bool
}

func parseInsert(l []sqlTok) *insStmt {
	i := 0
	if len(l) == 0 {
		return nil
	}
	s := &insStmt{}
	switch {
	case l[0].is("insert"):
		i = 1
		if i+1 < len(l) && l[i].is("or") {
			s.or = l[i+1].s
			i += 2
		}
	case l[0].is("replace"):
		s.or = "replace"
		i = 1
	default:
		return nil
	}
	if i+1 >= len(l) || !l[i].is("into") {
		return nil
	}
	s.table = l[i+1].s
	i += 2
	if i < len(l) && l[i].is("(") {
		e := matchParen(l, i)
		if e < 0 {
			return s
		}
		for _, d := range splitTop(l[i+1:e], ",") {
			if len(d) > 0 {
				s.cols = append(s.cols, d[0].s)
			}
		}
		i = e + 1
	}
	if i < len(l) && l[i].is("select") {
		s.sel = true
		return s
	}
	if i+1 < len(l) && l[i].is("values") && l[i+1].is("(") {
		e := matchParen(l, i+1)
		if e < 0 {
			return s
		}
		at := i + 2
		for _, d := range splitTop(l[i+2:e], ",") {
			s.vals = append(s.vals, d)
			s.valAt = append(s.valAt, at)
			at += len(d) + 1
		}
		i = e + 1
	}
	if i+1 < len(l) && l[i].is("on") && l[i+1].is("conflict") {
		i += 2
		if i < len(l) && l[i].is("(") {
			e := matchParen(l, i)
			for _, d := range splitTop(l[i+1:e], ",") {
				if len(d) > 0 {
					s.conflict = append(s.conflict, d[0].s)
				}
			}
			i = e + 1
		}
		if i+1 < len(l) && l[i].is("do") {
			s.doWhat = l[i+1].s
			if s.doWhat == "update" && i+2 < len(l) && l[i+2].is("set") {
				s.set, s.setAt = parseSet(l, i+3)
			}
		}
	}
	return s
}

// parseSet reads "c = expr, …" up to WHERE.
func parseSet(l []sqlTok, i int) (map[string][]sqlTok, map[string]int) {
	e := i
	depth := 0
	for e < len(l) && !(depth == 0 && (l[e].is("where") || l[e].is("returning"))) {
		if l[e].is("(") {
			depth++
		}
		if l[e].is(")") {
			depth--
		}
		e++
	}
	set, at := map[string][]sqlTok{}, map[string]int{}
	pos := i
	for _, d := range splitTop(l[i:e], ",") {
		if len(d) >= 3 && d[1].is("=") {
			set[d[0].s] = d[2:]
			at[d[0].s] = pos + 2
		}
		pos += len(d) + 1
	}
	return set, at
}

// F01: dependent data follows the rows it belongs to.
func init() {
	register("F01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"tables": 6, "fulltext_tables": 1, "triggers": 3, "references": 3, "connections": 1}}
		s := p.schema()
		r.Counts["tables"], r.Counts["fulltext_tables"], r.Counts["triggers"] = len(s.tables), len(s.fts), len(s.triggers)
		bad := func(rule, construct, pos, msg string) {
			r.add(&Finding{Rule: rule, Construct: construct, Pos: pos, Msg: msg})
		}
		mirrored := map[string]string{}
		for _, n := range sortedKeys(s.fts) {
			f := s.fts[n]
			if f.content == "" {
				continue
			}
			mirrored[f.content] = n
			t := s.tables[f.content]
			if t == nil {
				bad("fulltext", n, f.pos, fmt.Sprintf("full-text table %s mirrors %s, which is not created", n, f.content))
				continue
			}
			for _, c := range f.cols {
				if !t.has(c) {
					bad("fulltext", n, f.pos, fmt.Sprintf("full-text column %s.%s is not a column of %s", n, c, f.content))
				}
			}
			for _, ev := range []string{"insert", "delete", "update"} {
				why := "there is no trigger"
				for _, tr := range s.triggers {
					if tr.table == f.content && tr.event == ev {
						if why = f.mirrors(tr); why == "" {
							break
						}
						why = "trigger " + tr.name + ": " + why
					}
				}
				if why != "" {
					bad("fulltext", n+" "+ev, f.pos, fmt.Sprintf("%s of %s rows does not reach full-text table %s: %s", ev, f.content, n, why))
				}
			}
		}
		// references
		for _, n := range sortedKeys(s.tables) {
			t := s.tables[n]
			fk := map[string]dbFK{}
			for _, f := range t.fks {
				fk[f.col] = f
			}
			for _, c := range t.cols {
				ref := s.refersTo(n, c)
				f, ok := fk[c]
				if ref == "" && !ok {
					continue
				}
				r.Counts["references"]++
				switch {
				case !ok:
					bad("reference", n+"."+c, t.pos, fmt.Sprintf("%s.%s refers to %s but is not declared as a foreign key: deleting the %s row leaves the row behind", n, c, ref, ref))
				case f.onDelete != "cascade":
					bad("reference", n+"."+c, t.pos, fmt.Sprintf("%s.%s refers to %s without ON DELETE CASCADE", n, c, f.ref))
				case s.tables[f.ref] == nil:
					bad("reference", n+"."+c, t.pos, fmt.Sprintf("%s.%s refers to %s, which is not created", n, c, f.ref))
				case ref != "" && f.ref != ref:
					bad("reference", n+"."+c, t.pos, fmt.Sprintf("%s.%s refers to %s", n, c, f.ref))
				}
			}
		}
		// connections and statements
		recursive := true
		type stmt struct {
			toks []sqlTok
			pos  string
			fn   string
		}
		var repl []stmt
		for _, fn := range p.allFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					com := c.Common()
					name := callName(com)
					if name == "database/sql.Open" {
						r.Counts["connections"]++
						for _, t := range p.texts(com.Args[1]) {
							u := strings.ToLower(t.key())
							v := pragmaValues(u, "foreign_keys")
							if len(v) == 0 || !allOn(v) {
								bad("connection", fnName(fn)+" sql.Open", p.pos(in.Pos()), "connections are opened without foreign_keys(ON): dependent rows are not removed")
							}
							if v := pragmaValues(u, "recursive_triggers"); len(v) == 0 || !allOn(v) {
								recursive = false
							}
						}
						continue
					}
					if !dbUse(name) {
						continue
					}
					for _, a := range com.Args {
						if !isStringType(a.Type()) {
							continue
						}
						for _, t := range p.texts(a) {
							toks := sqlTokens(t)
							r.Counts["statements"]++
							if len(toks) > 1 && toks[0].is("pragma") {
								if toks[1].is("foreign_keys") && len(toks) > 3 && (toks[3].is("off") || toks[3].is("0") || toks[3].is("false") || toks[3].is("no")) {
									bad("connection", fnName(fn)+" PRAGMA", p.pos(in.Pos()), "foreign keys are switched off")
								}
								if toks[1].is("ignore_check_constraints") || toks[1].is("writable_schema") {
									bad("connection", fnName(fn)+" PRAGMA", p.pos(in.Pos()), "constraints are switched off")
								}
							}
							if len(toks) > 2 && toks[0].is("drop") && (toks[1].is("trigger") || toks[1].is("table")) {
								bad("drop", fnName(fn)+" DROP", p.pos(in.Pos()), "a table or trigger the indexes depend on is dropped")
							}
							if ins := parseInsert(toks); ins != nil && ins.or == "replace" && mirrored[ins.table] != "" {
								repl = append(repl, stmt{toks, p.pos(in.Pos()), fnName(fn)})
							}
							if ins := parseInsert(toks); ins != nil && s.fts[ins.table] != nil {
								bad("direct", fnName(fn)+" "+ins.table, p.pos(in.Pos()), "the full-text table is written directly, besides its triggers")
							}
						}
						break
					}
				}
			}
		}
		if !recursive {
			for _, x := range repl {
				bad("replace", x.fn+" REPLACE", x.pos, "REPLACE removes the old row without running its delete trigger (recursive_triggers is off): its text stays in the full-text index")
			}
		}
		sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
		return r
	})
}

func allOn(v []string) bool {
	for _, x := range v {
		if x != "on" && x != "1" && x != "true" && x != "yes" {
			return false
		}
	}
	return true
}

func pragmaValues(dsn, name string) []string {
	var r []string
	for rest := dsn; ; {
		i := strings.Index(rest, "_pragma="+name)
		if i < 0 {
			return r
		}
		rest = rest[i+len("_pragma="+name):]
		v := strings.TrimLeft(rest, "(=%28")
		j := strings.IndexAny(v, ")&%")
		if j < 0 {
			j = len(v)
		}
		r = append(r, strings.TrimSpace(v[:j]))
	}
}

// refersTo guesses the table a column names by convention: xxx_id with a table of that name.
func (s *dbSchema) refersTo(table, col string) string {
	if !strings.HasSuffix(col, "_id") {
		return ""
	}
	w := strings.TrimSuffix(col, "_id")
	if i := strings.LastIndexByte(w, '_'); i >= 0 {
		w = w[i+1:]
	}
	if len(w) < 3 {
		return ""
	}
	for _, n := range sortedKeys(s.tables) {
		if n == table {
			continue
		}
		last := n
		if i := strings.LastIndexByte(n, '_'); i >= 0 {
			last = n[i+1:]
		}
		if strings.HasSuffix(last, "s") && strings.HasPrefix(last, w) {
			return n
		}
	}
	return ""
}

// mirrors returns "" if the trigger passes the change on to the full-text table.
func (f *ftsTable) mirrors(t *dbTrigger) string {
	if t.cond {
		return "it has a condition"
	}
	if t.when == "before" && t.event != "delete" {
		return "it runs before the row has its number"
	}
	if t.of != nil {
		for _, c := range f.cols {
			ok := false
			for _, o := range t.of {
				if o == c {
					ok = true
				}
			}
			if !ok {
				return "it ignores changes of " + c
			}
		}
	}
	del, add := -1, -1
	for i, st := range t.body {
		ins := parseInsert(st)
		if ins == nil || ins.table != f.name || len(ins.cols) != len(ins.vals) {
			continue
		}
		vals := map[string]string{}
		for j, c := range ins.cols {
			var w []string
			for _, x := range ins.vals[j] {
				if x.raw != "" && x.s == "'" {
					w = append(w, x.raw)
				} else {
					w = append(w, x.s)
				}
			}
			vals[c] = strings.Join(w, "")
		}
		row := "new."
		if vals[f.name] == "'delete'" {
			row = "old."
		} else if vals[f.name] != "" {
			continue
		}
		ok := vals["rowid"] == row+f.rowid
		for _, c := range f.cols {
			if vals[c] != row+c {
				ok = false
			}
		}
		if !ok {
			return "it passes on the wrong values"
		}
		if row == "old." {
			del = i
		} else {
			add = i
		}
	}
	switch t.event {
	case "insert":
		if add < 0 {
			return "it does not add the new text"
		}
		if del >= 0 {
			return "it removes text that is not there"
		}
	case "delete":
		if del < 0 {
			return "it does not remove the old text"
		}
		if add >= 0 {
			return "it adds text of a deleted row"
		}
	case "update":
		if del < 0 || add < 0 || del > add {
			return "it does not replace the old text by the new"
		}
	}
	return ""
}
