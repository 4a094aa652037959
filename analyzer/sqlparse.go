package main

import (
	"regexp"
	"strings"
)

// A small reader of SQL statement templates: enough structure to tell which tables a SELECT reads
// and which conditions every returned row satisfies.

type sqlTok struct {
	s    string // word (lower case), punctuation, "?"; "'" for a string literal
	hole string // unknown text
	star [][]sqlTok
	raw  string
}

func (t sqlTok) is(s string) bool { return t.hole == "" && t.star == nil && t.s == s }

var sqlWord = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_$]*`)
var sqlNum = regexp.MustCompile(`^[0-9]+(\.[0-9]+)?`)

// sqlTokens tokenises a statement template.
func sqlTokens(s Seq) []sqlTok {
	var out []sqlTok
	inStr := false // a string literal may span parts
	for _, p := range s {
		switch p.K {
		case pHole:
			if inStr {
				continue
			}
			n := p.S
			if n == "" {
				n = "?"
			}
			out = append(out, sqlTok{hole: n})
		case pStar:
			if inStr {
				continue
			}
			st := sqlTok{star: [][]sqlTok{}}
			for _, a := range p.Sub {
				st.star = append(st.star, sqlTokens(a))
			}
			out = append(out, st)
		case pLit:
			t := p.S
			for t != "" {
				if inStr {
					i := strings.IndexByte(t, '\'')
					if i < 0 {
						t = ""
						continue
					}
					t = t[i+1:]
					if strings.HasPrefix(t, "'") {
						t = t[1:]
						continue
					}
					inStr = false
					continue
				}
				switch c := t[0]; {
				case c == ' ' || c == '\t' || c == '\n' || c == '\r':
					t = t[1:]
				case strings.HasPrefix(t, "--"):
					i := strings.IndexByte(t, '\n')
					if i < 0 {
						t = ""
					} else {
						t = t[i:]
					}
				case c == '\'':
					j := strings.IndexByte(t[1:], '\'')
					raw := t
					if j >= 0 {
						raw = t[:j+2]
					}
					out = append(out, sqlTok{s: "'", raw: raw})
					inStr = true
					t = t[1:]
				default:
					if w := sqlWord.FindString(t); w != "" {
						out = append(out, sqlTok{s: strings.ToLower(w), raw: w})
						t = t[len(w):]
					} else if w := sqlNum.FindString(t); w != "" {
						out = append(out, sqlTok{s: w, raw: w})
						t = t[len(w):]
					} else {
						n := 1
						for _, op := range []string{"<=", ">=", "<>", "!=", "==", "||"} {
							if strings.HasPrefix(t, op) {
								n = 2
							}
						}
						o := t[:n]
						if o == "==" {
							o = "="
						}
						out = append(out, sqlTok{s: o, raw: o})
						t = t[n:]
					}
				}
			}
		}
	}
	return out
}

func tokString(l []sqlTok) string {
	var sb strings.Builder
	for _, t := range l {
		switch {
		case t.hole != "":
			sb.WriteString("«" + t.hole + "» ")
		case t.star != nil:
			sb.WriteString("{")
			for i, a := range t.star {
				if i > 0 {
					sb.WriteString("|")
				}
				sb.WriteString(tokString(a))
			}
			sb.WriteString("}* ")
		default:
			sb.WriteString(t.s + " ")
		}
	}
	return sb.String()
}

type tableRef struct {
	name, alias string
	outer       bool // right side of a LEFT JOIN
}

type selStmt struct {
	cols    [][]sqlTok
	colsAt  []int
	tables  []tableRef
	conj    []conjunct // conditions every row satisfies
	orTop   bool       // the WHERE clause is a disjunction
	holeTop bool       // unknown text, which may be a disjunction, among the conditions
	opaque  bool       // unknown text where structure matters
	limit   bool
	order   [][]sqlTok
	group   bool
	toks    []sqlTok
}

type conjunct struct {
	toks []sqlTok
	at   int // index of the first token in the statement
}

func matchParen(l []sqlTok, i int) int {
	d := 0
	for j := i; j < len(l); j++ {
		if l[j].is("(") {
			d++
		} else if l[j].is(")") {
			d--
			if d == 0 {
				return j
			}
		}
	}
	return len(l)
}

var selKeywords = map[string]bool{"where": true, "group": true, "order": true, "limit": true, "having": true, "on": true, "join": true, "left": true, "inner": true, "cross": true, "using": true, "natural": true, "union": true, "offset": true, "outer": true, "intersect": true, "except": true, "returning": true}

// parseSelect reads a SELECT; nil if the text is not one (or cannot be read as one).
func parseSelect(l []sqlTok) *selStmt {
	if len(l) == 0 || !l[0].is("select") {
		return nil
	}
	s := &selStmt{toks: l}
	i := 1
	if i < len(l) && (l[i].is("distinct") || l[i].is("all")) {
		i++
	}
	// columns
	start := i
	d := 0
	for ; i <= len(l); i++ {
		end := i == len(l)
		if !end {
			if l[i].is("(") {
				d++
			} else if l[i].is(")") {
				d--
			}
		}
		if end || d == 0 && (l[i].is(",") || l[i].is("from")) {
			s.cols = append(s.cols, l[start:i])
			s.colsAt = append(s.colsAt, start)
			start = i + 1
			if end || l[i].is("from") {
				break
			}
		}
	}
	if i >= len(l) {
		return s
	}
	i++
	outer := false
	for i < len(l) {
		t := l[i]
		switch {
		case t.is(","):
			i++
			outer = false
		case t.is("left"):
			outer = true
			i++
		case t.is("inner"), t.is("cross"):
			outer = false
			i++
		case t.is("outer"):
			i++
		case t.is("join"):
			i++
		case t.is("on"):
			j := clauseEnd(l, i+1)
			if !outer {
				s.addConds(l[i+1:j], i+1)
			}
			i = j
			outer = false
		case t.is("where"):
			j := clauseEnd(l, i+1)
			s.addConds(l[i+1:j], i+1)
			i = j
		case t.is("group"):
			s.group = true
			i = clauseEnd(l, i+1)
		case t.is("order"):
			j := clauseEnd(l, i+1)
			s.order = append(s.order, l[i+1:j])
			i = j
		case t.is("limit"):
			s.limit = true
			i = clauseEnd(l, i+1)
		case t.is("having"), t.is("offset"):
			i = clauseEnd(l, i+1)
		case t.is("union"), t.is("intersect"), t.is("except"):
			s.opaque = true
			return s
		case t.is("("):
			j := matchParen(l, i)
			s.tables = append(s.tables, tableRef{name: "(subquery)"})
			if sub := parseSelect(l[i+1 : min(j, len(l))]); sub != nil {
				for _, x := range sub.tables {
					s.tables = append(s.tables, tableRef{name: x.name})
				}
			}
			i = j + 1
		case t.hole != "" || t.star != nil:
			s.opaque = true
			i++
		case sqlWord.MatchString(t.s) && !selKeywords[t.s]:
			ref := tableRef{name: t.s, alias: t.s, outer: outer}
			i++
			if i < len(l) && l[i].is("(") { // table-valued function
				i = matchParen(l, i) + 1
			}
			if i < len(l) && l[i].is("as") {
				i++
			}
			if i < len(l) && l[i].hole == "" && l[i].star == nil && sqlWord.MatchString(l[i].s) && !selKeywords[l[i].s] {
				ref.alias = l[i].s
				i++
			}
			s.tables = append(s.tables, ref)
		default:
			i++
		}
	}
	return s
}

// clauseEnd is the index at which the clause starting at i ends.
func clauseEnd(l []sqlTok, i int) int {
	d := 0
	for ; i < len(l); i++ {
		if l[i].is("(") {
			d++
		} else if l[i].is(")") {
			d--
			if d < 0 {
				return i
			}
		}
		if d == 0 {
			for _, k := range []string{"where", "group", "order", "limit", "having", "join", "left", "inner", "cross", "union", "intersect", "except", "offset"} {
				if l[i].is(k) {
					return i
				}
			}
		}
	}
	return i
}

func hasTopOr(l []sqlTok) bool {
	d := 0
	for _, t := range l {
		switch {
		case t.is("("):
			d++
		case t.is(")"):
			d--
		case d == 0 && t.is("or"):
			return true
		case t.star != nil && d == 0:
			for _, a := range t.star {
				if hasTopOr(a) {
					return true
				}
			}
		}
	}
	return false
}

func hasTopHole(l []sqlTok) bool {
	d := 0
	for _, t := range l {
		switch {
		case t.is("("):
			d++
		case t.is(")"):
			d--
		case d == 0 && t.hole != "" && t.hole != "#int":
			return true
		case t.star != nil && d == 0:
			for _, a := range t.star {
				if hasTopHole(a) {
					return true
				}
			}
		}
	}
	return false
}

// addConds splits a condition into the conjuncts that hold for every row.
func (s *selStmt) addConds(l []sqlTok, at int) {
	for len(l) >= 2 && l[0].is("(") && matchParen(l, 0) == len(l)-1 {
		l = l[1 : len(l)-1]
		at++
	}
	if hasTopOr(l) {
		s.orTop = true
		s.conj = append(s.conj, conjunct{l, at})
		return
	}
	if hasTopHole(l) {
		s.opaque = true
		s.holeTop = true
	}
	d, start := 0, 0
	flush := func(i int) {
		p := l[start:i]
		if len(p) == 0 {
			return
		}
		if len(p) >= 2 && p[0].is("(") && matchParen(p, 0) == len(p)-1 {
			in := p[1 : len(p)-1]
			for len(in) >= 2 && in[0].is("(") && matchParen(in, 0) == len(in)-1 {
				in = in[1 : len(in)-1]
			}
			if hasTopOr(in) || hasTopHole(in) {
				s.conj = append(s.conj, conjunct{p, at + start})
				return
			}
			s.addConds(p, at+start)
		} else {
			s.conj = append(s.conj, conjunct{p, at + start})
		}
	}
	for i, t := range l {
		switch {
		case t.is("("):
			d++
		case t.is(")"):
			d--
		case d == 0 && t.is("and"):
			flush(i)
			start = i + 1
		case d == 0 && t.star != nil:
			// repeated "AND x": further conjuncts that may be absent
			flush(i)
			start = i + 1
		}
	}
	flush(len(l))
}

func (s *selStmt) reads(table string) bool {
	for _, t := range s.tables {
		if t.name == table {
			return true
		}
	}
	return false
}

func (s *selStmt) tableOf(alias string) string {
	for _, t := range s.tables {
		if t.alias == alias || t.name == alias {
			return t.name
		}
	}
	return ""
}

// placeholders counts the "?" in l; exact is false if unknown text or repetition occurs.
func placeholders(l []sqlTok) (n int, exact bool) {
	exact = true
	for _, t := range l {
		switch {
		case t.hole != "":
			if t.hole != "#int" {
				exact = false
			}
		case t.star != nil:
			for _, a := range t.star {
				if k, ex := placeholders(a); k > 0 || !ex {
					exact = false
				}
			}
		case t.s == "?":
			n++
		}
	}
	return
}

// argAt returns the possible holes bound to the placeholder at token index i of the statement.
func argAt(stmt []sqlTok, i int, args Seq) ([]Seq, bool) {
	es, ok := listElems(args)
	if !ok {
		return nil, false
	}
	before, exB := placeholders(stmt[:i])
	after, exA := placeholders(stmt[i+1:])
	starBefore := func(n int) bool {
		for k := 0; k <= n && k < len(es); k++ {
			if es[k].star {
				return true
			}
		}
		return false
	}
	starAfter := func(n int) bool {
		for k := len(es) - 1; k >= len(es)-1-n && k >= 0; k-- {
			if es[k].star {
				return true
			}
		}
		return false
	}
	if exB && !starBefore(before) {
		if before < len(es) {
			return []Seq{es[before].s}, true
		}
		return nil, true
	}
	if exA && !starAfter(after) {
		if k := len(es) - 1 - after; k >= 0 {
			return []Seq{es[k].s}, true
		}
		return nil, true
	}
	var all []Seq
	for _, x := range es {
		all = append(all, x.s)
	}
	return all, true
}
