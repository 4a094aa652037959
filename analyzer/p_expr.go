package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// E01: every filter operator is applied as named, by the SQL condition a filter is turned into, by
// the evaluation in memory and by the methods that build filters.
//
// In memory: "st" marks values taken from the metadata under the filter's field, "gv", "gv0", "gv1",
// "gve" the value given (as a whole, its first, its second, any of its elements). The state keeps,
// per given value, the relations <, =, > of the stored to the given value the path still allows.

const (
	rLT = 1
	rEQ = 2
	rGT = 4
)

type exprPlugin struct {
	p    *Prog
	fn   *ssa.Function
	sql  bool
	dump bool

	conversions int
	add         func(rule, fn string, pos token.Pos, msg string)
}

func (l *exprPlugin) Touches(fn *ssa.Function) bool { return true }

func isFilterExpr(t types.Type) bool {
	n, ok := derefT(t).(*types.Named)
	return ok && n.Obj().Name() == "FilterExpression"
}

func takesParam(fn *ssa.Function, f func(types.Type) bool) bool {
	for _, p := range fn.Params {
		if f(p.Type()) {
			return true
		}
	}
	return false
}

func isAnyMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, ok = m.Elem().Underlying().(*types.Interface)
	return ok
}

func isAnyList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Interface)
	return ok
}

// evaluates: decides in memory whether metadata satisfy a filter.
func evaluates(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return fn.Parent() == nil && len(fn.Blocks) > 0 && takesParam(fn, isFilterExpr) && takesParam(fn, isAnyMap) && r.Len() == 1 && isBoolType(r.At(0).Type())
}

// renders: turns a filter into a condition with arguments.
func renders(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return fn.Parent() == nil && len(fn.Blocks) > 0 && takesParam(fn, isFilterExpr) && r.Len() >= 2 && isStringType(r.At(0).Type()) && isAnyList(r.At(1).Type())
}

func isFacetFilter(t types.Type) bool {
	n, ok := derefT(t).(*types.Named)
	return ok && n.Obj().Name() == "FacetFilter"
}

// onChain: the call is a recursion.
func onChain(fr *Frame, fn *ssa.Function) bool {
	for g := fr; g != nil; g = g.up {
		if g.fn == fn {
			return true
		}
	}
	return false
}

func hole(s string) *Tmpl { return &Tmpl{alts: []Seq{{{K: pHole, S: s}}}} }

func (l *exprPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if c.Callee != nil && l.sql && (renders(c.Callee) || len(c.Args) > 0 && takesParam(c.Callee, isFacetFilter) && c.Callee.Signature.Results().Len() == 2) && onChain(fr, c.Callee) {
		res := &Abs{Tup: []*Abs{{Str: hole("child"), Emp: No}, {Str: &Tmpl{alts: []Seq{{{K: pStar, Sub: []Seq{{{K: pHole, S: "childarg"}, {K: pEnd}}}}}}}, Emp: No}}}
		if c.Callee.Signature.Results().Len() == 3 {
			res.Tup = append(res.Tup, &Abs{Nil: Yes})
			bad := st.clone()
			return true, []Outcome{{st: st, res: res}, {st: bad, res: &Abs{Tup: []*Abs{{}, {}, {Nil: No}}}}}
		}
		return true, []Outcome{{st: st, res: res}}
	}
	if l.sql {
		return false, nil
	}
	if c.Callee != nil && evaluates(c.Callee) && onChain(fr, c.Callee) {
		var outs []Outcome
		for _, b := range []bool{true, false} {
			n := st.clone()
			n.prop["child"] = fmt.Sprint(b)
			outs = append(outs, Outcome{st: n, res: &Abs{B: triOf(b)}})
		}
		return true, outs
	}
	tags := ""
	for _, a := range c.Args {
		tags = tagUnion(tags, exprTags(a.Tags))
		tags = tagUnion(tags, exprTags(e.deepTags(st, a, 2)))
	}
	if c.Callee != nil && len(c.Args) == 1 && c.Callee.Signature.Results().Len() == 2 && e.P.inModule(c.Callee) {
		r := c.Callee.Signature.Results()
		if b, ok := r.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && isBoolType(r.At(1).Type()) {
			// a value that is a number, or is not
			var outs []Outcome
			for _, b := range []bool{true, false} {
				n := st.clone()
				for _, t := range strings.Split(tags, ";") {
					if t != "" {
						n.prop["num:"+t] = fmt.Sprint(b)
					}
				}
				v := &Abs{Tags: tags}
				if !b {
					v = &Abs{}
				}
				outs = append(outs, Outcome{st: n, res: &Abs{Tup: []*Abs{v, {B: triOf(b)}}}})
			}
			return true, outs
		}
	}
	switch c.Name {
	case "strconv.ParseFloat", "strconv.ParseInt", "strconv.Atoi":
		bad := st.clone()
		return true, []Outcome{{st: st, res: &Abs{Tup: []*Abs{{Tags: tags}, {Nil: Yes}}}}, {st: bad, res: &Abs{Tup: []*Abs{{Tags: "bad"}, {Nil: No}}}}}
	case "regexp.QuoteMeta":
		return true, []Outcome{{st: st, res: &Abs{Tags: tagUnion(tags, "quoted")}}}
	case "regexp.MatchString", "regexp.Compile", "regexp.MustCompile", "regexp.Match":
		if len(c.Args) > 0 && tagHas(c.Args[0].Tags, "gv") && !tagHas(c.Args[0].Tags, "quoted") {
			l.add("regex-unquoted", fnName(fr.fn), c.Pos(), "the value given is compiled as a regular expression without its special characters being quoted")
		}
	}
	if c.Callee == nil || !e.P.inModule(c.Callee) {
		if r := c.Common.Signature().Results(); r.Len() > 0 {
			if c.Name == "strings.Compare" || c.Name == "cmp.Compare" {
				return true, []Outcome{{st: st, res: &Abs{Tags: tagUnion(tags, "cmp")}}}
			}
			keep := tagFilter(tags, func(t string) bool { return true })
			for _, a := range c.Args {
				if tagHas(a.Tags, "quoted") {
					keep = tagUnion(keep, "quoted")
				}
			}
			if keep == "" {
				return false, nil
			}
			if r.Len() == 1 {
				return true, []Outcome{{st: st, res: &Abs{Tags: keep}}}
			}
			t := &Abs{}
			for i := 0; i < r.Len(); i++ {
				t.Tup = append(t.Tup, &Abs{Tags: keep})
			}
			return true, []Outcome{{st: st, res: t}}
		}
	}
	return false, nil
}

func (l *exprPlugin) Access(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, write bool) {
	if write && (strings.HasPrefix(loc, "old.") || strings.HasPrefix(loc, "other.")) {
		st.prop["changed"] = "1"
	}
	if write && strings.HasSuffix(loc, ".expression") {
		st.prop["set"] = fmt.Sprint(in.Pos()) // keeps the ways to build it apart
	}
}

func (l *exprPlugin) Return(e *Eng, fr *Frame, st *State, res []*Abs) {
	if fr.up != nil || !converts(l.fn) || len(res) != 2 || res[1].B != Yes {
		return
	}
	l.conversions++
	if !tagHas(res[0].Tags, "st") || tagHas(res[0].Tags, "bad") {
		l.add("converted-wrongly", fnName(l.fn), l.fn.Pos(), "a value is taken for a number that is not the one it stands for")
	}
}

func exprTags(t string) string {
	return tagFilter(t, func(s string) bool {
		return s == "st" || s == "gv" || s == "gv0" || s == "gv1" || s == "gve" || s == "quoted" || s == "bad"
	})
}

func givenOf(t string) string {
	for _, k := range []string{"gv0", "gv1", "gve", "gv"} {
		if tagHas(t, k) {
			return k
		}
	}
	return ""
}

func (l *exprPlugin) After(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	v, ok := in.(ssa.Value)
	if !ok || st.env[v] == nil {
		return
	}
	set := func(tags string, str *Tmpl) {
		a := st.env[v].clone()
		a.Tags, a.k = tags, ""
		if str != nil {
			a.Str = str
		}
		st.env[v] = a
	}
	switch x := in.(type) {
	case *ssa.Lookup:
		if !isAnyMap(x.X.Type()) || l.sql {
			return
		}
		k := e.eval(st, x.Index)
		t := ""
		if tagHas(k.Tags, "field") {
			t = "st"
		}
		if x.CommaOk {
			a := st.env[v].clone()
			a.Tup = []*Abs{{Tags: t}, {}}
			a.k = ""
			st.env[v] = a
		} else {
			set(t, nil)
		}
	case *ssa.BinOp:
		a, b := e.eval(st, x.X), e.eval(st, x.Y)
		if isStringType(x.Type()) && x.Op == token.ADD {
			set(tagUnion(exprTags(a.Tags), exprTags(b.Tags)), nil)
		} else {
			set("", nil)
		}
	case *ssa.Convert:
		set(exprTags(e.eval(st, x.X).Tags), nil)
	case *ssa.TypeAssert:
		a := e.eval(st, x.X)
		if tagHas(a.Tags, "gv") && isAnyList(x.AssertedType) {
			list := &Tmpl{alts: []Seq{{{K: pStar, Sub: []Seq{{{K: pHole, S: "vale"}, {K: pEnd}}}}}}}
			if x.CommaOk {
				t := st.env[v].clone()
				t.Tup = []*Abs{{Tags: "gl", Str: list, Path: a.Path}, {}}
				t.k = ""
				st.env[v] = t
			} else {
				set("gl", list)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if b := e.eval(st, ia.X); tagHas(b.Tags, "gl") {
				t, h := "gve", "vale"
				if c, ok := ia.Index.(*ssa.Const); ok {
					if n := c.Int64(); n < 2 {
						t, h = fmt.Sprintf("gv%d", n), fmt.Sprintf("val%d", n)
					}
				}
				st.env[v] = &Abs{Tags: t, Str: hole(h)}
			}
		}
	case *ssa.Index:
		if b := e.eval(st, x.X); tagHas(b.Tags, "gl") {
			st.env[v] = &Abs{Tags: "gve", Str: hole("vale")}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := e.eval(st, x.Call.Args[0]); tagHas(a.Tags, "gl") {
				set("len", nil)
			}
		}
	}
}

func (l *exprPlugin) restrict(e *Eng, fr *Frame, st *State, x, y ssa.Value, rel int) {
	a, b := e.eval(st, x), e.eval(st, y)
	if tagHas(a.Tags, "len") || tagHas(b.Tags, "len") {
		return
	}
	if tagHas(a.Tags, "cmp") && isZero(y) {
		if k := givenOf(a.Tags); k != "" && tagHas(a.Tags, "st") {
			// the order of the operands of a three-way comparison
			if c, ok := x.(*ssa.Call); ok && len(c.Call.Args) == 2 && tagHas(e.eval(st, c.Call.Args[0]).Tags, "st") {
				l.narrow(st, k, rel)
			} else {
				st.prop["opaque"] = "1"
			}
		}
		return
	}
	if tagHas(a.Tags, "bad") || tagHas(b.Tags, "bad") {
		st.prop["badnum"] = "1"
	}
	flip := func(r int) int { return r&rEQ | (r&rLT)<<2 | (r&rGT)>>2 }
	var k string
	switch {
	case tagHas(a.Tags, "st") && givenOf(b.Tags) != "":
		k = givenOf(b.Tags)
	case tagHas(b.Tags, "st") && givenOf(a.Tags) != "":
		k, rel = givenOf(a.Tags), flip(rel)
	default:
		return
	}
	if isStringType(x.Type()) {
		// numbers are not compared as text
		if st.prop["num:st"] == "true" && st.prop["num:"+k] == "true" {
			st.prop["astext"] = "1"
		}
	} else if st.prop["num:st"] == "false" || st.prop["num:"+k] == "false" {
		st.prop["badnum"] = "1"
	}
	l.narrow(st, k, rel)
}

func (l *exprPlugin) narrow(st *State, k string, rel int) {
	cur := 7
	if s := st.prop["R:"+k]; s != "" {
		fmt.Sscan(s, &cur)
	}
	st.prop["R:"+k] = fmt.Sprint(cur & rel)
}

func (l *exprPlugin) Rel(e *Eng, fr *Frame, st *State, op token.Token, x, y ssa.Value) {
	if l.sql {
		return
	}
	rel := 0
	switch op {
	case token.LSS:
		rel = rLT
	case token.LEQ:
		rel = rLT | rEQ
	case token.GTR:
		rel = rGT
	case token.GEQ:
		rel = rGT | rEQ
	}
	if a, b := e.eval(st, x), e.eval(st, y); tagHas(a.Tags, "len") || tagHas(b.Tags, "len") {
		if _, ok := x.(*ssa.Const); ok {
			st.prop["mal"] = "1"
		}
		if _, ok := y.(*ssa.Const); ok {
			st.prop["mal"] = "1"
		}
		return
	}
	l.restrict(e, fr, st, x, y, rel)
}

func (l *exprPlugin) Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	a, b := e.eval(st, x), e.eval(st, y)
	if s, ok := litOf(a); ok {
		if t, ok := litOf(b); ok {
			return (s == t) == eq
		}
	}
	if l.sql {
		return true
	}
	if tagHas(a.Tags, "len") || tagHas(b.Tags, "len") {
		if !eq {
			st.prop["mal"] = "1"
		}
		return true
	}
	rel := rLT | rGT
	if eq {
		rel = rEQ
	}
	l.restrict(e, fr, st, x, y, rel)
	return true
}

// litOf: the text of a value known to be one constant string.
func litOf(a *Abs) (string, bool) {
	if a.Str == nil || a.Str.top || len(a.Str.alts) != 1 {
		return "", false
	}
	s := ""
	for _, p := range a.Str.alts[0] {
		if p.K != pLit {
			return "", false
		}
		s += p.S
	}
	return s, true
}

func (l *exprPlugin) Bool(e *Eng, fr *Frame, st *State, v ssa.Value, truth bool) {
	if l.sql {
		return
	}
	switch x := v.(type) {
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if isAnyMap(t.X.Type()) && !truth {
				st.prop["missing"] = "1"
			}
			return
		case *ssa.TypeAssert:
			if !truth && isAnyList(t.AssertedType) {
				st.prop["mal"] = "1"
			}
			return
		}
		if a := e.eval(st, v); tagHas(a.Tags, "st") {
			st.prop["opaque"] = "1"
		}
	case *ssa.Call:
		if a := e.eval(st, v); tagHas(a.Tags, "st") {
			st.prop["opaque"] = "1"
		}
	}
}

func (l *exprPlugin) Edge(e *Eng, st *State, from, to *ssa.BasicBlock) {
	if l.sql {
		return
	}
	heads := e.loopHeads(from.Parent())
	if heads[to] && to.Dominates(from) { // next child, or next value
		switch st.prop["child"] {
		case "true":
			st.prop["seenT"] = "1"
		case "false":
			st.prop["seenF"] = "1"
		default:
			st.prop["seenU"] = "1"
		}
		r := 7
		if s := st.prop["R:gve"]; s != "" {
			fmt.Sscan(s, &r)
		}
		if r&rEQ != 0 {
			st.prop["seenEq"] = "1"
		}
		delete(st.prop, "child")
		delete(st.prop, "R:gve")
		delete(st.prop, "num:gve")
		return
	}
	if heads[from] && !loopOf(from)[to] {
		st.prop["done"] = "1"
	}
}

// relsOf: the relations of a stored to a given value under which an operator holds.
var relsOf = map[string]int{"=": rEQ, "!=": rLT | rGT, ">": rGT, ">=": rGT | rEQ, "<": rLT, "<=": rLT | rEQ}

// judge: what is wrong with answering res on a path, for an operator.
func judge(op string, res bool, p map[string]string) string {
	r := func(k string) int {
		n := 7
		if s := p["R:"+k]; s != "" {
			fmt.Sscan(s, &n)
		}
		return n
	}
	if p["opaque"] != "" {
		return ""
	}
	if p["astext"] != "" {
		return "numbers are compared as text"
	}
	if p["badnum"] != "" {
		return "a value that is not a number is compared as a number"
	}
	excused := p["missing"] != "" || p["mal"] != ""
	switch op {
	case "AND":
		if res && (p["child"] == "false" || p["seenF"] != "" || p["seenU"] != "") {
			return "AND holds although an operand does not hold or is not looked at"
		}
		if res && p["child"] != "" && p["done"] == "" {
			return "AND holds before all operands are looked at"
		}
		if !res && p["child"] != "false" && p["seenF"] == "" {
			return "AND fails although no operand fails"
		}
	case "OR":
		if res && p["child"] != "true" && p["seenT"] == "" {
			return "OR holds although no operand holds"
		}
		if !res && (p["child"] == "true" || p["seenT"] != "" || p["seenU"] != "") {
			return "OR fails although an operand holds or is not looked at"
		}
		if !res && p["child"] != "" && p["done"] == "" {
			return "OR fails before all operands are looked at"
		}
	case "NOT":
		if res && p["child"] != "false" {
			return "NOT holds although its operand holds or is not looked at"
		}
		if !res && p["child"] == "false" {
			return "NOT fails although its operand fails"
		}
	case "BETWEEN":
		lo, hi := r("gv0"), r("gv1")
		if res && (lo&rLT != 0 || hi&rGT != 0 || excused) {
			return "BETWEEN holds for values outside the bounds"
		}
		if !res && !excused && lo != rLT && hi != rGT && lo != 0 && hi != 0 {
			return "BETWEEN fails for values within the bounds"
		}
	case "IN":
		if res && r("gve") != rEQ {
			return "IN holds for a value that is not listed"
		}
		if !res && !excused && (p["done"] == "" || p["seenEq"] != "") {
			return "IN fails although a value may be listed"
		}
	case "LIKE":
		return ""
	default:
		spec, ok := relsOf[op]
		if !ok {
			if res {
				return "an unknown operator holds"
			}
			return ""
		}
		have := r("gv")
		if have == 0 {
			return "" // no such path
		}
		if p["missing"] != "" {
			if res && op != "!=" {
				return "the operator holds for a field that is missing"
			}
			return ""
		}
		if res && have&^spec != 0 {
			return "the operator holds although the stored value is not in that relation to the given one"
		}
		if !res && p["mal"] == "" && have&spec != 0 {
			return "the operator fails although the stored value is in that relation to the given one"
		}
	}
	return ""
}

// ---------- conditions in SQL ----------

// sqlVal: true, false, or unknown (NULL) as 1, 0, -1; other operands by kind.
type sqlVal struct {
	kind string // bool, field, arg, num, text
	b    int
	arg  string
	n    string
}

type sqlEval struct {
	toks  []sqlTok
	at    int
	args  []string       // what each placeholder is bound to
	next  int            // next placeholder
	env   map[string]int // relation of the field to each argument
	child int            // the value of an operand
	null  bool           // the field is missing
	fail  string
}

func (s *sqlEval) peek() sqlTok {
	if s.at < len(s.toks) {
		return s.toks[s.at]
	}
	return sqlTok{s: ""}
}
func (s *sqlEval) accept(w ...string) bool {
	for i, x := range w {
		if s.at+i >= len(s.toks) || !s.toks[s.at+i].is(x) {
			return false
		}
	}
	s.at += len(w)
	return true
}
func (s *sqlEval) no(why string) sqlVal {
	if s.fail == "" {
		s.fail = why
	}
	return sqlVal{kind: "bool", b: -1}
}
func or3(a, b int) int {
	if a == 1 || b == 1 {
		return 1
	}
	if a == 0 && b == 0 {
		return 0
	}
	return -1
}
func not3(a int) int {
	if a < 0 {
		return a
	}
	return 1 - a
}
func and3(a, b int) int { return not3(or3(not3(a), not3(b))) }

func (s *sqlEval) or() sqlVal {
	v := s.and()
	for s.accept("or") {
		w := s.and()
		v = sqlVal{kind: "bool", b: or3(s.truth(v), s.truth(w))}
	}
	return v
}
func (s *sqlEval) and() sqlVal {
	v := s.not()
	for s.accept("and") {
		w := s.not()
		v = sqlVal{kind: "bool", b: and3(s.truth(v), s.truth(w))}
	}
	return v
}
func (s *sqlEval) truth(v sqlVal) int {
	switch v.kind {
	case "bool":
		return v.b
	case "num":
		if v.n == "0" {
			return 0
		}
		return 1
	}
	s.no("an operand is used as a condition")
	return -1
}
func (s *sqlEval) not() sqlVal {
	if s.accept("not") {
		return sqlVal{kind: "bool", b: not3(s.truth(s.not()))}
	}
	return s.cmp()
}
func (s *sqlEval) rel(a, b sqlVal) int {
	flip := func(r int) int { return r&rEQ | (r&rLT)<<2 | (r&rGT)>>2 }
	switch {
	case a.kind == "field" && b.kind == "arg":
		if s.null {
			return 0
		}
		if r, ok := s.env[b.arg]; ok {
			return r
		}
	case b.kind == "field" && a.kind == "arg":
		if s.null {
			return 0
		}
		if r, ok := s.env[a.arg]; ok {
			return flip(r)
		}
	}
	s.no("a comparison of something else")
	return 0
}
func (s *sqlEval) cmp() sqlVal {
	a := s.operand()
	test := func(r, want int) sqlVal {
		if r == 0 {
			return sqlVal{kind: "bool", b: -1}
		}
		b := 0
		if r&want != 0 {
			b = 1
		}
		return sqlVal{kind: "bool", b: b}
	}
	t := s.peek()
	if t.hole != "" || t.star != nil {
		return a
	}
	for _, o := range []struct {
		w    string
		want int
	}{{"=", rEQ}, {"==", rEQ}, {"!=", rLT | rGT}, {"<>", rLT | rGT}, {"<=", rLT | rEQ}, {">=", rGT | rEQ}, {"<", rLT}, {">", rGT}} {
		if s.accept(o.w) {
			return test(s.rel(a, s.operand()), o.want)
		}
	}
	if s.accept("is", "not", "null") || s.accept("is", "null") {
		not := s.toks[s.at-2].is("not")
		if a.kind != "field" {
			return s.no("IS NULL of something else")
		}
		return sqlVal{kind: "bool", b: map[bool]int{true: 1, false: 0}[s.null != not]}
	}
	neg := s.accept("not")
	out := func(v sqlVal) sqlVal {
		if neg {
			v.b = not3(v.b)
		}
		return v
	}
	switch {
	case s.accept("between"):
		lo := s.operand()
		if !s.accept("and") {
			return s.no("BETWEEN without AND")
		}
		hi := s.operand()
		x, y := test(s.rel(a, lo), rGT|rEQ), test(s.rel(a, hi), rLT|rEQ)
		return out(sqlVal{kind: "bool", b: and3(x.b, y.b)})
	case s.accept("in"):
		if !s.accept("(") {
			return s.no("IN without a list")
		}
		depth := 1
		listed := false
		for s.at < len(s.toks) && depth > 0 {
			t := s.toks[s.at]
			s.at++
			switch {
			case t.is("("):
				depth++
			case t.is(")"):
				depth--
			case t.star != nil || t.is("?") || t.is(","):
				listed = true
			default:
				s.no("IN with something else")
			}
		}
		if !listed || a.kind != "field" {
			return s.no("IN without values")
		}
		return out(test(s.env["vale"], rEQ))
	case s.accept("like"):
		b := s.operand()
		if a.kind != "field" || b.kind != "arg" {
			return s.no("LIKE of something else")
		}
		return out(sqlVal{kind: "bool", b: s.env["like:"+b.arg] - 1})
	}
	if neg {
		return s.no("NOT in a strange place")
	}
	return a
}
func (s *sqlEval) operand() sqlVal {
	t := s.peek()
	switch {
	case t.hole == "child":
		s.at++
		return sqlVal{kind: "bool", b: s.child}
	case t.hole != "":
		s.at++
		return s.no("unknown text")
	case t.star != nil:
		s.at++
		return s.no("repetition")
	case s.accept("("):
		v := s.or()
		if !s.accept(")") {
			return s.no("parentheses")
		}
		return v
	case s.accept("cast", "("):
		v := s.operand()
		if !s.accept("as") {
			return s.no("CAST without AS")
		}
		s.at++
		if !s.accept(")") {
			return s.no("CAST")
		}
		return v
	case s.accept("coalesce", "(") || s.accept("ifnull", "("):
		v := s.or()
		if !s.accept(",") {
			return s.no("COALESCE")
		}
		d := s.or()
		if !s.accept(")") {
			return s.no("COALESCE")
		}
		if v.kind == "bool" {
			if v.b < 0 {
				return sqlVal{kind: "bool", b: s.truth(d)}
			}
			return v
		}
		return s.no("COALESCE of something else")
	case s.accept("json_extract", "("):
		for s.at < len(s.toks) && !s.peek().is(",") {
			s.at++
		}
		if !s.accept(",") || !s.accept("?") {
			return s.no("json_extract of something else")
		}
		if s.next >= len(s.args) || !strings.Contains(s.args[s.next], "field") {
			s.fail = "!the path of the field is not bound to the filter's field"
		}
		s.next++
		if !s.accept(")") {
			return s.no("json_extract")
		}
		return sqlVal{kind: "field"}
	case s.accept("?"):
		v := sqlVal{kind: "arg"}
		if s.next < len(s.args) {
			v.arg = s.args[s.next]
		} else {
			s.no("more placeholders than arguments")
		}
		s.next++
		return v
	}
	if t.s != "" && t.s[0] >= '0' && t.s[0] <= '9' {
		s.at++
		return sqlVal{kind: "num", n: t.s}
	}
	s.at++
	return s.no("something else: " + t.s)
}

// holds evaluates a condition.
func condHolds(toks []sqlTok, args []string, env map[string]int, child int, null bool) (int, string) {
	s := &sqlEval{toks: toks, args: args, env: env, child: child, null: null}
	v := s.or()
	if s.fail == "" && s.at < len(toks) {
		s.fail = "text after the condition"
	}
	b := s.truth(v)
	return b, s.fail
}

// judgeSQL: what is wrong with a condition made for an operator ("" nothing); not followed: ok false.
func judgeSQL(op string, toks []sqlTok, args []string) (string, bool) {
	rels := []int{rLT, rEQ, rGT}
	name := map[int]string{rLT: "less than", rEQ: "equal to", rGT: "greater than"}
	fail := func(f string) (string, bool) {
		if strings.HasPrefix(f, "!") {
			return f[1:], true
		}
		return "", false
	}
	switch op {
	case "AND", "OR":
		var words func(l []sqlTok) (string, bool)
		words = func(l []sqlTok) (string, bool) {
			for _, t := range l {
				switch {
				case t.star != nil:
					for _, a := range t.star {
						if m, ok := words(a); m != "" || !ok {
							return m, ok
						}
					}
				case t.hole == "child", t.is("("), t.is(")"), t.is(strings.ToLower(op)):
				case t.is("and"), t.is("or"), t.is("not"):
					return fmt.Sprintf("the operands of %s are combined with %s", op, strings.ToUpper(t.s)), true
				default:
					return "", false
				}
			}
			return "", true
		}
		return words(toks)
	case "NOT":
		for _, c := range []int{0, 1} {
			b, f := condHolds(toks, args, nil, c, false)
			if f != "" {
				return fail(f)
			}
			if b != 1-c {
				return "the condition for NOT does not negate its operand", true
			}
		}
		return "", true
	case "BETWEEN", "RANGE":
		for _, lo := range rels {
			for _, hi := range rels {
				b, f := condHolds(toks, args, map[string]int{"val0": lo, "val1": hi}, 0, false)
				if f != "" {
					return fail(f)
				}
				if (b == 1) != (lo&rLT == 0 && hi&rGT == 0) {
					return fmt.Sprintf("the condition for BETWEEN is wrong for values %s the lower and %s the upper bound", name[lo], name[hi]), true
				}
			}
		}
		return "", true
	case "IN":
		for _, r := range rels {
			b, f := condHolds(toks, args, map[string]int{"vale": r}, 0, false)
			if f != "" {
				return fail(f)
			}
			if (b == 1) != (r == rEQ) {
				return "the condition for IN does not ask for one of the values", true
			}
		}
		return "", true
	case "LIKE":
		for _, m := range []int{0, 1} {
			b, f := condHolds(toks, args, map[string]int{"like:val": m + 1}, 0, false)
			if f != "" {
				return fail(f)
			}
			if b != m {
				return "the condition for LIKE does not ask for a match of the pattern", true
			}
		}
		return "", true
	}
	spec, ok := relsOf[op]
	if !ok {
		return fmt.Sprintf("a condition is made for the unsupported operator %s", op), true
	}
	for _, r := range rels {
		b, f := condHolds(toks, args, map[string]int{"val": r}, 0, false)
		if f != "" {
			return fail(f)
		}
		if (b == 1) != (r&spec != 0) {
			return fmt.Sprintf("the condition for %s is wrong for stored values %s the value given", op, name[r]), true
		}
	}
	if b, _ := condHolds(toks, args, map[string]int{"val": rEQ}, 0, true); b == 1 && op != "!=" {
		return fmt.Sprintf("the condition for %s holds for a missing field", op), true
	}
	return "", true
}

func argNames(s Seq) ([]string, bool) {
	es, ok := listElems(s)
	if !ok {
		return nil, false
	}
	var r []string
	for _, x := range es {
		n := ""
		for _, p := range x.s {
			if p.K == pHole {
				n += p.S
			} else if p.K == pLit {
				n += p.S
			} else {
				n += "·"
			}
		}
		r = append(r, n)
	}
	return r, true
}

var filterOps = []string{"AND", "OR", "NOT", "=", "!=", ">", ">=", "<", "<=", "IN", "BETWEEN", "LIKE"}

func init() {
	register("E01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"renderers": 1, "evaluators": 1, "conditions": 12, "decided_paths": 20, "builders": 8, "facet_conditions": 5}}
		findings := map[string]*Finding{}
		add := func(rule, fn string, pos token.Pos, msg string) {
			k := rule + "|" + fn
			if findings[k] == nil {
				findings[k] = &Finding{Rule: rule, Construct: fn, Pos: p.pos(pos), Msg: msg, Chain: fn}
			}
		}
		dump := os.Getenv("SCOPE_DUMP") != ""
		ops := append([]string{}, filterOps...)
		ops = append(ops, "REGEX", "no-such-operator")
		run := func(fn *ssa.Function, sql bool, heap map[string]*Abs, over map[int]*Abs) []*Exit {
			l := &exprPlugin{p: p, fn: fn, sql: sql, dump: dump, add: add}
			e := NewEng(p, l)
			e.inlineAll, e.deep, e.keepStr, e.splitBool, e.forkBool = true, true, true, true, true
			e.argOver = over
			x := e.RunRoot(fn, nil, heap)
			r.Counts["conversions"] += l.conversions
			for _, k := range sortedKeys(e.overflow) {
				r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
			}
			return x
		}
		given := func(fn *ssa.Function) map[int]*Abs {
			over := map[int]*Abs{}
			for i, prm := range fn.Params {
				if isFilterExpr(prm.Type()) {
					over[i] = &Abs{Path: fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type())), Nil: No}
				}
			}
			return over
		}
		filterHeap := func(fn *ssa.Function, op string) map[string]*Abs {
			heap := map[string]*Abs{}
			for i, prm := range fn.Params {
				if isFilterExpr(prm.Type()) {
					path := fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type()))
					heap[path+".Operator"] = &Abs{Str: litTmpl(op), Emp: No}
					heap[path+".Field"] = &Abs{Str: hole("field"), Tags: "field", Emp: No}
					heap[path+".Value"] = &Abs{Str: hole("val"), Tags: "gv", Nil: No}
				}
			}
			return heap
		}
		for _, fn := range p.allFuncs {
			if pkgName(fn) != "core" {
				continue
			}
			parserTable(p, r, fn, add)
			switch {
			case converts(fn):
				run(fn, false, map[string]*Abs{}, map[int]*Abs{0: {Tags: "st"}})
			case evaluates(fn):
				r.Counts["evaluators"]++
				for _, op := range ops {
					for _, x := range run(fn, false, filterHeap(fn, op), given(fn)) {
						if dump {
							fmt.Fprintf(os.Stderr, "%s %s = %v %v\n", fnName(fn), op, x.res[0].key(), x.prop)
						}
						if x.res[0].B == Unk {
							r.Counts["not_followed"]++
							continue
						}
						r.Counts["decided_paths"]++
						if m := judge(op, x.res[0].B == Yes, x.prop); m != "" {
							add("evaluated-wrongly", fmt.Sprintf("%s[%s]", fnName(fn), op), fn.Pos(), m)
						}
					}
				}
			case renders(fn):
				r.Counts["renderers"]++
				for _, op := range ops {
					made, unread := false, r.Counts["not_followed"]
					for _, x := range run(fn, true, filterHeap(fn, op), given(fn)) {
						if len(x.res) == 3 && x.res[2].Nil == No {
							continue
						}
						t, a := x.res[0].Str, x.res[1].Str
						if t == nil || t.top || a == nil && !(x.res[1].Nil == Yes) {
							r.Counts["not_followed"]++
							continue
						}
						for _, alt := range t.alts {
							toks := sqlTokens(alt)
							if len(toks) == 0 || tokString(toks) == "1 = 0 " {
								continue
							}
							made = true
							argl := []Seq{{}}
							if a != nil {
								argl = a.alts
							}
							for _, aa := range argl {
								names, ok := argNames(aa)
								if dump {
									fmt.Fprintf(os.Stderr, "%s %s: %s %v\n", fnName(fn), op, tokString(toks), names)
								}
								if !ok {
									r.Counts["not_followed"]++
									continue
								}
								m, ok := judgeSQL(op, toks, names)
								if !ok {
									r.Counts["not_followed"]++
									continue
								}
								r.Counts["conditions"]++
								if m != "" {
									add("rendered-wrongly", fmt.Sprintf("%s[%s]", fnName(fn), op), fn.Pos(), m)
								}
							}
						}
					}
					if !made && unread == r.Counts["not_followed"] && opKnown(op) {
						add("not-rendered", fmt.Sprintf("%s[%s]", fnName(fn), op), fn.Pos(), "no condition is made for the operator "+op)
					}
				}
			}
		}
		builders(p, r, run, add, dump)
		facets(p, r, run, add, dump)
		keys := sortedKeys(findings)
		sort.Strings(keys)
		for _, k := range keys {
			r.add(findings[k])
		}
		_ = constant.Bool
		return r
	})
}

// builders: the methods that add a condition to a filter, and what the condition has to be.
var filterBuilders = map[string]string{"Equal": "=", "NotEqual": "!=", "GreaterThan": ">", "LessThan": "<", "GreaterThanOrEqual": ">=", "LessThanOrEqual": "<=", "In": "IN", "Between": "BETWEEN", "Like": "LIKE", "NotIn": "NOT IN", "And": "AND", "Or": "OR"}

func builders(p *Prog, r *Result, run func(*ssa.Function, bool, map[string]*Abs, map[int]*Abs) []*Exit, add func(string, string, token.Pos, string), dump bool) {
	for _, fn := range p.allFuncs {
		op := filterBuilders[fn.Name()]
		if op == "" || pkgName(fn) != "core" || fn.Signature.Recv() == nil || namedName(fn.Signature.Recv().Type()) != "MetadataFilter" {
			continue
		}
		for _, had := range []bool{false, true} {
			over := map[int]*Abs{}
			heap := map[string]*Abs{}
			for i, prm := range fn.Params {
				path := fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type()))
				switch {
				case i == 0 || namedName(prm.Type()) == "MetadataFilter":
					over[i] = &Abs{Path: "new:" + path, Nil: No}
					x := &Abs{Path: "old", Nil: No}
					if i > 0 {
						x = &Abs{Path: "other", Nil: No}
					} else if !had {
						x = &Abs{Nil: Yes}
					}
					heap["new:"+path+".expression"] = x
				case i == 1:
					over[i] = &Abs{Str: hole("field")}
				case op == "BETWEEN":
					over[i] = &Abs{Str: hole(fmt.Sprintf("val%d", i-2))}
				default:
					over[i] = &Abs{Path: path, Str: hole("val"), Nil: No}
				}
			}
			for _, x := range run(fn, true, heap, over) {
				r.Counts["builder_paths"]++
				if dump {
					for _, k := range sortedKeys(x.heap) {
						fmt.Fprintf(os.Stderr, "%s %v  %s = %s\n", fnName(fn), had, k, x.heap[k].key())
					}
				}
				b := &built{heap: x.heap}
				got := b.show(x.heap[over[0].Path+".expression"], 0)
				if x.prop["changed"] != "" {
					b.lost = true // the condition is worked into what was there
				}
				want := fmt.Sprintf("(field %s val)", op)
				switch op {
				case "BETWEEN":
					want = "(field BETWEEN [val0 val1])"
				case "NOT IN":
					want = "NOT [(field IN val)]"
				case "AND", "OR":
					want = "<other>"
					if had {
						want = op + " [<old> <other>]"
					}
				}
				if had && op != "AND" && op != "OR" {
					want = "AND [<old> " + want + "]"
				}
				if b.lost || strings.Contains(got, "~") {
					r.Counts["not_followed"]++
					continue
				}
				r.Counts["builders_followed"]++
				if canon(got) != canon(want) {
					state := "an empty filter"
					if had {
						state = "a filter that has a condition"
					}
					add("built-wrongly", fnName(fn), fn.Pos(), fmt.Sprintf("on %s, %s builds %s, want %s", state, fn.Name(), got, want))
				}
			}
		}
		r.Counts["builders"]++
	}
}

// canon: the two operands of AND and OR may come in either order.
func canon(s string) string {
	return strings.ReplaceAll(s, "[<other> <old>]", "[<old> <other>]")
}

type built struct {
	heap map[string]*Abs
	lost bool
}

// text of a value: the holes of the parameters it comes from.
func (b *built) text(a *Abs) string {
	if a == nil || a.Str == nil || a.Str.top || len(a.Str.alts) != 1 {
		b.lost = true
		return "~"
	}
	t := ""
	for _, p := range a.Str.alts[0] {
		switch p.K {
		case pHole, pLit:
			t += p.S
		default:
			b.lost = true
		}
	}
	return t
}

// show: an expression as the builder left it in the heap.
func (b *built) show(a *Abs, depth int) string {
	if a == nil || depth > 4 {
		b.lost = true
		return "~"
	}
	if a.Nil == Yes {
		return "nothing"
	}
	if a.Path == "old" || a.Path == "other" {
		return "<" + a.Path + ">"
	}
	if a.Path == "" {
		b.lost = true
		return "~"
	}
	op := b.text(b.heap[a.Path+".Operator"])
	list := func(p string, f func(*Abs) string) string {
		var l []string
		for i := 0; ; i++ {
			x, ok := b.heap[fmt.Sprintf("%s[%d]", p, i)]
			if !ok {
				break
			}
			l = append(l, f(x))
		}
		if len(l) == 0 {
			b.lost = true
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	switch op {
	case "AND", "OR", "NOT":
		c := b.heap[a.Path+".Children"]
		if c == nil || c.Path == "" {
			b.lost = true
			return "~"
		}
		l := list(c.Path, func(x *Abs) string { return b.show(x, depth+1) })
		if op != "NOT" && strings.HasPrefix(l, "[(") && strings.HasSuffix(l, " <old>]") {
			l = "[<old> " + strings.TrimSuffix(l[1:], " <old>]") + "]"
		}
		return op + " " + l
	}
	v := b.heap[a.Path+".Value"]
	val := ""
	if v != nil && strings.HasPrefix(v.Path, "new:") {
		val = list(v.Path, b.text)
	} else {
		val = b.text(v)
	}
	return fmt.Sprintf("(%s %s %s)", b.text(b.heap[a.Path+".Field"]), op, val)
}

func namedName(t types.Type) string {
	if n, ok := derefT(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// facets: the conditions of the facet filters, one run per kind of filter.
func facets(p *Prog, r *Result, run func(*ssa.Function, bool, map[string]*Abs, map[int]*Abs) []*Exit, add func(string, string, token.Pos, string), dump bool) {
	type kind struct {
		typ, op  string
		min, max bool
		pattern  string
	}
	kinds := []kind{{typ: "equals", op: "="}, {typ: "in", op: "IN"}, {typ: "range", op: ">=", min: true}, {typ: "range", op: "<=", max: true}, {typ: "range", op: "BETWEEN", min: true, max: true}, {typ: "contains", op: "LIKE", pattern: "%pat%"}, {typ: "prefix", op: "LIKE", pattern: "pat%"}, {typ: "exists", op: "EXISTS"}, {typ: "nested", op: "AND"}, {typ: "nested", op: "OR"}, {typ: "nested", op: "NOT"}}
	for _, fn := range p.allFuncs {
		res := fn.Signature.Results()
		if pkgName(fn) != "core" || fn.Parent() != nil || len(fn.Blocks) == 0 || !takesParam(fn, isFacetFilter) || !takesParam(fn, isStringType) || res.Len() != 2 || !isStringType(res.At(0).Type()) || !isAnyList(res.At(1).Type()) {
			continue
		}
		if !readsField(fn, "Type") {
			continue
		}
		r.Counts["facet_renderers"]++
		for _, k := range kinds {
			heap, over := map[string]*Abs{}, map[int]*Abs{}
			for i, prm := range fn.Params {
				path := fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type()))
				switch {
				case isFacetFilter(prm.Type()):
					list := &Tmpl{alts: []Seq{{{K: pStar, Sub: []Seq{{{K: pHole, S: "vale"}, {K: pEnd}}}}}}}
					heap[path+".Type"] = &Abs{Str: litTmpl(k.typ), Emp: No}
					heap[path+".Operator"] = &Abs{Str: litTmpl(k.op), Emp: No}
					heap[path+".Values"] = &Abs{Path: path + ".Values", Tags: "gl", Str: list, Emp: No, Nil: No}
					heap[path+".Min"] = &Abs{Str: hole("val0"), Nil: triOf(!k.min)}
					heap[path+".Max"] = &Abs{Str: hole("val1"), Nil: triOf(!k.max)}
					heap[path+".Pattern"] = &Abs{Str: hole("pat"), Emp: No}
				case isStringType(prm.Type()):
					over[i] = &Abs{Str: hole("field"), Emp: No}
				}
			}
			for _, x := range run(fn, true, heap, over) {
				t, a := x.res[0].Str, x.res[1].Str
				if a == nil && k.typ == "nested" {
					a = &Tmpl{alts: []Seq{{}}} // the arguments of the operands
				}
				if t == nil || t.top || a == nil || a.top {
					if x.res[0].Emp != Yes {
						r.Counts["not_followed"]++
					}
					continue
				}
				for _, alt := range t.alts {
					toks := sqlTokens(alt)
					for _, aa := range a.alts {
						names, ok := argNames(aa)
						if dump {
							fmt.Fprintf(os.Stderr, "%s %v: %s %v\n", fnName(fn), k, tokString(toks), names)
						}
						if k.typ == "nested" && !hasChild(toks) {
							continue
						}
						if !ok || len(toks) == 0 {
							r.Counts["not_followed"]++
							continue
						}
						m, ok := judgeFacet(k.op, k.pattern, toks, names)
						if !ok {
							r.Counts["not_followed"]++
							continue
						}
						r.Counts["facet_conditions"]++
						if m != "" {
							add("rendered-wrongly", fmt.Sprintf("%s[%s %s]", fnName(fn), k.typ, k.op), fn.Pos(), m)
						}
					}
				}
			}
		}
	}
}

func judgeFacet(op, pattern string, toks []sqlTok, names []string) (string, bool) {
	n := append([]string{}, names...)
	switch op {
	case "EXISTS":
		for _, null := range []bool{true, false} {
			b, f := condHolds(toks, names, nil, 0, null)
			if f != "" {
				return "", false
			}
			if (b == 1) == null {
				return "the condition for exists does not ask whether the field is there", true
			}
		}
		return "", true
	case "NOT":
		if !toks[0].is("not") {
			return "the condition for NOT does not negate its operands", true
		}
		depth := 0
		for i, t := range toks[1:] {
			if t.is("(") {
				depth++
			} else if t.is(")") {
				depth--
			}
			if depth == 0 && i < len(toks)-2 {
				return "the condition for NOT negates only some of its operands", true
			}
		}
		return "", true
	case "LIKE":
		for i, x := range n {
			if strings.Contains(x, "pat") {
				if strings.Contains(x, "·") {
					return "", false
				}
				if x != pattern {
					return fmt.Sprintf("the pattern is bound as %q, want %q", x, pattern), true
				}
				n[i] = "val"
			}
		}
	case "=", "<=", ">=":
		for i, x := range n {
			if x == "val0" || x == "val1" && op == "<=" {
				n[i] = "val"
			}
		}
	}
	return judgeSQL(op, toks, n)
}

func readsField(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if s, ok := derefT(x.X.Type()).Underlying().(*types.Struct); ok && s.Field(x.Field).Name() == name {
					return true
				}
			case *ssa.Field:
				if s, ok := x.X.Type().Underlying().(*types.Struct); ok && s.Field(x.Field).Name() == name {
					return true
				}
			}
		}
	}
	return false
}

func hasChild(l []sqlTok) bool {
	for _, t := range l {
		if t.hole == "child" {
			return true
		}
		for _, a := range t.star {
			if hasChild(a) {
				return true
			}
		}
	}
	return false
}

func opKnown(op string) bool {
	for _, o := range filterOps {
		if o == op {
			return true
		}
	}
	return false
}

// converts: says whether a value is a number, and which.
func converts(fn *ssa.Function) bool {
	s := fn.Signature
	if fn.Parent() != nil || s.Recv() != nil || len(fn.Blocks) == 0 || s.Params().Len() != 1 || s.Results().Len() != 2 || !isBoolType(s.Results().At(1).Type()) {
		return false
	}
	i, ok := s.Params().At(0).Type().Underlying().(*types.Interface)
	b, ok2 := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && ok2 && i.Empty() && b.Info()&types.IsFloat != 0
}

// parserTable: the operators a parser looks for in turn. One that contains an operator looked for before it is
// never found, and each stands for the operator it spells.
func parserTable(p *Prog, r *Result, fn *ssa.Function, add func(string, string, token.Pos, string)) {
	spelt := map[string]string{":=": "=", ":": "=", "==": "=", "<>": "!="}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			arr, ok := derefT(al.Type()).Underlying().(*types.Array)
			if !ok {
				continue
			}
			st, ok := arr.Elem().Underlying().(*types.Struct)
			if !ok || st.NumFields() != 2 || !isStringType(st.Field(0).Type()) || namedName(st.Field(1).Type()) != "FilterOperator" {
				continue
			}
			type entry struct{ tok, op string }
			rows := map[int64]*entry{}
			for _, u := range *al.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				n := c.Int64()
				if rows[n] == nil {
					rows[n] = &entry{}
				}
				var fields func(refs []ssa.Instruction, depth int)
				fields = func(refs []ssa.Instruction, depth int) {
					for _, w := range refs {
						switch w := w.(type) {
						case *ssa.FieldAddr:
							for _, z := range *w.Referrers() {
								s, ok := z.(*ssa.Store)
								if !ok {
									continue
								}
								if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
									if w.Field == 0 {
										rows[n].tok = constant.StringVal(k.Value)
									} else {
										rows[n].op = constant.StringVal(k.Value)
									}
								}
							}
						case *ssa.Store:
							// the entry is made apart and copied
							if u, ok := w.Val.(*ssa.UnOp); ok && u.Op == token.MUL && depth == 0 {
								if l, ok := u.X.(*ssa.Alloc); ok {
									fields(*l.Referrers(), 1)
								}
							}
						}
					}
				}
				fields(*ia.Referrers(), 0)
			}
			for j := int64(0); j < int64(len(rows)); j++ {
				e := rows[j]
				if e == nil || e.tok == "" || e.op == "" {
					continue
				}
				r.Counts["parsed_operators"]++
				want := e.tok
				if spelt[want] != "" {
					want = spelt[want]
				}
				if want != e.op {
					add("parsed-wrongly", fmt.Sprintf("%s[%s]", fnName(fn), e.tok), fn.Pos(), fmt.Sprintf("%q is parsed as the operator %s", e.tok, e.op))
				}
				for i := int64(0); i < j; i++ {
					if rows[i] != nil && rows[i].tok != "" && strings.Contains(e.tok, rows[i].tok) {
						add("parsed-wrongly", fmt.Sprintf("%s[%s]", fnName(fn), e.tok), fn.Pos(), fmt.Sprintf("%q is looked for after %q, which it contains, and never found", e.tok, rows[i].tok))
					}
				}
			}
		}
	}
}
