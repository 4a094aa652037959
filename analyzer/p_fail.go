package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failPlugin injects, along every path, the failure of one storage operation and checks that
// the exported operation does not then report success.
type failPlugin struct {
	p        *Prog
	findings map[string]*Finding
	sites    map[string]*failSite
	handlers map[*ssa.Function]bool // callbacks handed to third-party frameworks
	roots    int
}

type failSite struct {
	key, pos, fn, op string
	logOK            bool // hiding the failure is acceptable if it was logged
	text             bool // a full-text query, which the search text can make malformed
	read             bool
}

const failK = "fail"

// packages whose exported operations must report storage failures
var failScope = map[string]bool{"core": true, "graph": true, "cortexdb": true}

func newFailPlugin(p *Prog) *failPlugin {
	return &failPlugin{p: p, findings: map[string]*Finding{}, sites: map[string]*failSite{}, handlers: map[*ssa.Function]bool{}}
}

// storageOp classifies a call: "" (none), "err1" (single error), "val" ((T, error)), "row", "next", "rowserr", "query".
func storageOp(name string) string {
	switch name {
	case "(*database/sql.Row).Scan":
		return "row"
	case "(*database/sql.Rows).Next":
		return "next"
	case "(*database/sql.Rows).Err":
		return "rowserr"
	case "(*database/sql.Rows).Scan", "(*database/sql.Tx).Commit", "(*database/sql.DB).Ping", "(*database/sql.DB).PingContext":
		return "err1"
	}
	if strings.HasPrefix(name, "(*database/sql.DB).") || strings.HasPrefix(name, "(*database/sql.Tx).") || strings.HasPrefix(name, "(*database/sql.Stmt).") || strings.HasPrefix(name, "(*database/sql.Conn).") {
		switch name[strings.LastIndexByte(name, '.')+1:] {
		case "Exec", "ExecContext", "Query", "QueryContext", "Begin", "BeginTx", "Prepare", "PrepareContext", "Conn":
			return "val"
		}
	}
	switch name {
	case "(database/sql.Result).LastInsertId", "encoding/json.Marshal", "encoding/json.MarshalIndent", "database/sql.Open":
		return "val"
	}
	return ""
}

// codecOp: the repository's own encoders of stored values.
func codecOp(fn *ssa.Function) string {
	if fn == nil || fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/internal/encoding") {
		return ""
	}
	n := fn.Name()
	if strings.HasPrefix(n, "Encode") {
		r := fn.Signature.Results()
		if r.Len() == 2 && isErrorType(r.At(1).Type()) {
			return "val"
		}
		if r.Len() == 1 && isErrorType(r.At(0).Type()) {
			return "err1"
		}
	}
	return ""
}

func (l *failPlugin) Touches(fn *ssa.Function) bool {
	if passesError(fn) || hasLogCall(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if storageOp(callName(c.Common())) != "" || codecOp(c.Common().StaticCallee()) != "" {
					return true
				}
			}
		}
	}
	return false
}

// sqlInvoke names the database operation behind an interface that abstracts over *sql.DB, *sql.Tx
// and *sql.Conn: a method named and typed like theirs.
func sqlInvoke(c *ssa.CallCommon) string {
	if !c.IsInvoke() {
		return ""
	}
	m := c.Method.Name()
	sig := c.Signature().Results()
	if sig.Len() == 0 {
		return ""
	}
	r := types.TypeString(sig.At(0).Type(), nil)
	switch {
	case strings.HasPrefix(m, "QueryRow") && r == "*database/sql.Row", strings.HasPrefix(m, "Query") && r == "*database/sql.Rows",
		strings.HasPrefix(m, "Exec") && r == "database/sql.Result", strings.HasPrefix(m, "Prepare") && r == "*database/sql.Stmt",
		strings.HasPrefix(m, "Begin") && r == "*database/sql.Tx":
		return "(*database/sql.DB)." + m
	}
	return ""
}

func callName(c *ssa.CallCommon) string {
	if n := sqlInvoke(c); n != "" {
		return n
	}
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// Enter: a failure that happened before the call is the caller's business.
func (l *failPlugin) Enter(prop map[string]string) (map[string]string, func(map[string]string) map[string]string) {
	f, ok := prop[failK]
	if !ok {
		return prop, func(out map[string]string) map[string]string {
			if out["since"] == "" {
				return out
			}
			o := copyProp(out)
			delete(o, "since")
			return o
		}
	}
	if f == "earlier" {
		return prop, nil
	}
	in := copyProp(prop)
	delete(in, "since")
	in[failK] = "earlier"
	sw, hasSw := prop["sw"]
	delete(in, "sw")
	return in, func(out map[string]string) map[string]string {
		o := copyProp(out)
		o[failK] = f
		o["since"] = "1" // a call of the repository's own functions came after the failure
		if hasSw {
			o["sw"] = sw
		}
		return o
	}
}

func errIndex(sig *types.Signature) int {
	ei := -1
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			ei = i
		}
	}
	return ei
}

// Return notes the first function on the way out that hides the failure.
func (l *failPlugin) Return(e *Eng, fr *Frame, st *State, res []*Abs) {
	f, ok := st.prop[failK]
	if !ok || f == "earlier" || st.prop["sw"] != "" {
		return
	}
	ei := errIndex(fr.fn.Signature)
	if ei < 0 || ei >= len(res) {
		return
	}
	if s := l.sites[f]; s != nil && s.read && isFallback(fr.ret) && (res[ei].Nil != No || st.prop["since"] != "") {
		// a failed read replaced by the complete result, or by the error, of another operation
		delete(st.prop, failK)
		return
	}
	if res[ei].Nil == No {
		return
	}
	st.prop["sw"] = fnName(fr.fn)
	if res[ei].Nil == Unk {
		st.prop["sw"] += "?"
	}
}

func (l *failPlugin) site(fr *Frame, c *CallSite, op string) string {
	pos := l.p.pos(c.Pos())
	k := fmt.Sprintf("%s@%s", op, pos)
	if l.sites[k] == nil {
		s := &failSite{key: k, pos: pos, fn: fnName(fr.fn), op: op}
		// one unreadable row, or a cache that is rebuilt on demand
		s.logOK = op == "Rows.Scan"
		s.read = strings.Contains(op, "Query") || strings.HasPrefix(op, "Row.") || strings.HasPrefix(op, "Rows.")
		if l.userQuery(c) {
			s.logOK, s.text = true, true // the text query itself may be malformed
		}
		for f := fr; f != nil; f = f.up {
			n := strings.ToLower(f.fn.Name())
			if strings.Contains(n, "quantizer") || strings.Contains(n, "snapshot") || strings.Contains(n, "autosave") {
				s.logOK = true
			}
		}
		l.sites[k] = s
	}
	return k
}

func opShort(name string) string {
	name = strings.TrimPrefix(name, "(*database/sql.")
	name = strings.TrimPrefix(name, "(database/sql.")
	name = strings.TrimPrefix(name, "encoding/")
	name = strings.ReplaceAll(name, ").", ".")
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	return name
}

func (l *failPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if c.Common.IsInvoke() && isLogMethod(c.Common) {
		if _, ok := st.prop[failK]; ok {
			st.prop["logged"] = "1"
		}
		return false, nil
	}
	if thirdParty(c.Callee) || l.p.registersCallback(c) {
		// a framework runs the callbacks it is given on its own behalf: they report their
		// failures to it, so they are entry points of their own
		for _, a := range c.Args {
			if a.Fn != nil && len(a.Fn.Blocks) > 0 && l.p.inModule(a.Fn) {
				l.handlers[a.Fn] = true
			}
		}
		return true, []Outcome{{st: st, res: e.havocResult(st, c)}}
	}
	kind := storageOp(c.Name)
	if kind == "" {
		kind = codecOp(c.Callee)
	}
	if kind == "" {
		return false, nil
	}
	if c.Defer {
		return false, nil
	}
	if strings.HasPrefix(c.Name, "encoding/json.Marshal") && len(c.ArgVals) > 0 && neverFailsJSON(c.ArgVals[0]) {
		return false, nil
	}
	op := opShort(c.Name)
	_, failed := st.prop[failK]
	okErr := &Abs{Nil: Yes}
	badErr := &Abs{Nil: No, Tags: "err:storage"}
	fork := func() *State {
		if failed {
			return nil
		}
		n := st.clone()
		n.prop[failK] = l.site(fr, c, op)
		return n
	}
	valRes := func(err *Abs) *Abs {
		sig := c.Common.Signature().Results()
		v := &Abs{}
		if err.Nil == Yes {
			if _, ok := sig.At(0).Type().Underlying().(*types.Pointer); ok {
				v = &Abs{Nil: No, Path: fmt.Sprintf("new:rows@%s", l.p.pos(c.Pos()))}
			} else if _, ok := sig.At(0).Type().Underlying().(*types.Interface); ok {
				v = &Abs{Nil: No}
			}
		} else if _, ok := sig.At(0).Type().Underlying().(*types.Pointer); ok {
			v = &Abs{Nil: Yes}
		}
		return &Abs{Tup: []*Abs{v, err}}
	}
	switch kind {
	case "err1":
		outs := []Outcome{{st: st, res: okErr}}
		if n := fork(); n != nil {
			outs = append(outs, Outcome{st: n, res: badErr})
		}
		return true, outs
	case "val":
		outs := []Outcome{{st: st, res: valRes(okErr)}}
		if n := fork(); n != nil {
			outs = append(outs, Outcome{st: n, res: valRes(badErr)})
		}
		return true, outs
	case "row":
		outs := []Outcome{{st: st, res: okErr}}
		outs = append(outs, Outcome{st: st.clone(), res: &Abs{Nil: No, Tags: "err:database/sql.ErrNoRows"}})
		if n := fork(); n != nil {
			outs = append(outs, Outcome{st: n, res: badErr})
		}
		return true, outs
	case "next":
		outs := []Outcome{{st: st, res: &Abs{B: Yes}}, {st: st.clone(), res: &Abs{B: No}}}
		if n := fork(); n != nil {
			n.prop["iter"] = c.Args[0].Path
			outs = append(outs, Outcome{st: n, res: &Abs{B: No}})
		}
		return true, outs
	case "rowserr":
		if p, ok := st.prop["iter"]; ok && p == c.Args[0].Path {
			return true, []Outcome{{st: st, res: badErr}}
		}
		return true, []Outcome{{st: st, res: okErr}}
	}
	return false, nil
}

func (l *failPlugin) checkRoot(root *ssa.Function, exits []*Exit) {
	rs := root.Signature.Results()
	ei := -1
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			ei = i
		}
	}
	if ei < 0 {
		return
	}
	reported := map[string]bool{}
	for _, x := range exits {
		if f, ok := x.prop[failK]; ok && ei < len(x.res) && x.res[ei].Nil != Yes {
			reported[f] = true
		}
	}
	for _, x := range exits {
		f, ok := x.prop[failK]
		if !ok || ei >= len(x.res) || x.res[ei].Nil == No {
			continue
		}
		if s := l.sites[f]; s != nil && s.text && reported[f] {
			// one of several phrasings: the failure is returned when nothing else matched
			continue
		}
		s := l.sites[f]
		if s == nil || x.prop["recorded"] != "" || s.logOK && x.prop["logged"] != "" {
			continue
		}
		con := s.op + " in " + s.fn + " hidden by " + x.prop["sw"]
		what := "fails"
		if s.op == "Rows.Next" {
			what = "ends early because of an error that rows.Err would report"
		}
		k := "swallowed|" + con
		msg := fmt.Sprintf("when %s at %s %s, %s can still return a nil error", s.op, s.pos, what, fnName(root))
		if l.findings[k] == nil {
			l.findings[k] = &Finding{Prop: "D02", Rule: "swallowed", Construct: con, Pos: s.pos, Msg: msg, Chain: fnName(root)}
		}
	}
}

func init() {
	register("D02", func(p *Prog) *Result {
		l := newFailPlugin(p)
		e := NewEng(p, l)
		for _, r := range p.exportedRoots() {
			if !failScope[pkgName(r)] && os.Getenv("AZ_ALL") == "" {
				continue
			}
			l.roots++
			l.checkRoot(r, e.RunRoot(r, nil, nil))
		}
		done := map[*ssa.Function]bool{}
		for more := true; more; {
			more = false
			for _, fn := range p.allFuncs {
				if l.handlers[fn] && !done[fn] {
					done[fn], more = true, true
					l.roots++
					l.checkRoot(fn, e.RunRoot(fn, nil, nil))
				}
			}
		}
		r := &Result{Counts: map[string]int{"roots": l.roots, "functions": len(e.visited), "failure_sites": len(l.sites)}, Minimums: map[string]int{"roots": 120, "failure_sites": 120}}
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
}

// passesError: error wrappers (error in, error out) must be followed to know nilness.
func passesError(fn *ssa.Function) bool {
	in := false
	for _, p := range fn.Params {
		if isErrorType(p.Type()) {
			in = true
		}
	}
	return in && errIndex(fn.Signature) >= 0
}

// isLogMethod: a warning or error message to a logger (an interface with Warn and Error).
func isLogMethod(c *ssa.CallCommon) bool {
	n := c.Method.Name()
	if n != "Warn" && n != "Error" || c.Method.Type().(*types.Signature).Results().Len() != 0 {
		return false
	}
	return true
}

func hasLogCall(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && isLogMethod(c.Common()) {
				return true
			}
		}
	}
	return false
}

// Instr: counting or recording a failure in the call's result is reporting it.
func (l *failPlugin) Instr(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || st.prop[failK] == "" {
		return
	}
	n := strings.ToLower(fieldName(derefT(fa.X.Type()), fa.Field))
	if (strings.Contains(n, "fail") || strings.Contains(n, "error")) && !sumsUp(s.Val) {
		st.prop["recorded"] = "1"
	}
}

// sumsUp: the new value merely adds up results gathered elsewhere (a += b.a, append(a, b.a...)),
// which records nothing by itself.
func sumsUp(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		_, c1 := x.X.(*ssa.Const)
		_, c2 := x.Y.(*ssa.Const)
		return x.Op == token.ADD && !c1 && !c2
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			switch a := x.Call.Args[1].(type) {
			case *ssa.UnOp, *ssa.Field, *ssa.Parameter:
				return true
			case *ssa.Slice:
				_, lit := a.X.(*ssa.Alloc)
				return !lit
			}
		}
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, lit := x.X.(*ssa.Alloc)
		return lit // make([]error, 0)
	}
	return false
}

// neverFailsJSON: the marshalled type consists of strings, integers and booleans only.
func neverFailsJSON(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	var safe func(t types.Type, d int) bool
	safe = func(t types.Type, d int) bool {
		if d > 4 {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
		case *types.Slice:
			return safe(u.Elem(), d+1)
		case *types.Array:
			return safe(u.Elem(), d+1)
		case *types.Map:
			return safe(u.Key(), d+1) && safe(u.Elem(), d+1)
		}
		return false
	}
	return safe(mi.X.Type(), 0)
}

// userQuery: a full-text query (or the iteration over its result), whose failure can be due to
// the syntax of the search text.
func (l *failPlugin) userQuery(c *CallSite) bool {
	var match func(v ssa.Value, d int) bool
	match = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && strings.Contains(x.Value.ExactString(), " MATCH ?")
		case *ssa.Phi:
			for _, e := range x.Edges {
				if match(e, d+1) {
					return true
				}
			}
		case *ssa.BinOp:
			return match(x.X, d+1) || match(x.Y, d+1)
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				for _, a := range call.Call.Args {
					if isStringType(a.Type()) && match(a, d+1) {
						return true
					}
				}
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if isStringType(a.Type()) && match(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range c.ArgVals {
		if isStringType(a.Type()) && match(a, 0) {
			return true
		}
	}
	if len(c.ArgVals) > 0 && strings.HasPrefix(c.Name, "(*database/sql.Rows).") {
		return match(c.ArgVals[0], 0)
	}
	return false
}

// thirdParty: a function outside both the module and the standard library.
func thirdParty(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	o := fn
	if o.Origin() != nil {
		o = o.Origin()
	}
	if o.Pkg == nil && (o.Object() == nil || o.Object().Pkg() == nil) {
		return false
	}
	path := ""
	if o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else {
		path = o.Object().Pkg().Path()
	}
	if strings.HasPrefix(path, modPath) {
		return false
	}
	first, _, _ := strings.Cut(path, "/")
	return strings.Contains(first, ".")
}

// registersCallback: a function of the module that keeps the function value it is given for a
// framework to call later (captured by a closure or stored, never called in its own body).
func (p *Prog) registersCallback(c *CallSite) bool {
	fn := c.Callee
	if fn == nil || !p.inModule(fn) || fn.Parent() != nil {
		return false
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	got := false
	for i, prm := range fn.Params {
		if i >= len(c.Args) || c.Args[i].Fn == nil {
			continue
		}
		if _, ok := prm.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		if prm.Referrers() == nil || len(*prm.Referrers()) == 0 {
			return false
		}
		for _, r := range *prm.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == prm {
				return false
			}
		}
		got = true
	}
	if !got {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && thirdParty(ci.Common().StaticCallee()) {
				return true
			}
		}
	}
	return false
}

// isFallback: the function returns all results of one call unchanged ("return g(...)").
func isFallback(r *ssa.Return) bool {
	if r == nil || len(r.Results) == 0 {
		return false
	}
	var call *ssa.Call
	for i, v := range r.Results {
		switch x := v.(type) {
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok || x.Index != i || call != nil && call != c {
				return false
			}
			call = c
		case *ssa.Call:
			if len(r.Results) != 1 {
				return false
			}
			call = x
		default:
			return false
		}
	}
	return call != nil && call.Call.Signature().Results().Len() >= 2
}
