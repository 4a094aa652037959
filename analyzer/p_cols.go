package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R01: what is written to a column is what is read back from it. Every value bound to a column is
// traced back to the struct fields it is made from, every scanned column forward to the struct
// fields it ends up in, and the two maps are compared.

type colAna struct {
	p   *Prog
	cfg *flowConfig
	s   *dbSchema
	r   *Result
	// table -> field (normalised) -> columns it is written to
	writes     map[string]map[string]map[string]bool
	loads      map[string][]ssa.Value // loads of fields of unexported structs
	readFields map[string]bool        // fields filled from the database
	dump       bool
	fieldsOf   map[string]map[string]bool // exported struct type -> its fields, normalised
	fieldName  map[string]string
	pending    []func()
}

func normName(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// sqlStmt: a database call with its statement templates and its argument list.
type sqlCall struct {
	in    ssa.CallInstruction
	name  string
	texts []Seq
	args  ssa.Value   // the variadic slice
	list  []ssa.Value // its elements if it is a literal
}

// stmtOf returns the statement a database call runs.
func (c *colAna) stmtOf(in ssa.CallInstruction) *sqlCall {
	com := in.Common()
	name := callName(com)
	if !dbUse(name) {
		return nil
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	if !strings.HasPrefix(m, "Exec") && !strings.HasPrefix(m, "Query") {
		return nil
	}
	x := &sqlCall{in: in, name: name}
	for _, a := range com.Args {
		if isStringType(a.Type()) {
			x.texts = c.p.texts(a)
			break
		}
	}
	if strings.HasPrefix(name, "(*database/sql.Stmt)") && len(com.Args) > 0 {
		for _, pr := range c.origins(com.Args[0], "Prepare", map[ssa.Value]bool{}) {
			for _, a := range pr.Common().Args {
				if isStringType(a.Type()) {
					x.texts = append(x.texts, c.p.texts(a)...)
				}
			}
		}
	}
	if n := len(com.Args); n > 0 {
		if _, ok := com.Args[n-1].Type().Underlying().(*types.Slice); ok {
			x.args = com.Args[n-1]
			x.list = c.p.literalList(x.args)
		}
	}
	return x
}

// origins traces a *Rows, *Row or *Stmt back to the calls that made it.
func (c *colAna) origins(v ssa.Value, method string, seen map[ssa.Value]bool) []ssa.CallInstruction {
	if seen[v] || len(seen) > 200 {
		return nil
	}
	seen[v] = true
	var r []ssa.CallInstruction
	switch x := v.(type) {
	case *ssa.Extract:
		return c.origins(x.Tuple, method, seen)
	case *ssa.Call:
		n := callName(&x.Call)
		if dbUse(n) && strings.HasPrefix(n[strings.LastIndexByte(n, '.')+1:], method) {
			return []ssa.CallInstruction{x}
		}
		if fn := x.Call.StaticCallee(); fn != nil && fn.Blocks != nil && c.p.inModule(fn) {
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if strings.Contains(types.TypeString(res.Type(), nil), "database/sql.") {
							r = append(r, c.origins(res, method, seen)...)
						}
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			r = append(r, c.origins(e, method, seen)...)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return c.origins(x.X, method, seen)
		}
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
				r = append(r, c.origins(s.Val, method, seen)...)
			}
		}
	case *ssa.MakeInterface:
		return c.origins(x.X, method, seen)
	case *ssa.ChangeInterface:
		return c.origins(x.X, method, seen)
	case *ssa.FreeVar:
		if b := freeBinding(x); b != nil {
			return c.origins(b, method, seen)
		}
	case *ssa.Parameter:
		i := paramIndex(x)
		for _, cs := range c.cfg.callSites[x.Parent()] {
			if com := cs.Common(); !com.IsInvoke() && i < len(com.Args) {
				r = append(r, c.origins(com.Args[i], method, seen)...)
			}
		}
	}
	return r
}

func freeBinding(x *ssa.FreeVar) ssa.Value {
	fn := x.Parent()
	for i, fv := range fn.FreeVars {
		if fv != x || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

// moduleField: the field of a struct type of the module; ok is false for others.
func (c *colAna) moduleField(x types.Type, i int) (typ, field string, exported, ok bool) {
	if p, isP := x.Underlying().(*types.Pointer); isP {
		x = p.Elem()
	}
	n, isN := x.(*types.Named)
	st, isS := x.Underlying().(*types.Struct)
	if !isS {
		return
	}
	field = st.Field(i).Name()
	if !isN {
		return "struct", field, false, true
	}
	if n.Obj().Pkg() == nil || c.p.byPath[n.Obj().Pkg().Path()] == nil {
		return "", field, false, false
	}
	return n.Obj().Name(), field, n.Obj().Exported(), true
}

// forward flow of a scanned column
type colFwd struct {
	c      *colAna
	fields map[string]bool // "Type.Field"
	esc    bool            // it also goes where it is not followed
	seen   map[ssa.Value]bool
	depth  int
	into   map[*ssa.Function][]ssa.CallInstruction // calls the value went into: results come back there
}

func (f *colFwd) ptr(v ssa.Value) {
	if f.seen[v] || len(f.seen) > 400 {
		return
	}
	f.seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		f.ptr(x.X)
		return
	case *ssa.FieldAddr:
		f.field(x)
		return
	case *ssa.FreeVar:
		if b := freeBinding(x); b != nil {
			f.ptr(b)
		}
	}
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL {
				f.val(u)
			}
		case *ssa.FieldAddr:
			if _, _, _, ok := f.c.moduleField(u.X.Type(), u.Field); !ok {
				f.ptr(u) // a part of a NullString and the like
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					f.ptr(u.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		}
	}
}

// field: the value is in a struct field.
func (f *colFwd) field(x *ssa.FieldAddr) {
	typ, name, exported, ok := f.c.moduleField(x.X.Type(), x.Field)
	if !ok {
		// a part of a library struct
		if x.Referrers() != nil {
			for _, ref := range *x.Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
					f.val(u)
				}
			}
		}
		return
	}
	if exported {
		f.fields[typ+"."+name] = true
		return
	}
	// a private carrier: go on where it is read
	for _, l := range f.c.loads[typ+"."+name] {
		if typ == "struct" && l.Parent() != x.Parent() {
			continue
		}
		f.val(l)
	}
}

func carries(t types.Type) bool {
	if isErrorType(t) || isBoolType(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return carries(u.Elem())
	case *types.Map:
		return true
	case *types.Interface:
		return true
	case *types.Struct:
		return types.TypeString(t, nil) == "time.Time"
	case *types.Pointer:
		return carries(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (f *colFwd) val(v ssa.Value) {
	if f.seen[v] || len(f.seen) > 400 || v.Referrers() == nil {
		return
	}
	f.seen[v] = true
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			switch a := u.Addr.(type) {
			case *ssa.FieldAddr:
				f.field(a)
			case *ssa.IndexAddr:
				f.val(a.X)
			case *ssa.Global, *ssa.Parameter:
				f.esc = true
			default:
				f.ptr(u.Addr)
			}
		case *ssa.MapUpdate:
			if u.Value == v || !keyGuards(u.Map) {
				f.esc = true
			}
		case *ssa.Send, *ssa.MakeClosure:
			f.esc = true
		case *ssa.Return:
			f.result(u, v)
		case *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice, *ssa.Phi, *ssa.TypeAssert, *ssa.Extract:
			if carries(u.(ssa.Value).Type()) {
				f.val(u.(ssa.Value))
			}
		case *ssa.UnOp:
			if u.Op == token.MUL {
				f.val(u)
			}
		case *ssa.FieldAddr:
			if _, _, _, ok := f.c.moduleField(u.X.Type(), u.Field); !ok {
				f.val(u)
			}
		case *ssa.Field:
			if _, _, _, ok := f.c.moduleField(u.X.Type(), u.Field); !ok {
				f.val(u)
			}
		case *ssa.BinOp:
			if u.Op == token.ADD {
				f.val(u)
			}
		case *ssa.Defer, *ssa.Go:
			f.esc = true
		case *ssa.Call:
			com := u.Common()
			if com.StaticCallee() == nil {
				if _, b := com.Value.(*ssa.Builtin); !b && keepsArgs(com) {
					f.esc = true
				}
			}
			if carries(u.Type()) || u.Type() != nil && isTuple(u.Type()) {
				f.val(u)
			}
			for _, a := range com.Args {
				if a == v {
					continue
				}
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if _, isP := a.Type().Underlying().(*types.Pointer); isP {
					switch a.(type) {
					case *ssa.Alloc, *ssa.FieldAddr:
						if com.StaticCallee() == nil || !f.c.p.inModule(com.StaticCallee()) {
							f.ptr(a)
						}
					}
				}
			}
			if fn := com.StaticCallee(); fn != nil && fn.Blocks != nil && f.c.p.inModule(fn) && f.depth < 4 {
				for i, a := range com.Args {
					if a == v && i < len(fn.Params) {
						if f.into == nil {
							f.into = map[*ssa.Function][]ssa.CallInstruction{}
						}
						f.into[fn] = append(f.into[fn], u)
						f.depth++
						f.val(fn.Params[i])
						f.depth--
					}
				}
			}
		}
	}
}

// keyGuards: the keys of the map are only looked up, never taken out again.
func keyGuards(m ssa.Value) bool {
	mk, ok := m.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, r := range *mk.Referrers() {
		switch r.(type) {
		case *ssa.MapUpdate, *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Range:
			for _, q := range *r.(ssa.Value).Referrers() {
				nx, ok := q.(*ssa.Next)
				if !ok {
					return false
				}
				for _, e := range *nx.Referrers() {
					if ex, ok := e.(*ssa.Extract); ok && ex.Index == 1 && len(*ex.Referrers()) > 0 {
						return false
					}
				}
			}
		case *ssa.Call:
			b, ok := r.(*ssa.Call).Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "delete" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// keepsArgs: an unknown function may pass on what it is given: its result can carry it, or it gets
// something to put it in. A similarity of two vectors does neither.
func keepsArgs(com *ssa.CallCommon) bool {
	sig := com.Signature()
	num := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric != 0
	}
	if sig.Results().Len() == 1 && num(sig.Results().At(0).Type()) && !com.IsInvoke() {
		vecs := sig.Params().Len() > 0
		for i := 0; i < sig.Params().Len(); i++ {
			s, ok := sig.Params().At(i).Type().Underlying().(*types.Slice)
			vecs = vecs && ok && num(s.Elem())
		}
		if vecs {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if carries(sig.Results().At(i).Type()) {
			return true
		}
	}
	if com.IsInvoke() || sig.Results().Len() == 0 {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		switch t := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if _, ok := t.Elem().Underlying().(*types.Basic); !ok {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// result: the value is returned, so it goes on at the call sites.
func (f *colFwd) result(ret *ssa.Return, v ssa.Value) {
	fn := ret.Parent()
	sites := f.c.cfg.callSites[fn]
	if s := f.into[fn]; len(s) > 0 {
		sites = s
	}
	if len(sites) == 0 || f.depth >= 4 {
		f.esc = true
		return
	}
	f.depth++
	for i, res := range ret.Results {
		if res != v {
			continue
		}
		for _, cs := range sites {
			call := cs.Value()
			if call == nil || call.Common().IsInvoke() {
				f.esc = true
				continue
			}
			if len(ret.Results) == 1 {
				f.val(call)
				continue
			}
			for _, ref := range *call.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
					f.val(ex)
				}
			}
		}
	}
	f.depth--
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// backward flow of a bound value
type colBack struct {
	c      *colAna
	fields map[string]bool
	seen   map[ssa.Value]bool
	depth  int
	lost   bool          // part of it could not be followed
	stop   *ssa.Function // whose parameters end the search
	hit    map[int]bool  // the parameters reached
}

func (f *colBack) val(v ssa.Value) {
	if v == nil || f.seen[v] {
		return
	}
	if len(f.seen) > 400 {
		f.lost = true
		return
	}
	f.seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		f.val(x.X)
	case *ssa.ChangeInterface:
		f.val(x.X)
	case *ssa.ChangeType:
		f.val(x.X)
	case *ssa.Convert:
		f.val(x.X)
	case *ssa.Slice:
		f.val(x.X)
	case *ssa.TypeAssert:
		f.val(x.X)
	case *ssa.Extract:
		f.val(x.Tuple)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.val(e)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			f.val(x.X)
			f.val(x.Y)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			f.loc(x.X)
		}
	case *ssa.Field:
		if t, n, exp, ok := f.c.moduleField(x.X.Type(), x.Field); ok && exp {
			f.fields[t+"."+n] = true
			return
		}
		f.val(x.X)
	case *ssa.Lookup:
		f.val(x.X)
	case *ssa.Next:
		f.val(x.Iter)
	case *ssa.Range:
		f.val(x.X)
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && fn.Blocks != nil && f.c.p.inModule(fn) && f.depth < 4 {
			// only the arguments the result is made of
			sub := &colBack{c: f.c, fields: f.fields, seen: map[ssa.Value]bool{}, depth: f.depth + 1, stop: fn, hit: map[int]bool{}}
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if !isErrorType(res.Type()) {
							sub.val(res)
						}
					}
				}
			}
			f.lost = f.lost || sub.lost
			for _, a := range x.Call.Args {
				if len(sub.hit) == 0 && carriesIn(a.Type()) && !isStringType(a.Type()) {
					f.val(a) // the result is built in a buffer
				}
			}
			for i := range sub.hit {
				if i < len(x.Call.Args) {
					f.val(x.Call.Args[i])
				}
			}
			return
		}
		if _, b := x.Call.Value.(*ssa.Builtin); !b && x.Call.StaticCallee() == nil {
			f.lost = true
		}
		vec := makesVector(x.Type())
		for _, a := range x.Call.Args {
			if carriesIn(a.Type()) && !(vec && isStringType(a.Type())) {
				f.val(a)
			}
		}
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
		f.loc(v)
	case *ssa.MakeMap:
		for _, ref := range *x.Referrers() {
			if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == x {
				f.val(mu.Value)
			}
		}
	case *ssa.Parameter:
		if f.stop != nil && x.Parent() == f.stop {
			f.hit[paramIndex(x)] = true
			return
		}
		if f.depth < 3 {
			f.depth++
			i := paramIndex(x)
			for _, cs := range f.c.cfg.callSites[x.Parent()] {
				if com := cs.Common(); !com.IsInvoke() && i < len(com.Args) {
					f.val(com.Args[i])
				}
			}
			f.depth--
		} else {
			f.lost = true
		}
	case *ssa.Const:
	case *ssa.FreeVar:
		if b := freeBinding(x); b != nil {
			f.val(b)
		} else {
			f.lost = true
		}
	case *ssa.MakeSlice:
		f.loc(x)
	default:
		f.lost = true
	}
}

// makesVector: a call with such a result makes an embedding of a text, which is not the text.
func makesVector(t types.Type) bool {
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if makesVector(tp.At(i).Type()) {
				return true
			}
		}
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func carriesIn(t types.Type) bool {
	if isCtxType(t) {
		return false
	}
	return carries(t)
}

func (f *colBack) loc(a ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t, n, exp, ok := f.c.moduleField(x.X.Type(), x.Field)
		if ok && exp {
			f.fields[t+"."+n] = true
			return
		}
		if ok {
			f.lost = true
			return
		}
		f.val(x.X)
	case *ssa.IndexAddr:
		f.val(x.X)
	case *ssa.MakeSlice:
		for _, ref := range *x.Referrers() {
			if u, ok := ref.(*ssa.IndexAddr); ok {
				for _, r2 := range *u.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == u {
						f.val(st.Val)
					}
				}
			}
		}
	case *ssa.Alloc:
		f.seen[x] = true
		for _, ref := range *x.Referrers() {
			switch u := ref.(type) {
			case *ssa.Store:
				if u.Addr == x {
					f.val(u.Val)
				}
			case *ssa.FieldAddr:
				if _, _, _, ok := f.c.moduleField(u.X.Type(), u.Field); ok {
					continue
				}
				for _, r2 := range *u.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == u {
						f.val(st.Val)
					}
				}
			case *ssa.IndexAddr:
				for _, r2 := range *u.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == u {
						f.val(st.Val)
					}
				}
			}
		}
	case *ssa.FreeVar:
		if b := freeBinding(x); b != nil {
			f.loc(b)
		}
	}
}

func (c *colAna) bad(rule, construct, pos, msg string) {
	c.r.add(&Finding{Rule: rule, Construct: construct, Pos: pos, Msg: msg})
}

// source returns the fields a bound value is made from.
func (c *colAna) source(v ssa.Value) (map[string]bool, bool) {
	f := &colBack{c: c, fields: map[string]bool{}, seen: map[ssa.Value]bool{}}
	f.val(v)
	return f.fields, f.lost
}

// column a select expression shows: "t.c", or "" if it is computed from more than one.
func (c *colAna) selCol(s *selStmt, e []sqlTok) (table, col string) {
	n := 0
	for i := 0; i < len(e); i++ {
		t := e[i]
		if t.hole != "" || t.star != nil {
			return "", ""
		}
		if t.is("as") {
			break
		}
		if t.is("count") || t.is("sum") || t.is("avg") || t.is("min") || t.is("max") || t.is("bm25") || t.is("json_extract") || t.is("select") || t.is("case") || t.is("length") || t.is("exists") {
			return "", ""
		}
		if sqlWord.MatchString(t.s) && t.raw != "" && t.s != "'" {
			if i+1 < len(e) && e[i+1].is("(") {
				continue // function
			}
			if i+2 < len(e) && e[i+1].is(".") {
				tb := s.tableOf(t.s)
				if tb == "" {
					return "", ""
				}
				table, col = tb, e[i+2].s
				n++
				i += 2
				continue
			}
			for _, tr := range s.tables {
				if d := c.s.tables[tr.name]; d != nil && d.has(t.s) {
					if table == "" || n == 0 {
						table, col = tr.name, t.s
					}
				}
			}
			if col == t.s {
				n++
			}
		}
	}
	if n != 1 {
		return "", ""
	}
	return table, col
}

// wanted returns the columns of a table a field belongs to.
func (c *colAna) wanted(table, field string) map[string]bool {
	r := map[string]bool{}
	t := c.s.tables[table]
	if t == nil {
		return r
	}
	nf := normName(field[strings.IndexByte(field, '.')+1:])
	for _, col := range t.cols {
		if normName(col) == nf {
			r[col] = true
		}
	}
	if len(r) == 0 {
		for col := range c.writes[table][nf] {
			r[col] = true
		}
	}
	return r
}

func (c *colAna) bound(x *sqlCall, toks []sqlTok, at int) ssa.Value {
	if x.list == nil || at >= len(toks) {
		return nil
	}
	n, ok := placeholders(toks[:at])
	if !ok || n >= len(x.list) {
		return nil
	}
	return x.list[n]
}

// checkBinding: the value bound to a column must not be one that belongs to another column.
func (c *colAna) checkBinding(x *sqlCall, table, col string, v ssa.Value, cols []string, what string) map[string]bool {
	src, lost := c.source(v)
	c.r.Counts["bound_columns"]++
	if c.dump {
		fmt.Fprintf(os.Stderr, "  WRITE %s.%s <- %v (%s)\n", table, col, sortedKeys(src), c.p.pos(x.in.Pos()))
	}
	own := false
	other := ""
	for f := range src {
		nf := normName(f[strings.IndexByte(f, '.')+1:])
		if c.writes[table] == nil {
			c.writes[table] = map[string]map[string]bool{}
		}
		if len(src) == 1 {
			if c.writes[table][nf] == nil {
				c.writes[table][nf] = map[string]bool{}
			}
			c.writes[table][nf][col] = true
		}
		if nf == normName(col) {
			own = true
			continue
		}
		for _, o := range cols {
			if o != col && normName(o) == nf {
				other = f
			}
		}
	}
	if lost {
		own = true
		c.r.Counts["unfollowed"]++
	}
	if other != "" && !own {
		c.bad("binding", fmt.Sprintf("%s %s.%s", fnName(x.in.Parent()), table, col), c.p.pos(x.in.Pos()), fmt.Sprintf("%s of column %s.%s is bound to %s, which belongs to another column", what, table, col, other))
	}
	if lost {
		return nil
	}
	return src
}

func hasParam(e []sqlTok) (int, bool) {
	for i, t := range e {
		if t.is("?") {
			return i, true
		}
	}
	return 0, false
}

// keepsOld: the new value of the column may be its old one.
func keepsOld(e []sqlTok, table, col string) bool {
	for i, t := range e {
		if !t.is(col) || i+1 < len(e) && (e[i+1].is("(") || e[i+1].is(".")) {
			continue
		}
		if i >= 2 && e[i-1].is(".") && !e[i-2].is(table) {
			continue // excluded.col
		}
		return true
	}
	return false
}

// otherArity: the call runs one of several statements, and its arguments fit one of them.
func (c *colAna) otherArity(x *sqlCall) bool {
	for _, t := range x.texts {
		if n, exact := placeholders(sqlTokens(t)); !exact || n == len(x.list) {
			return true
		}
	}
	return false
}

func (c *colAna) checkCall(x *sqlCall) {
	pos := c.p.pos(x.in.Pos())
	fn := fnName(x.in.Parent())
	for _, t := range x.texts {
		toks := sqlTokens(t)
		if len(toks) == 0 {
			continue
		}
		c.r.Counts["statements"]++
		if n, exact := placeholders(toks); exact && x.list != nil && n != len(x.list) && !c.otherArity(x) {
			c.bad("arity", fn+" arguments", pos, fmt.Sprintf("the statement has %d placeholders but %d arguments", n, len(x.list)))
		}
		if ins := parseInsert(toks); ins != nil && !ins.sel && len(ins.cols) > 0 {
			tb := c.s.tables[ins.table]
			if len(ins.vals) != len(ins.cols) {
				c.bad("arity", fn+" INSERT "+ins.table, pos, fmt.Sprintf("%d columns but %d values", len(ins.cols), len(ins.vals)))
				continue
			}
			src, have := map[string]map[string]bool{}, map[string]bool{}
			for i, col := range ins.cols {
				have[col] = true
				if tb != nil && !tb.has(col) {
					c.bad("unknown", fn+" "+ins.table+"."+col, pos, fmt.Sprintf("table %s has no column %s", ins.table, col))
				}
				if len(ins.vals[i]) == 1 && ins.vals[i][0].is("?") {
					if v := c.bound(x, toks, ins.valAt[i]); v != nil {
						src[col] = c.checkBinding(x, ins.table, col, v, ins.cols, "the value")
					}
				}
			}
			c.writeComplete(x, ins.table, src, have, nil)
			if ins.doWhat == "update" {
				c.r.Counts["upserts"]++
				for _, col := range ins.cols {
					key := col == "created_at"
					for _, k := range ins.conflict {
						key = key || k == col
					}
					if key {
						continue
					}
					e, ok := ins.set[col]
					if !ok {
						c.bad("upsert", fn+" "+ins.table+"."+col, pos, fmt.Sprintf("writing %s again under the same key keeps the old %s", ins.table, col))
						continue
					}
					for j := 0; j+2 < len(e); j++ {
						if e[j].is("excluded") && e[j+1].is(".") && !e[j+2].is(col) {
							c.bad("upsert", fn+" "+ins.table+"."+col, pos, fmt.Sprintf("writing %s again stores the new %s in column %s", ins.table, e[j+2].s, col))
						}
					}
					if keepsOld(e, ins.table, col) {
						c.bad("upsert", fn+" "+ins.table+"."+col, pos, fmt.Sprintf("writing %s again under the same key keeps the old %s", ins.table, col))
					}
				}
			}
		}
		if len(toks) > 3 && toks[0].is("update") && toks[2].is("set") {
			set, at := parseSet(toks, 3)
			tb := toks[1].s
			var cols []string
			if d := c.s.tables[tb]; d != nil {
				cols = d.cols
			}
			src, have := map[string]map[string]bool{}, map[string]bool{}
			for _, col := range sortedKeys(set) {
				have[col] = true
				if _, isParam := hasParam(set[col]); isParam && keepsOld(set[col], tb, col) {
					c.bad("upsert", fn+" "+tb+"."+col, pos, fmt.Sprintf("updating %s keeps the old %s for some new values", tb, col))
				}
				if len(set[col]) == 1 && set[col][0].is("?") {
					if v := c.bound(x, toks, at[col]); v != nil {
						src[col] = c.checkBinding(x, tb, col, v, cols, "the new value")
					}
				}
			}
			where := map[string]bool{}
			for i, past := 0, false; i < len(toks); i++ {
				past = past || toks[i].is("where")
				if past {
					where[toks[i].s] = true
				}
			}
			c.writeComplete(x, tb, src, have, where)
		}
	}
}

// otherScan: another Scan of the function takes rows of n columns.
func (c *colAna) otherScan(in ssa.CallInstruction, n int) bool {
	for _, b := range in.Parent().Blocks {
		for _, o := range b.Instrs {
			if ci, ok := o.(ssa.CallInstruction); ok && ci != in && isScan(ci) {
				if l := c.p.literalList(ci.Common().Args[len(ci.Common().Args)-1]); l == nil || len(l) == n {
					return true
				}
			}
		}
	}
	return false
}

func isScan(ci ssa.CallInstruction) bool {
	n := callName(ci.Common())
	return n == "(*database/sql.Rows).Scan" || n == "(*database/sql.Row).Scan" || ci.Common().IsInvoke() && ci.Common().Method.Name() == "Scan" && ci.Common().Signature().Variadic()
}

// checkScan: the columns of the statements against the variables they are scanned into.
func (c *colAna) checkScan(in ssa.CallInstruction) {
	com := in.Common()
	var recv ssa.Value
	if com.IsInvoke() {
		recv = com.Value
	} else {
		recv = com.Args[0]
	}
	dests := c.p.literalList(com.Args[len(com.Args)-1])
	if dests == nil {
		return
	}
	qs := c.origins(recv, "Query", map[ssa.Value]bool{})
	c.r.Counts["scans"]++
	fields := make([]map[string]bool, len(dests))
	esc := make([]bool, len(dests))
	for i, d := range dests {
		f := &colFwd{c: c, fields: map[string]bool{}, seen: map[ssa.Value]bool{}}
		f.ptr(d)
		fields[i], esc[i] = f.fields, f.esc
	}
	fn := fnName(in.Parent())
	done := map[string]bool{}
	for _, q := range qs {
		x := c.stmtOf(q)
		if x == nil {
			continue
		}
		for _, t := range x.texts {
			s := parseSelect(sqlTokens(t))
			if s == nil || len(s.cols) == 0 {
				continue
			}
			star, holes := false, false
			for _, e := range s.cols {
				if len(e) > 0 && e[len(e)-1].is("*") && len(e) <= 3 {
					star = true
				}
				for _, k := range e {
					if k.hole != "" || k.star != nil {
						holes = true
					}
				}
			}
			if star || holes {
				continue
			}
			c.r.Counts["scan_pairs"]++
			if len(s.cols) != len(dests) && c.otherScan(in, len(s.cols)) {
				continue // the function chooses by the number of columns
			}
			if len(s.cols) != len(dests) {
				c.bad("arity", fn+" Scan", c.p.pos(in.Pos()), fmt.Sprintf("the query at %s yields %d columns, scanned into %d variables", c.p.pos(q.Pos()), len(s.cols), len(dests)))
				continue
			}
			// field -> columns
			got := map[string]map[string]bool{}
			for i := range s.cols {
				for f := range fields[i] {
					c.readFields[f] = true
				}
			}
			for i, e := range s.cols {
				tb, col := c.selCol(s, e)
				for f := range fields[i] {
					if got[f] == nil {
						got[f] = map[string]bool{}
					}
					got[f][tb+"."+col] = true
				}
				if c.dump {
					fmt.Fprintf(os.Stderr, "  READ %s %s.%s -> %v (%s)\n", fn, tb, col, sortedKeys(fields[i]), c.p.pos(q.Pos()))
				}
				c.r.Counts["scanned_columns"]++
			}
			for i, e := range s.cols {
				tb, col := c.selCol(s, e)
				if tb != "" && len(s.cols) >= 3 && col != "id" && unread(dests[i], in) && c.recordHas(got, s, tb, col) {
					if k := fn + tb + col; !done[k] {
						done[k] = true
						c.bad("unread", fn+" "+tb+"."+col, c.p.pos(in.Pos()), fmt.Sprintf("the %s of the row is read into a variable nothing uses", col))
					}
				}
			}
			if len(s.cols) >= 3 {
				c.readComplete(in, q, s, got, esc, fn)
			}
			for _, f := range sortedKeys(got) {
				if got[f]["."] {
					continue // partly computed
				}
				want := map[string]bool{}
				for _, tr := range s.tables {
					for w := range c.wanted(tr.name, f) {
						want[tr.name+"."+w] = true
					}
				}
				if len(want) == 0 {
					continue
				}
				ok := false
				for g := range got[f] {
					ok = ok || want[g]
				}
				if k := fn + f; !ok && !done[k] {
					done[k] = true
					c.bad("mapping", fn+" "+f, c.p.pos(in.Pos()), fmt.Sprintf("field %s is read from %s, but is stored in %s", f, strings.Join(sortedKeys(got[f]), ", "), strings.Join(sortedKeys(want), ", ")))
				}
			}
		}
	}
}

// recordHas: a record filled from the row has a field for the column, or for the named row it refers to.
func (c *colAna) recordHas(got map[string]map[string]bool, s *selStmt, tb, col string) bool {
	if d := c.s.tables[tb]; d != nil && s.joins(d, col) {
		return false
	}
	want := normName(col)
	if col == "name" && tb != s.tables[0].name {
		want = normName(strings.TrimSuffix(tb, "s"))
	}
	n := map[string]int{}
	for f := range got {
		t, _, _ := strings.Cut(f, ".")
		n[t]++
	}
	for t, k := range n {
		if k >= 2 && c.fieldsOf[t][want] {
			return true
		}
	}
	return false
}

// unread: the variable a column is scanned into is used for nothing else.
func unread(d ssa.Value, scan ssa.CallInstruction) bool {
	if mi, ok := d.(*ssa.MakeInterface); ok {
		d = mi.X
	}
	al, ok := d.(*ssa.Alloc)
	if !ok {
		return false
	}
	var used func(v ssa.Value) bool
	used = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.MakeInterface:
				for _, q := range *u.Referrers() {
					st, ok := q.(*ssa.Store)
					if !ok {
						return true
					}
					if ia, ok := st.Addr.(*ssa.IndexAddr); !ok || !intoScan(ia) {
						return true
					}
				}
			case *ssa.Store:
				if u.Addr != v {
					return true
				}
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if used(u) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return !used(al)
}

// intoScan: the array of a variadic call of Scan.
func intoScan(ia *ssa.IndexAddr) bool {
	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, q := range *sl.Referrers() {
			ci, ok := q.(ssa.CallInstruction)
			if !ok || !isScan(ci) {
				return false
			}
		}
	}
	return true
}

// readComplete: a record that is built from a row takes over all the columns it has a field for.
func (c *colAna) readComplete(in, q ssa.CallInstruction, s *selStmt, got map[string]map[string]bool, esc []bool, fn string) {
	n := map[string]map[string]bool{}
	for f := range got {
		t, name, _ := strings.Cut(f, ".")
		if n[t] == nil {
			n[t] = map[string]bool{}
		}
		n[t][normName(name)] = true
	}
	away := map[string]bool{} // columns whose value could not be followed everywhere
	for i, e := range s.cols {
		tb, col := c.selCol(s, e)
		if esc[i] || tb == "" {
			away[col] = true
			for _, k := range e {
				away[k.s] = true
			}
		}
	}
	// the table the record comes from: the one most columns are taken of
	main, most := s.tables[0].name, 0
	taken, picked := map[string]int{}, map[string]bool{}
	for _, e := range s.cols {
		if tb, col := c.selCol(s, e); tb != "" {
			taken[tb]++
			picked[tb+"."+col] = true
		}
	}
	for _, tb := range s.tables {
		if taken[tb.name] > most && c.s.tables[tb.name] != nil {
			main, most = tb.name, taken[tb.name]
		}
	}
	for _, t := range sortedKeys(n) {
		if len(n[t]) < 3 {
			continue
		}
		has := c.fieldsOf[t]
		d := c.s.tables[main]
		if d == nil {
			continue
		}
		for _, col := range d.cols {
			nc := normName(col)
			if !has[nc] || away[col] || s.joins(d, col) {
				continue
			}
			if main != s.tables[0].name && !picked[main+"."+col] {
				continue // a listing of some columns of a joined table
			}
			c.r.Counts["record_fields"]++
			if !n[t][nc] {
				c.bad("dropped", fn+" "+t+"."+c.fieldName[t+"."+nc], c.p.pos(in.Pos()), fmt.Sprintf("the %s built from the query at %s leaves out the stored %s", t, c.p.pos(q.Pos()), col))
			}
		}
	}
}

func (c *colAna) writeComplete(x *sqlCall, table string, src map[string]map[string]bool, cols, where map[string]bool) {
	n := map[string]int{}
	for _, fs := range src {
		for f := range fs {
			n[f[:strings.IndexByte(f, '.')]]++
		}
	}
	d := c.s.tables[table]
	if d == nil {
		return
	}
	for _, t := range sortedKeys(n) {
		if n[t] < 3 {
			continue
		}
		for _, col := range d.cols {
			nc := normName(col)
			if !c.fieldsOf[t][nc] || where[col] || nc == "createdat" || nc == "updatedat" {
				continue
			}
			if !cols[col] {
				c.bad("unstored", fnName(x.in.Parent())+" "+table+"."+col, c.p.pos(x.in.Pos()), fmt.Sprintf("the statement stores a %s but not its %s", t, c.fieldName[t+"."+nc]))
			} else if src[col] != nil && !src[col][t+"."+c.fieldName[t+"."+nc]] {
				c.bad("unstored", fnName(x.in.Parent())+" "+table+"."+col, c.p.pos(x.in.Pos()), fmt.Sprintf("the value stored in %s does not come from the %s of the %s", col, c.fieldName[t+"."+nc], t))
			}
		}
	}
}

// joins: the column is a reference the query follows into a table it also reads.
func (s *selStmt) joins(d *dbTable, col string) bool {
	for _, fk := range d.fks {
		if fk.col != col {
			continue
		}
		for _, tr := range s.tables[1:] {
			if tr.name == fk.ref {
				return true
			}
		}
	}
	return false
}

func init() {
	register("R01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"statements": 80, "scan_pairs": 25, "scanned_columns": 120, "bound_columns": 50, "upserts": 4}}
		c := &colAna{p: p, cfg: p.flowCfg(), s: p.schema(), r: r, writes: map[string]map[string]map[string]bool{}, loads: map[string][]ssa.Value{}, dump: os.Getenv("COL_DUMP") != ""}
		c.readFields = map[string]bool{}
		c.fieldsOf, c.fieldName = map[string]map[string]bool{}, map[string]string{}
		for _, pk := range p.byPath {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				if st, ok := tn.Type().Underlying().(*types.Struct); ok && tn.Exported() {
					m := map[string]bool{}
					for i := 0; i < st.NumFields(); i++ {
						m[normName(st.Field(i).Name())] = true
						c.fieldName[n+"."+normName(st.Field(i).Name())] = st.Field(i).Name()
					}
					c.fieldsOf[n] = m
				}
			}
		}
		for _, fn := range p.allFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.UnOp:
						if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
							if t, n, exp, ok := c.moduleField(fa.X.Type(), fa.Field); ok && !exp {
								c.loads[t+"."+n] = append(c.loads[t+"."+n], x)
							}
						}
					case *ssa.Field:
						if t, n, exp, ok := c.moduleField(x.X.Type(), x.Field); ok && !exp {
							c.loads[t+"."+n] = append(c.loads[t+"."+n], x)
						}
					}
				}
			}
		}
		var scans []ssa.CallInstruction
		for _, fn := range p.allFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if x := c.stmtOf(ci); x != nil {
						c.checkCall(x)
					}
					if isScan(ci) {
						scans = append(scans, ci)
					}
				}
			}
		}
		for _, s := range scans {
			c.checkScan(s)
		}
		c.partialCopies()
		c.nulls()
		c.serialised()
		sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
		return r
	})
}

// partialCopies: a record made by copying another one of the same type field by field takes over
// every field.
func (c *colAna) partialCopies() {
	for _, fn := range c.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				nt, ok := a.Type().(*types.Pointer).Elem().(*types.Named)
				if !ok || nt.Obj().Pkg() == nil || c.p.byPath[nt.Obj().Pkg().Path()] == nil {
					continue
				}
				st, ok := nt.Underlying().(*types.Struct)
				if !ok || st.NumFields() < 5 {
					continue
				}
				from := map[ssa.Value]map[int]bool{}
				set := map[int]bool{}
				whole := false
				for _, ref := range *a.Referrers() {
					switch u := ref.(type) {
					case *ssa.FieldAddr:
						for _, r2 := range *u.Referrers() {
							s, ok := r2.(*ssa.Store)
							if !ok || s.Addr != u {
								continue
							}
							if z, ok := s.Val.(*ssa.Const); !ok || z.Value != nil {
								set[u.Field] = true // clearing a field is not filling it
							}
							ld, ok := s.Val.(*ssa.UnOp)
							if !ok {
								continue
							}
							if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.Field == u.Field && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), nt) {
								if from[base(fa.X)] == nil {
									from[base(fa.X)] = map[int]bool{}
								}
								from[base(fa.X)][fa.Field] = true
							}
						}
					case *ssa.Store:
						if u.Addr == a {
							whole = true
						}
					case ssa.CallInstruction:
						whole = true // filled elsewhere
					}
				}
				if whole {
					continue
				}
				for _, fs := range from {
					if len(fs) < 4 {
						continue
					}
					c.r.Counts["copies"]++
					for i := 0; i < st.NumFields(); i++ {
						if f := nt.Obj().Name() + "." + st.Field(i).Name(); !set[i] && c.readFields[f] {
							c.bad("copy", fnName(fn)+" "+f, c.p.pos(a.Pos()), fmt.Sprintf("the copy of a stored %s leaves out its %s", nt.Obj().Name(), st.Field(i).Name()))
						}
					}
				}
			}
		}
	}
}

// nulls: a sql.NullString and the like made here is stored as NULL unless it is marked valid: the value
// put into it is lost otherwise.
func (c *colAna) nulls() {
	for _, fn := range c.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				nt, ok := derefT(a.Type()).(*types.Named)
				if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != "database/sql" || !strings.HasPrefix(nt.Obj().Name(), "Null") {
					continue
				}
				st, ok := nt.Underlying().(*types.Struct)
				if !ok || st.NumFields() != 2 {
					continue
				}
				var value, valid, whole bool
				for _, ref := range *a.Referrers() {
					switch u := ref.(type) {
					case *ssa.FieldAddr:
						for _, r2 := range *u.Referrers() {
							if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(u) {
								if k, isK := s.Val.(*ssa.Const); isK && (k.Value == nil || k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)) {
									continue
								}
								if st.Field(u.Field).Name() == "Valid" {
									valid = true
								} else {
									value = true
								}
							}
						}
					case *ssa.Store:
						whole = whole || u.Addr == ssa.Value(a)
					case *ssa.MakeInterface, ssa.CallInstruction, *ssa.MakeClosure:
						whole = true // scanned into, or filled elsewhere
					}
				}
				if whole || !value && !valid {
					continue
				}
				c.r.Counts["nullable_values"]++
				if value && !valid {
					c.bad("null", fnName(fn)+" "+a.Comment, c.p.pos(a.Pos()), "the value is not marked valid and is stored as NULL")
				}
				if valid && !value {
					c.bad("null", fnName(fn)+" "+a.Comment, c.p.pos(a.Pos()), "marked valid, but no value is put in")
				}
			}
		}
	}
}

// base: FieldAddr chains to the same field of the same address count as one value.
func base(v ssa.Value) ssa.Value {
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = fa.X
	}
}

// serialised: a type of the module that is both written and read as JSON keeps all its data fields.
func (c *colAna) serialised() {
	in, out := map[*types.Named]bool{}, map[*types.Named]bool{}
	var add func(m map[*types.Named]bool, t types.Type)
	add = func(m map[*types.Named]bool, t types.Type) {
		switch u := t.(type) {
		case *types.Named:
			st, ok := u.Underlying().(*types.Struct)
			if !ok {
				add(m, u.Underlying())
				return
			}
			if m[u] || u.Obj().Pkg() == nil || c.p.byPath[u.Obj().Pkg().Path()] == nil {
				return
			}
			m[u] = true
			for i := 0; i < st.NumFields(); i++ {
				add(m, st.Field(i).Type())
			}
		case *types.Pointer:
			add(m, u.Elem())
		case *types.Slice:
			add(m, u.Elem())
		case *types.Map:
			add(m, u.Elem())
		}
	}
	for _, fn := range c.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var m map[*types.Named]bool
				arg := 0
				switch callName(ci.Common()) {
				case "encoding/json.Marshal", "encoding/json.MarshalIndent":
					m = out
				case "(*encoding/json.Encoder).Encode":
					m, arg = out, 1
				case "encoding/json.Unmarshal":
					m, arg = in, 1
				case "(*encoding/json.Decoder).Decode":
					m, arg = in, 1
				default:
					continue
				}
				if mi, ok := ci.Common().Args[arg].(*ssa.MakeInterface); ok {
					add(m, mi.X.Type())
				}
			}
		}
	}
	for _, pk := range c.p.byPath {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || !in[nt] || !out[nt] {
				continue
			}
			c.r.Counts["json_types"]++
			st := nt.Underlying().(*types.Struct)
			names := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Embedded() {
					continue
				}
				switch f.Type().Underlying().(type) {
				case *types.Signature, *types.Interface, *types.Chan:
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				name, _, _ := strings.Cut(tag, ",")
				what := ""
				if !f.Exported() {
					continue
				}
				if tag == "-" {
					what = "is left out"
				}
				if name == "" {
					name = f.Name()
				}
				name = strings.ToLower(name)
				if o := names[name]; o != "" && what == "" {
					what = "has the key of " + o
				}
				names[name] = f.Name()
				if what != "" {
					c.bad("serial", n+"."+f.Name(), c.p.pos(f.Pos()), fmt.Sprintf("field %s of %s, which is written to and read from JSON, %s, so it does not come back", f.Name(), n, what))
				}
			}
		}
	}
}
