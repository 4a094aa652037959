package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S01: a demand-driven backward value-flow analysis. For every statement text handed to
// database/sql, all strings that can contribute to it are traced back through concatenation,
// formatting, builders, slices, maps, fields, calls and parameters (to every call site) until they
// end in constants or integers. Anything else is a violation.
type flow struct {
	p       *Prog
	sources map[string]string // description -> how it got there
	seen    map[flowKey]bool
	nodes   int
	cfg     *flowConfig
}

type flowKey struct {
	v ssa.Value
	k byte // s: string, l: elements of a slice/array, m: map values, k: map keys, b: builder
}

type flowConfig struct {
	fieldStores map[string][]*ssa.Store
	callSites   map[*ssa.Function][]ssa.CallInstruction
	globals     map[*ssa.Global][]ssa.Value
	valueUse    map[*ssa.Function]bool // used other than by a direct call
	byIface     map[*ssa.Function]bool
}

func (p *Prog) flowCfg() *flowConfig {
	if p.fcfg != nil {
		return p.fcfg
	}
	c := &flowConfig{fieldStores: map[string][]*ssa.Store{}, callSites: map[*ssa.Function][]ssa.CallInstruction{}, globals: map[*ssa.Global][]ssa.Value{}, valueUse: map[*ssa.Function]bool{}}
	for _, fn := range p.allFuncsAndInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldKey(a.X.Type(), a.Field)
						c.fieldStores[k] = append(c.fieldStores[k], x)
					case *ssa.Global:
						c.globals[a] = append(c.globals[a], x.Val)
					}
				case ssa.CallInstruction:
					com := x.Common()
					if f := com.StaticCallee(); f != nil {
						c.callSites[f] = append(c.callSites[f], x)
					} else if com.IsInvoke() {
						for _, f := range p.implementers(com) {
							c.callSites[f] = append(c.callSites[f], x)
						}
					}
				}
				var ops [10]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if f, ok := (*o).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == ssa.Value(f) && !argOf(ci, f) {
							continue
						}
						if _, isMC := in.(*ssa.MakeClosure); isMC {
							continue
						}
						c.valueUse[f] = true
					}
				}
			}
		}
	}
	p.fcfg = c
	return c
}

func argOf(c ssa.CallInstruction, f *ssa.Function) bool {
	for _, a := range c.Common().Args {
		if a == ssa.Value(f) {
			return true
		}
	}
	return false
}

func fieldKey(t types.Type, i int) string {
	t = derefT(t)
	n := ""
	if nt, ok := t.(*types.Named); ok {
		n = nt.String()
		if o := nt.Origin(); o != nil {
			n = o.String()
		}
	} else {
		n = t.String()
	}
	return n + "." + fieldName(t, i)
}

func (f *flow) src(what string, at ssa.Instruction, v ssa.Value) {
	pos := token.NoPos
	if at != nil {
		pos = at.Pos()
	}
	if pos == token.NoPos && v != nil {
		pos = v.Pos()
	}
	if f.sources[what] == "" {
		f.sources[what] = f.p.pos(pos)
	}
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean) != 0
}

// str traces the text of v, as used by instruction at (for dominating guards).
func (f *flow) str(v ssa.Value, at ssa.Instruction) {
	if v == nil || isNumeric(v.Type()) {
		return
	}
	if at != nil && guardedConst(v, at.Block()) {
		return
	}
	if f.seen[flowKey{v, 's'}] {
		return
	}
	f.seen[flowKey{v, 's'}] = true
	f.nodes++
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.BinOp:
		f.str(x.X, x)
		f.str(x.Y, x)
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if guardedEdge(e, p, x.Block()) {
				continue
			}
			f.str(e, p.Instrs[len(p.Instrs)-1])
		}
	case *ssa.Parameter:
		f.param(x, f.str)
	case *ssa.FreeVar:
		f.freeVar(x, f.str)
	case *ssa.MakeInterface:
		if isNumeric(x.X.Type()) {
			return
		}
		if sel := f.p.prog.MethodSets.MethodSet(x.X.Type()).Lookup(nil, "String"); sel != nil {
			if m := f.p.prog.MethodValue(sel); m != nil && f.p.inModule(m) {
				f.returns(m, 0, f.str)
				return
			}
		}
		f.str(x.X, x)
	case *ssa.ChangeType:
		f.str(x.X, x)
	case *ssa.Convert:
		f.str(x.X, x)
	case *ssa.ChangeInterface:
		f.str(x.X, x)
	case *ssa.TypeAssert:
		if !isStringType(x.AssertedType) && isNumeric(x.AssertedType) {
			return
		}
		f.str(x.X, x)
	case *ssa.Slice:
		if isStringType(x.X.Type()) {
			f.str(x.X, x)
		} else {
			f.elems(x, x)
		}
	case *ssa.Extract:
		f.tuple(x.Tuple, x.Index, x, f.str)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			f.load(x.X, x, f.str)
			return
		}
	case *ssa.Lookup:
		f.mapVals(x.X, x, false)
	case *ssa.Index:
		f.elems(x.X, x)
	case *ssa.Call:
		f.callStr(x)
	case *ssa.Field:
		f.field(x.X, x.Field, x, f.str)
	default:
		f.src(fmt.Sprintf("%s in %s", describe(v), fnName(v.Parent())), at, v)
	}
}

func describe(v ssa.Value) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "*ssa.") + " of type " + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

type follow func(v ssa.Value, at ssa.Instruction)

func (f *flow) param(x *ssa.Parameter, k follow) {
	fn := x.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == x {
			idx = i
		}
	}
	c := f.p.flowCfg()
	entry := fn.Parent() == nil && token.IsExported(fn.Name()) && exportedRecv(fn)
	if entry || c.valueUse[fn] && fn.Parent() == nil {
		f.src(fmt.Sprintf("parameter %s of %s", x.Name(), fnName(fn)), nil, x)
		return
	}
	n := 0
	sites := c.callSites[fn]
	if fn.Parent() != nil {
		sites = append(sites, closureCalls(fn)...)
	}
	for _, s := range sites {
		com := s.Common()
		n++
		if com.IsInvoke() {
			if idx == 0 {
				k(com.Value, s)
			} else if idx-1 < len(com.Args) {
				k(com.Args[idx-1], s)
			}
		} else if idx < len(com.Args) {
			k(com.Args[idx], s)
		}
	}
	if n == 0 && fn.Parent() != nil {
		f.src(fmt.Sprintf("parameter %s of a function value in %s", x.Name(), fnName(fn)), nil, x)
	}
}

// closureCalls finds the calls of a closure through the variables it is kept in.
func closureCalls(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case ssa.CallInstruction:
				if x.Common().Value == v {
					out = append(out, x)
				} else if cf := x.Common().StaticCallee(); cf != nil {
					for i, a := range x.Common().Args {
						if a == v && i < len(cf.Params) {
							visit(cf.Params[i])
						}
					}
				}
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						visit(al)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					visit(x)
				}
			case *ssa.Phi:
				visit(x)
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						visit(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				visit(mc)
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(fn) {
				out = append(out, c)
			}
			if s, ok := in.(*ssa.Store); ok && s.Val == ssa.Value(fn) {
				if al, ok := s.Addr.(*ssa.Alloc); ok {
					visit(al)
				}
			}
		}
	}
	return out
}

func exportedRecv(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil {
		return true
	}
	n := recvNamed(fn.Signature.Recv().Type())
	return n == nil || n.Obj().Exported()
}

func (f *flow) freeVar(x *ssa.FreeVar, k follow) {
	fn := x.Parent()
	idx := -1
	for i, p := range fn.FreeVars {
		if p == x {
			idx = i
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				k(mc.Bindings[idx], mc)
			}
		}
	}
}

func (f *flow) returns(fn *ssa.Function, i int, k follow) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
				k(r.Results[i], r)
			}
		}
	}
}

func (f *flow) tuple(t ssa.Value, i int, at ssa.Instruction, k follow) {
	switch x := t.(type) {
	case *ssa.Call:
		if fs := f.callees(x); len(fs) > 0 {
			for _, g := range fs {
				f.returns(g, i, k)
			}
			return
		}
		if isNumeric(at.(ssa.Value).Type()) {
			return
		}
		f.src(fmt.Sprintf("result of %s in %s", callName(x.Common()), fnName(x.Parent())), at, x)
	case *ssa.Lookup:
		f.mapVals(x.X, x, false)
	case *ssa.Next:
		r, ok := x.Iter.(*ssa.Range)
		if !ok {
			return
		}
		if isStringType(r.X.Type()) {
			f.str(r.X, x)
			return
		}
		f.mapVals(r.X, x, i == 1)
	case *ssa.TypeAssert:
		k(x.X, x)
	default:
		f.src(fmt.Sprintf("%s in %s", describe(t), fnName(t.Parent())), at, t)
	}
}

func (f *flow) callees(c *ssa.Call) []*ssa.Function {
	if g := c.Call.StaticCallee(); g != nil {
		if f.p.inModule(g) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	if c.Call.IsInvoke() {
		return f.p.implementers(&c.Call)
	}
	// a closure kept in a local variable
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	var find func(v ssa.Value)
	find = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Phi:
			for _, e := range x.Edges {
				find(e)
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						find(s.Val)
					}
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				f.freeVar(fv, func(b ssa.Value, _ ssa.Instruction) {
					if al, ok := b.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
								find(s.Val)
							}
						}
					}
				})
			}
		}
	}
	find(c.Call.Value)
	return out
}

// load traces what can be read through an address.
func (f *flow) load(addr ssa.Value, at ssa.Instruction, k follow) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		f.allocStores(a, k, at)
	case *ssa.FieldAddr:
		// a local struct: only its own stores
		f.field(a.X, a.Field, at, k)
	case *ssa.IndexAddr:
		f.elems(a.X, at)
	case *ssa.Global:
		for _, v := range f.p.flowCfg().globals[a] {
			k(v, nil)
		}
		if !f.p.inModulePkg(a.Pkg) {
			f.src("variable "+a.String(), at, a)
		}
	case *ssa.FreeVar:
		f.freeVar(a, func(v ssa.Value, in ssa.Instruction) { f.load(v, in, k) })
	case *ssa.Parameter:
		f.param(a, func(v ssa.Value, in ssa.Instruction) { f.load(v, in, k) })
	case *ssa.Phi:
		for _, e := range a.Edges {
			if !isNilConst(e) {
				f.load(e, at, k)
			}
		}
	default:
		f.src(fmt.Sprintf("%s in %s", describe(addr), fnName(addr.Parent())), at, addr)
	}
}

// allocStores follows every store to a variable, including those made by closures; a variable
// whose address is passed elsewhere holds outside data.
func (f *flow) allocStores(a ssa.Value, k follow, at ssa.Instruction) {
	if f.seen[flowKey{a, 'a'}] {
		return
	}
	f.seen[flowKey{a, 'a'}] = true
	if a.Referrers() == nil {
		return
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				k(x.Val, x)
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == a {
					f.allocStores(x.Fn.(*ssa.Function).FreeVars[i], k, at)
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.MakeInterface, *ssa.Call:
			if c, ok := x.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && f.p.inModule(g) {
					for i, arg := range c.Call.Args {
						if arg == a && i < len(g.Params) {
							f.allocStores(g.Params[i], k, at)
						}
					}
					continue
				}
			}
			f.src(fmt.Sprintf("variable filled by a call in %s", fnName(a.Parent())), r, a)
		}
	}
}

// field traces the values a field can hold. A field of a local struct variable holds what was
// stored in that variable; otherwise every store to the field in the program counts, and an
// exported field can hold anything the application puts there.
func (f *flow) field(base ssa.Value, i int, at ssa.Instruction, k follow) {
	key := fieldKey(base.Type(), i)
	if f.seen[flowKey{base, byte(i)}] {
		return
	}
	f.seen[flowKey{base, byte(i)}] = true
	if al, ok := base.(*ssa.Alloc); ok && !escapes(al) {
		whole := false
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if x.Field == i {
					for _, r2 := range *x.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
							k(s.Val, s)
						}
					}
				}
			case *ssa.Store:
				if x.Addr == ssa.Value(al) {
					whole = true
					f.structVal(x.Val, i, x, k)
				}
			}
		}
		_ = whole
		return
	}
	name := fieldName(derefT(base.Type()), i)
	if f.userMade(base.Type()) && token.IsExported(name) {
		f.src("field "+shortKey(key), at, base)
		return
	}
	st := f.p.flowCfg().fieldStores[key]
	for _, s := range st {
		k(s.Val, s)
	}
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		return k[i+1:]
	}
	return k
}

// userMade: an exported struct type the application can fill in itself.
func (f *flow) userMade(t types.Type) bool {
	nt, ok := derefT(t).(*types.Named)
	return ok && nt.Obj().Exported()
}

// structVal traces field i of a struct value.
func (f *flow) structVal(v ssa.Value, i int, at ssa.Instruction, k follow) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			f.field(x.X, i, at, k)
			return
		}
	case *ssa.Call:
		if fs := f.callees(x); len(fs) > 0 {
			for _, g := range fs {
				f.returns(g, 0, func(r ssa.Value, in ssa.Instruction) { f.structVal(r, i, in, k) })
			}
			return
		}
	case *ssa.Const:
		return
	}
	f.field(v, i, at, k)
}

func escapes(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// elems traces the elements of a slice or array value.
func (f *flow) elems(v ssa.Value, at ssa.Instruction) {
	if v == nil || f.seen[flowKey{v, 'l'}] {
		return
	}
	f.seen[flowKey{v, 'l'}] = true
	f.nodes++
	elemStores := func(a ssa.Value) {
		if a.Referrers() == nil {
			return
		}
		for _, r := range *a.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
						f.str(s.Val, s)
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Slice:
		elemStores(x)
		f.elems(x.X, x)
	case *ssa.Alloc:
		elemStores(x)
		// variable of slice or array type
		if _, isArr := derefT(x.Type()).Underlying().(*types.Array); !isArr {
			f.allocStores(x, f.elems, at)
		}
	case *ssa.MakeSlice:
		elemStores(x)
	case *ssa.Phi:
		elemStores(x)
		for _, e := range x.Edges {
			f.elems(e, x)
		}
	case *ssa.Parameter:
		elemStores(x)
		f.param(x, f.elems)
	case *ssa.FreeVar:
		f.freeVar(x, f.elems)
	case *ssa.UnOp:
		elemStores(x)
		if x.Op == token.MUL {
			f.load(x.X, x, f.elems)
		}
	case *ssa.MakeInterface:
		f.elems(x.X, x)
	case *ssa.ChangeType:
		f.elems(x.X, x)
	case *ssa.Convert:
		f.str(x.X, x)
	case *ssa.Extract:
		elemStores(x)
		f.tuple(x.Tuple, x.Index, x, f.elems)
	case *ssa.Field:
		f.field(x.X, x.Field, x, f.elems)
	case *ssa.Lookup:
		f.mapVals(x.X, x, false)
	case *ssa.Call:
		elemStores(x)
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				for _, a := range x.Call.Args {
					if isStringType(a.Type()) {
						f.str(a, x)
					} else {
						f.elems(a, x)
					}
				}
			}
			return
		}
		if fs := f.callees(x); len(fs) > 0 {
			for _, g := range fs {
				f.returns(g, 0, f.elems)
			}
			return
		}
		switch callName(&x.Call) {
		case "strings.Split", "strings.Fields", "strings.SplitN":
			f.str(x.Call.Args[0], x)
			return
		case "slices.Clone", "slices.Sorted", "slices.Collect":
			f.elems(x.Call.Args[0], x)
			return
		}
		f.src(fmt.Sprintf("result of %s in %s", callName(&x.Call), fnName(x.Parent())), at, x)
	default:
		f.src(fmt.Sprintf("%s in %s", describe(v), fnName(v.Parent())), at, v)
	}
}

// mapVals traces the values (or keys) of a map.
func (f *flow) mapVals(v ssa.Value, at ssa.Instruction, keys bool) {
	kk := byte('m')
	if keys {
		kk = 'k'
	}
	if f.seen[flowKey{v, kk}] {
		return
	}
	f.seen[flowKey{v, kk}] = true
	next := func(w ssa.Value, in ssa.Instruction) { f.mapVals(w, in, keys) }
	updates := func(m ssa.Value) {
		if m.Referrers() == nil {
			return
		}
		for _, r := range *m.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok && u.Map == m {
				if keys {
					f.str(u.Key, u)
				} else {
					f.str(u.Value, u)
				}
			}
		}
	}
	updates(v)
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeMap:
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.mapVals(e, x, keys)
		}
	case *ssa.Parameter:
		f.param(x, next)
	case *ssa.UnOp:
		f.load(x.X, x, next)
		if g, ok := x.X.(*ssa.Global); ok {
			for _, fn := range f.p.allFuncsAndInit() {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							updates(u)
						}
					}
				}
			}
		}
	case *ssa.Call:
		if fs := f.callees(x); len(fs) > 0 {
			for _, g := range fs {
				f.returns(g, 0, next)
			}
			return
		}
		f.src(fmt.Sprintf("result of %s in %s", callName(&x.Call), fnName(x.Parent())), at, x)
	case *ssa.Extract:
		f.tuple(x.Tuple, x.Index, x, next)
	case *ssa.Field:
		f.field(x.X, x.Field, x, next)
	default:
		f.src(fmt.Sprintf("%s in %s", describe(v), fnName(v.Parent())), at, v)
	}
}

// callStr traces the string result of a call.
func (f *flow) callStr(x *ssa.Call) {
	if fs := f.callees(x); len(fs) > 0 {
		for _, g := range fs {
			f.returns(g, 0, f.str)
		}
		return
	}
	args := x.Call.Args
	n := callName(&x.Call)
	switch n {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if n == "fmt.Sprintf" {
			f.str(args[0], x)
			f.elems(args[1], x)
		} else {
			f.elems(args[0], x)
		}
		return
	case "strings.Join":
		f.elems(args[0], x)
		f.str(args[1], x)
		return
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		f.builder(args[0], x)
		return
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool":
		return
	}
	if strings.HasPrefix(n, "strings.") && len(args) > 0 {
		for _, a := range args {
			if isStringType(a.Type()) {
				f.str(a, x)
			}
		}
		return
	}
	f.src(fmt.Sprintf("result of %s in %s", n, fnName(x.Parent())), x, x)
}

// builder traces everything written to a string builder, wherever it is passed.
func (f *flow) builder(v ssa.Value, at ssa.Instruction) {
	if f.seen[flowKey{v, 'b'}] {
		return
	}
	f.seen[flowKey{v, 'b'}] = true
	f.nodes++
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			switch c := r.(type) {
			case ssa.CallInstruction:
				com := c.Common()
				n := callName(com)
				if len(com.Args) > 0 && com.Args[0] == v && (strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write")) {
					if isStringType(com.Args[1].Type()) {
						f.str(com.Args[1], c)
					} else if !isNumeric(com.Args[1].Type()) {
						f.elems(com.Args[1], c)
					} else if _, ok := com.Args[1].(*ssa.Const); !ok && strings.HasSuffix(n, "Rune") || strings.HasSuffix(n, "Byte") && !ok {
						f.src("characters written in "+fnName(c.Parent()), c, v)
					}
					continue
				}
				if g := com.StaticCallee(); g != nil && f.p.inModule(g) {
					for i, a := range com.Args {
						if a == v && i < len(g.Params) {
							f.builder(g.Params[i], c)
						}
					}
				}
			case *ssa.MakeInterface:
				for _, r2 := range *c.Referrers() {
					if ci, ok := r2.(ssa.CallInstruction); ok {
						n := callName(ci.Common())
						if n == "fmt.Fprintf" {
							f.str(ci.Common().Args[1], ci)
							f.elems(ci.Common().Args[2], ci)
						} else if strings.HasPrefix(n, "fmt.Fprint") {
							f.elems(ci.Common().Args[1], ci)
						} else if n == "io.WriteString" {
							f.str(ci.Common().Args[1], ci)
						} else {
							f.src("text written by "+n, ci, v)
						}
					}
				}
			case *ssa.MakeClosure:
				for i, b := range c.Bindings {
					if b == v {
						f.builder(c.Fn.(*ssa.Function).FreeVars[i], c)
					}
				}
			case *ssa.Store:
				if c.Val == v {
					if fa, ok := c.Addr.(*ssa.FieldAddr); ok {
						_ = fa
						f.src("a builder kept in a field", c, v)
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		f.param(x, f.builder)
	case *ssa.FreeVar:
		f.freeVar(x, f.builder)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.builder(e, at)
		}
	case *ssa.Alloc, *ssa.Const, *ssa.FieldAddr:
	default:
		f.src(fmt.Sprintf("%s in %s", describe(v), fnName(v.Parent())), at, v)
	}
}

// guardedConst: block b is only reached when v equals a constant (or is a key of a constant map).
func guardedConst(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			return false
		}
		if ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
			if len(d.Preds) == 1 && d.Preds[0] == id {
				if condConst(ifi.Cond, v, id.Succs[0] == d) {
					return true
				}
			}
		}
		// several cases of a switch leading to one block
		if len(d.Preds) > 1 {
			all := true
			for _, p := range d.Preds {
				if !guardedEdge(v, p, d) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func guardedEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		return condConst(ifi.Cond, v, from.Succs[0] == to)
	}
	return false
}

func condConst(cond, v ssa.Value, truth bool) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return condConst(c.X, v, !truth)
		}
	case *ssa.BinOp:
		if c.Op == token.EQL && truth || c.Op == token.NEQ && !truth {
			x, y := c.X, c.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			k, ok := y.(*ssa.Const)
			return ok && k.Value != nil && k.Value.Kind() == constant.String && sameVal(x, v)
		}
	case *ssa.Lookup: // map[string]bool
		return truth && sameVal(c.Index, v) && constMap(c.X)
	case *ssa.Extract:
		if l, ok := c.Tuple.(*ssa.Lookup); ok && c.Index == 1 {
			return truth && sameVal(l.Index, v) && constMap(l.X)
		}
	case *ssa.Call:
		if truth && callName(&c.Call) == "slices.Contains" && len(c.Call.Args) == 2 {
			return sameVal(c.Call.Args[1], v)
		}
	}
	return false
}

func sameVal(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	// two reads of the same field
	a, ok1 := x.(*ssa.UnOp)
	b, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && a.Op == token.MUL && b.Op == token.MUL {
		if a.X == b.X {
			return true
		}
		fa, ok1 := a.X.(*ssa.FieldAddr)
		fb, ok2 := b.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.Field == fb.Field && sameVal(fa.X, fb.X)
	}
	return false
}

// constMap: a map literal or package variable all of whose keys are constants.
func constMap(m ssa.Value) bool {
	keysConst := func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok {
				if _, ok := u.Key.(*ssa.Const); !ok {
					return false
				}
			}
		}
		return true
	}
	switch x := m.(type) {
	case *ssa.MakeMap:
		return keysConst(x)
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok {
			return false
		}
		init := g.Pkg.Func("init")
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					return keysConst(s.Val)
				}
			}
		}
	}
	return false
}

func init() {
	register("S01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"statements": 60}}
		fns := map[*ssa.Function]bool{}
		for _, fn := range p.allFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := callName(c.Common())
					if !strings.HasPrefix(n, "(*database/sql.") {
						continue
					}
					m := n[strings.LastIndexByte(n, '.')+1:]
					if !strings.HasPrefix(m, "Query") && !strings.HasPrefix(m, "Exec") && !strings.HasPrefix(m, "Prepare") {
						continue
					}
					var text ssa.Value
					for _, a := range c.Common().Args {
						if isStringType(a.Type()) {
							text = a
							break
						}
					}
					if text == nil {
						continue
					}
					r.Counts["statements"]++
					fns[fn] = true
					f := &flow{p: p, sources: map[string]string{}, seen: map[flowKey]bool{}}
					f.str(text, c)
					r.Counts["values_traced"] += f.nodes
					for _, s := range sortedKeys(f.sources) {
						r.add(&Finding{Rule: "text-in-statement", Construct: s + " -> " + opShort(n) + " in " + fnName(fn), Pos: p.pos(c.Pos()),
							Msg: fmt.Sprintf("the statement executed here can contain text from %s (%s)", s, f.sources[s]), Chain: fnName(fn)})
					}
				}
			}
		}
		r.Counts["functions"] = len(fns)
		return r
	})
}
