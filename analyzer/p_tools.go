package main

// T01: the tools offered (definitions with their input schemas), the tools dispatched by name, and the tools
// registered with the MCP server agree, and every field a tool takes has a use.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// tval: a value of a composite literal as far as it is known.
type tval struct {
	str   *string
	list  []*tval
	m     map[string]*tval
	isMap bool
	isLst bool
}

type tenv struct {
	pkg  *packages.Package
	vars map[types.Object]*tval
}

type toolRun struct {
	p     *Prog
	decls map[types.Object]*ast.FuncDecl
	pkgOf map[types.Object]*packages.Package
}

func (t *toolRun) eval(e ast.Expr, env *tenv, depth int) *tval {
	if depth > 12 {
		return nil
	}
	info := env.pkg.TypesInfo
	if tv, ok := info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
		s := constant.StringVal(tv.Value)
		return &tval{str: &s}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.eval(x.X, env, depth+1)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return t.eval(x.X, env, depth+1)
		}
	case *ast.Ident:
		o := info.Uses[x]
		if v, ok := env.vars[o]; ok {
			return v
		}
		if v := t.initOf(o, env, depth); v != nil {
			return v
		}
	case *ast.CompositeLit:
		ty := info.Types[x].Type
		switch ty.Underlying().(type) {
		case *types.Map, *types.Struct:
			v := &tval{m: map[string]*tval{}, isMap: true}
			for _, el := range x.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					return nil
				}
				k := ""
				if id, ok := kv.Key.(*ast.Ident); ok && isStructT(ty) {
					k = id.Name
				} else if kk := t.eval(kv.Key, env, depth+1); kk != nil && kk.str != nil {
					k = *kk.str
				} else {
					return nil
				}
				v.m[k] = t.eval(kv.Value, env, depth+1)
			}
			return v
		case *types.Slice, *types.Array:
			v := &tval{isLst: true}
			for _, el := range x.Elts {
				v.list = append(v.list, t.eval(el, env, depth+1))
			}
			return v
		}
	case *ast.CallExpr:
		var id *ast.Ident
		switch f := x.Fun.(type) {
		case *ast.Ident:
			id = f
		case *ast.SelectorExpr:
			id = f.Sel
		}
		if id == nil {
			return nil
		}
		o := info.Uses[id]
		d := t.decls[o]
		if d == nil || d.Body == nil || d.Recv != nil {
			return nil
		}
		in := &tenv{pkg: t.pkgOf[o], vars: map[types.Object]*tval{}}
		i := 0
		for _, f := range d.Type.Params.List {
			for _, n := range f.Names {
				if _, ok := f.Type.(*ast.Ellipsis); ok {
					rest := &tval{isLst: true}
					for ; i < len(x.Args); i++ {
						rest.list = append(rest.list, t.eval(x.Args[i], env, depth+1))
					}
					in.vars[in.pkg.TypesInfo.Defs[n]] = rest
					continue
				}
				if i < len(x.Args) {
					in.vars[in.pkg.TypesInfo.Defs[n]] = t.eval(x.Args[i], env, depth+1)
				}
				i++
			}
		}
		var ret *tval
		n := 0
		ast.Inspect(d.Body, func(nd ast.Node) bool {
			if _, ok := nd.(*ast.FuncLit); ok {
				return false
			}
			if r, ok := nd.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
				n++
				ret = t.eval(r.Results[0], in, depth+1)
			}
			return true
		})
		if n == 1 {
			return ret
		}
	}
	return nil
}

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// initOf: the literal a variable is declared with, when it is never assigned or changed again.
func (t *toolRun) initOf(o types.Object, env *tenv, depth int) *tval {
	v, ok := o.(*types.Var)
	if !ok {
		return nil
	}
	var init ast.Expr
	sets := 0
	for _, f := range env.pkg.Syntax {
		if f.Pos() > v.Pos() || f.End() < v.Pos() {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				for i, l := range s.Lhs {
					root := l
					idx := false
					if ix, ok := l.(*ast.IndexExpr); ok {
						root, idx = ix.X, true
					}
					if id, ok := root.(*ast.Ident); ok && (env.pkg.TypesInfo.Defs[id] == o || env.pkg.TypesInfo.Uses[id] == o) {
						sets++
						if !idx && len(s.Rhs) == len(s.Lhs) {
							init = s.Rhs[i]
						}
					}
				}
			case *ast.ValueSpec:
				for i, id := range s.Names {
					if env.pkg.TypesInfo.Defs[id] == o && i < len(s.Values) {
						sets++
						init = s.Values[i]
					}
				}
			}
			return true
		})
	}
	if sets != 1 || init == nil {
		return nil
	}
	return t.eval(init, env, depth+1)
}

type jsonField struct {
	name string
	omit bool
	v    *types.Var
	own  *types.Struct
	idx  int
}

func jsonFields(t types.Type) []jsonField {
	s, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []jsonField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		n, opts, _ := strings.Cut(tag, ",")
		if n == "-" {
			continue
		}
		if f.Embedded() && n == "" {
			r = append(r, jsonFields(f.Type())...)
			continue
		}
		if !f.Exported() {
			continue
		}
		if n == "" {
			n = f.Name()
		}
		r = append(r, jsonField{n, strings.Contains(opts, "omitempty") || strings.Contains(opts, "omitzero"), f, s, i})
	}
	return r
}

func fitsSchema(kind string, t types.Type) bool {
	switch u := derefT(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return kind == "string"
		case u.Info()&types.IsInteger != 0:
			return kind == "integer"
		case u.Info()&types.IsFloat != 0:
			return kind == "number" || kind == "integer"
		case u.Info()&types.IsBoolean != 0:
			return kind == "boolean"
		}
	case *types.Slice, *types.Array:
		return kind == "array"
	case *types.Map, *types.Struct:
		return kind == "object"
	}
	return true
}

// methodsIn: the methods of the toolbox that code refers to, with the struct they take. Closures, wrappers
// and unexported helpers of the toolbox's package that take the toolbox, a raw message or a handler are followed.
func methodsIn(box *types.Named, vals []ssa.Value, blocks []*ssa.BasicBlock, seen map[*ssa.Function]bool, out map[string]*ssa.Function) {
	var use func(v ssa.Value, depth int)
	use = func(v ssa.Value, depth int) {
		if depth > 6 {
			return
		}
		switch x := v.(type) {
		case *ssa.MakeClosure:
			use(x.Fn, depth+1)
			for _, bd := range x.Bindings {
				use(bd, depth+1)
			}
			return
		case *ssa.ChangeType:
			use(x.X, depth+1)
			return
		case *ssa.MakeInterface:
			use(x.X, depth+1)
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				use(e, depth+1)
			}
			return
		case *ssa.Alloc:
			for _, rf := range *x.Referrers() {
				if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					use(st.Val, depth+1)
				}
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				use(x.X, depth+1)
			}
			return
		case *ssa.Call:
			if _, ok := x.Type().Underlying().(*types.Signature); ok {
				use(x.Call.Value, depth+1)
				for _, a := range x.Call.Args {
					use(a, depth+1)
				}
			}
			return
		}
		f, ok := v.(*ssa.Function)
		if !ok || f == nil || f.Blocks == nil {
			return
		}
		if m, ok := f.Object().(*types.Func); ok && (f.Synthetic == "" || !strings.HasPrefix(f.Synthetic, "instance")) {
			if rv := m.Type().(*types.Signature).Recv(); rv != nil {
				if recvNamed(rv.Type()) == box && m.Exported() && m.Type().(*types.Signature).Params().Len() == 2 {
					out[m.Name()] = f
					return
				}
			}
		}
		if seen[f] {
			return
		}
		if f.Parent() == nil && f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "instance") {
			o := f.Object()
			if o == nil || o.Exported() || o.Pkg() != box.Obj().Pkg() {
				return
			}
			takes := false
			for _, prm := range f.Params {
				_, fun := prm.Type().Underlying().(*types.Signature)
				takes = takes || fun || namedName(prm.Type()) == "RawMessage" || recvNamed(prm.Type()) == box
			}
			if !takes {
				return
			}
		}
		seen[f] = true
		methodsIn(box, nil, f.Blocks, seen, out)
	}
	for _, v := range vals {
		use(v, 0)
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch (*op).(type) {
				case *ssa.Function, *ssa.MakeClosure:
					use(*op, 0)
				}
			}
		}
	}
}

// toolName: the name of the tool a value stands for, where it is looked up or made by a constant name.
func toolName(v ssa.Value, known func(string) bool, depth int) string {
	if depth > 5 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if k, ok := constStr(x); ok && known(k) {
			return k
		}
	case *ssa.Lookup:
		if k, ok := constStr(x.Index); ok {
			return k
		}
		return toolName(x.Index, known, depth+1)
	case *ssa.Extract:
		return toolName(x.Tuple, known, depth+1)
	case *ssa.ChangeType:
		return toolName(x.X, known, depth+1)
	case *ssa.UnOp:
		return toolName(x.X, known, depth+1)
	case *ssa.FieldAddr:
		return toolName(x.X, known, depth+1)
	case *ssa.Field:
		return toolName(x.X, known, depth+1)
	case *ssa.Alloc:
		for _, rf := range *x.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				if n := toolName(st.Val, known, depth+1); n != "" {
					return n
				}
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if n := toolName(a, known, depth+1); n != "" {
				return n
			}
		}
	}
	return ""
}

// emptyArg: a request that nothing was ever put into.
func emptyArg(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			return false
		}
		for _, rf := range *al.Referrers() {
			if u, ok := rf.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			if _, ok := rf.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		return true
	}
	return false
}

func reqType(f *ssa.Function) types.Type {
	m := f.Object().(*types.Func).Type().(*types.Signature)
	return m.Params().At(m.Params().Len() - 1).Type()
}

func constStr(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func init() {
	register("T01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"functions": 300}}
		r.Counts["functions"] = len(p.allFuncs)
		found := map[string]bool{}
		add := func(rule, construct, pos, msg string) {
			if k := rule + "|" + construct; !found[k] {
				found[k] = true
				r.add(&Finding{Rule: rule, Construct: construct, Pos: pos, Msg: msg, Chain: construct})
			}
		}
		t := &toolRun{p: p, decls: map[types.Object]*ast.FuncDecl{}, pkgOf: map[types.Object]*packages.Package{}}
		for _, pkg := range p.pkgs {
			for _, f := range pkg.Syntax {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						t.decls[pkg.TypesInfo.Defs[fd.Name]] = fd
						t.pkgOf[pkg.TypesInfo.Defs[fd.Name]] = pkg
					}
				}
			}
		}
		// definitions
		type def struct {
			name   string
			schema *tval
			pos    token.Pos
		}
		defs := map[string]*def{}
		allNamed := true
		for _, pkg := range p.pkgs {
			for _, f := range pkg.Syntax {
				ast.Inspect(f, func(n ast.Node) bool {
					cl, ok := n.(*ast.CompositeLit)
					if !ok || len(cl.Elts) == 0 {
						return true
					}
					tv := pkg.TypesInfo.Types[cl]
					if nm, ok := tv.Type.(*types.Named); !ok || nm.Obj().Name() != "ToolDefinition" {
						return true
					}
					v := t.eval(cl, &tenv{pkg: pkg, vars: map[types.Object]*tval{}}, 0)
					if v == nil || v.m["Name"] == nil || v.m["Name"].str == nil {
						allNamed = false
						r.Counts["not_followed"]++
						return true
					}
					name := *v.m["Name"].str
					if defs[name] != nil {
						add("defined-twice", name, p.pos(cl.Pos()), fmt.Sprintf("the tool %s is defined twice", name))
					}
					defs[name] = &def{name, v.m["InputSchema"], cl.Pos()}
					r.Counts["definitions"]++
					return true
				})
			}
		}
		var box *types.Named
		for _, n := range p.named {
			ms := types.NewMethodSet(types.NewPointer(n))
			if d, c := ms.Lookup(nil, "Definitions"), ms.Lookup(nil, "Call"); d != nil && c != nil {
				box = n
			}
		}
		if box == nil {
			return r
		}
		// dispatch by name, and registrations with the server
		calls, regs := map[string]map[string]*ssa.Function{}, map[string]map[string]*ssa.Function{}
		callPos, regPos := map[string]token.Pos{}, map[string]token.Pos{}
		merge := func(to map[string]map[string]*ssa.Function, k string, ms map[string]*ssa.Function) {
			if to[k] == nil {
				to[k] = map[string]*ssa.Function{}
			}
			for n, f := range ms {
				to[k][n] = f
			}
		}
		passing, passingBlocks := map[*ssa.Function]bool{}, map[*ssa.Function]map[*ssa.BasicBlock]bool{}
		loose, looseCalls := map[string]*ssa.Function{}, map[string]*ssa.Function{}
		// place: a handler kept under a name, for the dispatch if it takes a raw message, else for the server
		place := func(k string, fs []ssa.Value, pos token.Pos) {
			ms, fns := map[string]*ssa.Function{}, map[*ssa.Function]bool{}
			methodsIn(box, fs, nil, fns, ms)
			if len(ms) == 0 {
				return
			}
			isRaw := false
			for _, f := range fs {
				if sg, ok := f.Type().Underlying().(*types.Signature); ok {
					for i := 0; i < sg.Params().Len(); i++ {
						isRaw = isRaw || namedName(sg.Params().At(i).Type()) == "RawMessage"
					}
				}
			}
			if isRaw {
				merge(calls, k, ms)
				callPos[k] = pos
			} else {
				merge(regs, k, ms)
				regPos[k] = pos
			}
			for f := range fns {
				passing[f] = true
			}
		}
		for _, fn := range p.allFuncs {
			raw := false
			for _, prm := range fn.Params {
				if namedName(prm.Type()) == "RawMessage" {
					raw = true
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.If:
						c, ok := x.Cond.(*ssa.BinOp)
						if !ok || c.Op != token.EQL || !raw {
							continue
						}
						k, ok := constStr(c.Y)
						if !ok {
							k, ok = constStr(c.X)
						}
						if !ok {
							continue
						}
						var region []*ssa.BasicBlock
						for _, o := range fn.Blocks {
							if b.Succs[0] == o || b.Succs[0].Dominates(o) {
								region = append(region, o)
							}
						}
						ms := map[string]*ssa.Function{}
						fns := map[*ssa.Function]bool{}
						methodsIn(box, nil, region, fns, ms)
						if len(ms) > 0 {
							merge(calls, k, ms)
							callPos[k] = c.Pos()
							for f := range fns {
								passing[f] = true
							}
							passing[fn] = true
							if passingBlocks[fn] == nil {
								passingBlocks[fn] = map[*ssa.BasicBlock]bool{}
							}
							for _, o := range region {
								passingBlocks[fn][o] = true
							}
						}
					case *ssa.MapUpdate:
						k, ok := constStr(x.Key)
						if !ok {
							continue
						}
						place(k, []ssa.Value{x.Value}, x.Pos())
					case *ssa.Store:
						// a table of names and handlers
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						k, ok := constStr(x.Val)
						if !ok || defs[k] == nil {
							continue
						}
						var fs []ssa.Value
						for _, rf := range *fa.X.Referrers() {
							o, ok := rf.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							for _, rf2 := range *o.Referrers() {
								if st, ok := rf2.(*ssa.Store); ok && st.Addr == ssa.Value(o) {
									if _, ok := st.Val.Type().Underlying().(*types.Signature); ok {
										fs = append(fs, st.Val)
									}
								}
							}
						}
						if len(fs) > 0 {
							place(k, fs, x.Pos())
						}
					case *ssa.Call:
						name := ""
						var fs []ssa.Value
						for _, a := range x.Call.Args {
							if _, ok := a.Type().Underlying().(*types.Signature); ok {
								fs = append(fs, a)
								continue
							}
							if n := toolName(a, func(k string) bool { return defs[k] != nil }, 0); n != "" {
								name = n
							}
						}
						if len(fs) == 0 {
							continue
						}
						if name == "" {
							methodsIn(box, fs, nil, map[*ssa.Function]bool{}, loose)
							continue
						}
						ms, fns := map[string]*ssa.Function{}, map[*ssa.Function]bool{}
						methodsIn(box, fs, nil, fns, ms)
						if len(ms) > 0 {
							merge(regs, name, ms)
							regPos[name] = x.Pos()
							for f := range fns {
								passing[f] = true
							}
							if c := x.Call.StaticCallee(); c != nil && c.Blocks != nil {
								passing[c] = true
								for _, an := range c.AnonFuncs {
									passing[an] = true
								}
							}
						}
					}
				}
			}
			if raw {
				// what the rest of the dispatch refers to outside the branches found above
				methodsIn(box, nil, fn.Blocks, map[*ssa.Function]bool{}, looseCalls)
			}
		}
		taken := func(m map[string]map[string]*ssa.Function) map[string]bool {
			out := map[string]bool{}
			for _, ms := range m {
				for n := range ms {
					out[n] = true
				}
			}
			return out
		}
		covered := func(by, ms map[string]*ssa.Function, t map[string]bool) bool {
			if len(ms) == 0 {
				return false
			}
			for n := range ms {
				if by[n] == nil || t[n] {
					return false
				}
			}
			return true
		}
		takenCalls, takenRegs := taken(calls), taken(regs)
		// requests and responses are handed on
		for _, fn := range p.allFuncs {
			if !passing[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				if only := passingBlocks[fn]; only != nil && !only[b] {
					continue
				}
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || len(c.Call.Args) == 0 {
						continue
					}
					what := ""
					if g := c.Call.StaticCallee(); g != nil {
						if m, ok := g.Object().(*types.Func); ok && m.Type().(*types.Signature).Recv() != nil && recvNamed(m.Type().(*types.Signature).Recv().Type()) == box && m.Exported() {
							what = m.Name()
						}
					} else if !c.Call.IsInvoke() {
						if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
							what = "the handler"
						}
					}
					if what == "" {
						continue
					}
					r.Counts["hand_overs"]++
					if a := c.Call.Args[len(c.Call.Args)-1]; isStructT(a.Type()) && emptyArg(a) {
						add("dropped", fnName(fn)+"."+what, p.pos(c.Pos()), fmt.Sprintf("%s gets an empty request instead of the caller's", what))
					}
					if tp, ok := c.Type().(*types.Tuple); ok && tp.Len() == 2 {
						for i, part := range []string{"response", "error"} {
							usd := false
							for _, rf := range *c.Referrers() {
								if ex, ok := rf.(*ssa.Extract); ok {
									usd = usd || ex.Index == i && len(*ex.Referrers()) > 0
								} else {
									usd = true
								}
							}
							if !usd {
								add("dropped", fnName(fn)+"."+what+"."+part, p.pos(c.Pos()), fmt.Sprintf("the %s of %s is thrown away", part, what))
							}
						}
					}
				}
			}
		}
		r.Counts["dispatched"], r.Counts["registered"] = len(calls), len(regs)
		names := func(m map[string]*ssa.Function) string { return strings.Join(sortedKeys(m), ", ") }
		for _, n := range sortedKeys(defs) {
			d := defs[n]
			if len(calls) > 0 && calls[n] == nil && !covered(looseCalls, regs[n], takenCalls) {
				add("not-dispatched", n, p.pos(d.pos), fmt.Sprintf("the tool %s is offered but calling it by name is refused", n))
			}
			if len(regs) > 0 && regs[n] == nil && !covered(loose, calls[n], takenRegs) {
				add("not-registered", n, p.pos(d.pos), fmt.Sprintf("the tool %s is offered but not registered with the MCP server", n))
			}
		}
		if allNamed {
			for _, n := range sortedKeys(calls) {
				if defs[n] == nil {
					add("not-defined", n, p.pos(callPos[n]), fmt.Sprintf("the tool %s is dispatched but not defined", n))
				}
			}
			for _, n := range sortedKeys(regs) {
				if defs[n] == nil {
					add("not-defined", n, p.pos(regPos[n]), fmt.Sprintf("the tool %s is registered with the MCP server but not defined", n))
				}
			}
		}
		owner := map[string]string{}
		for _, n := range sortedKeys(calls) {
			if regs[n] != nil && names(calls[n]) != names(regs[n]) {
				add("different", n, p.pos(callPos[n]), fmt.Sprintf("called by name the tool %s runs %s, through the MCP server %s", n, names(calls[n]), names(regs[n])))
			}
			if len(calls[n]) == 1 {
				for m := range calls[n] {
					if o := owner[m]; o != "" {
						add("different", n, p.pos(callPos[n]), fmt.Sprintf("the tools %s and %s both run %s", o, n, m))
					}
					owner[m] = n
				}
			}
		}
		// schema and request
		for _, n := range sortedKeys(defs) {
			d := defs[n]
			ms := calls[n]
			if ms == nil {
				ms = regs[n]
			}
			if len(ms) != 1 || d.schema == nil || !d.schema.isMap {
				r.Counts["not_followed"]++
				continue
			}
			for _, f := range ms {
				t.schema(r, add, n, n, d.schema, reqType(f), p.pos(d.pos), 0)
			}
		}
		// every field has a use
		usedBy := fieldUses(p)
		for _, n := range sortedKeys(calls) {
			for _, m := range sortedKeys(calls[n]) {
				f := calls[n][m]
				rt := reqType(f)
				for _, jf := range jsonFields(rt) {
					r.Counts["fields"]++
					if !usedBy(f, jf) {
						add("ignored", fmt.Sprintf("%s.%s", n, jf.name), p.pos(jf.v.Pos()), fmt.Sprintf("the tool %s takes %q, but nothing it runs reads it", n, jf.name))
					}
				}
			}
		}
		if os.Getenv("SCOPE_DUMP") != "" {
			for _, n := range sortedKeys(defs) {
				fmt.Fprintln(os.Stderr, n, names(calls[n]), "/", names(regs[n]))
			}
		}
		sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Construct < r.Findings[j].Construct })
		return r
	})
}

// schema compares an object schema with the struct the input is decoded into.
func (t *toolRun) schema(r *Result, add func(rule, construct, pos, msg string), tool, at string, s *tval, rt types.Type, pos string, depth int) {
	props := s.m["properties"]
	if props == nil || !props.isMap || depth > 3 {
		return
	}
	fields := map[string]jsonField{}
	for _, f := range jsonFields(rt) {
		fields[f.name] = f
	}
	if len(fields) == 0 {
		return
	}
	for _, n := range sortedKeys(props.m) {
		r.Counts["properties"]++
		f, ok := fields[n]
		if !ok {
			add("schema", at+"."+n, pos, fmt.Sprintf("the schema of %s has %q, which the request does not: it is dropped", tool, n))
			continue
		}
		v := props.m[n]
		if v == nil || v.m["type"] == nil || v.m["type"].str == nil {
			r.Counts["not_followed"]++
			continue
		}
		k := *v.m["type"].str
		if !fitsSchema(k, f.v.Type()) {
			add("schema", at+"."+n, pos, fmt.Sprintf("the schema of %s says %q is of type %s, the request has %s: the input is refused", tool, n, k, f.v.Type()))
			continue
		}
		switch k {
		case "object":
			if v.m["properties"] != nil {
				t.schema(r, add, tool, at+"."+n, v, f.v.Type(), pos, depth+1)
			}
		case "array":
			el := derefT(f.v.Type()).Underlying()
			sl, ok := el.(*types.Slice)
			if it := v.m["items"]; ok && it != nil && it.isMap {
				if ik := it.m["type"]; ik != nil && ik.str != nil {
					if !fitsSchema(*ik.str, sl.Elem()) {
						add("schema", at+"."+n, pos, fmt.Sprintf("the schema of %s says the items of %q are of type %s, the request has %s", tool, n, *ik.str, sl.Elem()))
					} else if *ik.str == "object" {
						t.schema(r, add, tool, at+"."+n, it, sl.Elem(), pos, depth+1)
					}
				}
			}
		}
	}
	for _, n := range sortedKeys(fields) {
		if _, ok := props.m[n]; !ok {
			add("schema", at+"."+n, pos, fmt.Sprintf("the request of %s has %q, which its schema does not offer", tool, n))
		}
	}
	req := s.m["required"]
	if req == nil || !req.isLst {
		return
	}
	need := map[string]bool{}
	for _, x := range req.list {
		if x == nil || x.str == nil {
			return
		}
		need[*x.str] = true
		if _, ok := props.m[*x.str]; !ok {
			add("schema", at+"."+*x.str, pos, fmt.Sprintf("the schema of %s requires %q but does not describe it", tool, *x.str))
		}
	}
	for _, n := range sortedKeys(fields) {
		f := fields[n]
		if _, ok := props.m[n]; !ok {
			continue
		}
		r.Counts["required_compared"]++
		if need[n] && f.omit {
			add("required", at+"."+n, pos, fmt.Sprintf("the schema of %s requires %q, the MCP server, which goes by the request's tags, does not", tool, n))
		}
		if !need[n] && !f.omit {
			add("required", at+"."+n, pos, fmt.Sprintf("the schema of %s leaves %q out as optional, the MCP server, which goes by the request's tags, requires it", tool, n))
		}
	}
}

// fieldUses: whether code reachable from a function reads a field of a request.
func fieldUses(p *Prog) func(f *ssa.Function, jf jsonField) bool {
	type key struct {
		fn *ssa.Function
		v  *types.Var
	}
	reads := map[key]bool{}
	whole := map[*ssa.Function]map[*types.Struct]bool{}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					s, ok := derefT(x.X.Type()).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for _, u := range *x.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							continue
						}
						reads[key{fn, s.Field(x.Field)}] = true
					}
				case *ssa.Field:
					if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
						reads[key{fn, s.Field(x.Field)}] = true
					}
				case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
					// encoded, or taken as another type
					for _, op := range in.Operands(nil) {
						if s, ok := derefT((*op).Type()).Underlying().(*types.Struct); ok {
							if whole[fn] == nil {
								whole[fn] = map[*types.Struct]bool{}
							}
							whole[fn][s] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						succ[fn] = append(succ[fn], f)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						if f, ok := mc.Fn.(*ssa.Function); ok {
							succ[fn] = append(succ[fn], f)
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					succ[fn] = append(succ[fn], p.implementers(c.Common())...)
				}
			}
		}
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	return func(f *ssa.Function, jf jsonField) bool {
		if m, ok := f.Object().(*types.Func); ok {
			if g := p.prog.FuncValue(m); g != nil {
				f = g
			}
		}
		if reach[f] == nil {
			seen := map[*ssa.Function]bool{f: true}
			q := []*ssa.Function{f}
			for len(q) > 0 {
				g := q[0]
				q = q[1:]
				for _, h := range succ[g] {
					if !seen[h] && p.inModule(h) {
						seen[h] = true
						q = append(q, h)
					}
				}
			}
			reach[f] = seen
		}
		for g := range reach[f] {
			if reads[key{g, jf.v}] || whole[g][jf.own] {
				return true
			}
		}
		return false
	}
}
