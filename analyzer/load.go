package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/liliang-cn/cortexdb/v2"

type Prog struct {
	dir       string
	pkgs      []*packages.Package
	prog      *ssa.Program
	fset      *token.FileSet
	allFuncs  []*ssa.Function // source functions (incl. anonymous) of the analysed packages
	byPath    map[string]*packages.Package
	pathType  map[string]types.Type
	impl      map[string][]*ssa.Function
	callers   map[*ssa.Function]map[*ssa.Function]bool
	named     []*types.Named
	exclField map[string]bool
	immut     map[string]bool
	fcfg      *flowConfig
	withInit  []*ssa.Function
}

func loadProg(dir string) (*Prog, error) {
	env := os.Environ()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./pkg/...", "./internal/...", "./cmd/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check/load errors: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, pkgs: pkgs, prog: prog, fset: prog.Fset, byPath: map[string]*packages.Package{}, pathType: map[string]types.Type{}, impl: map[string][]*ssa.Function{}}
	for _, q := range pkgs {
		p.byPath[q.PkgPath] = q
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !p.inModule(fn) {
			continue
		}
		p.allFuncs = append(p.allFuncs, fn)
	}
	sort.Slice(p.allFuncs, func(i, j int) bool {
		a, b := p.allFuncs[i], p.allFuncs[j]
		x, y := p.fset.Position(a.Pos()), p.fset.Position(b.Pos())
		if x.Filename != y.Filename {
			return x.Filename < y.Filename
		}
		if x.Offset != y.Offset {
			return x.Offset < y.Offset
		}
		return a.String() < b.String()
	})
	for _, q := range pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.named = append(p.named, nt)
				}
			}
		}
	}
	return p, nil
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return p.byPath[fn.Pkg.Pkg.Path()] != nil
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.byPath[o.Pkg().Path()] != nil
	}
	return false
}

func (p *Prog) setPathType(path string, t types.Type) {
	if path == "" {
		return
	}
	p.pathType[path] = t
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) file(pos token.Pos) string {
	s := p.pos(pos)
	if i := strings.LastIndexByte(s, ':'); i > 0 {
		return s[:i]
	}
	return s
}

// implementers resolves an interface call to the module's concrete methods.
func (p *Prog) implementers(c *ssa.CallCommon) []*ssa.Function {
	k := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.impl[k]; ok {
		return r
	}
	var r []*ssa.Function
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if ok && !isErrorType(c.Value.Type()) && it.NumMethods() > 0 {
		for _, n := range p.named {
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if types.Implements(t, it) {
					if f := p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
						r = append(r, f)
					}
					break
				}
			}
		}
	}
	p.impl[k] = r
	return r
}

// callersOf builds the (over-approximate) module call graph, reversed.
func (p *Prog) callersOf() map[*ssa.Function]map[*ssa.Function]bool {
	if p.callers != nil {
		return p.callers
	}
	m := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(callee, caller *ssa.Function) {
		if m[callee] == nil {
			m[callee] = map[*ssa.Function]bool{}
		}
		m[callee][caller] = true
	}
	for _, fn := range p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if c.IsInvoke() {
						for _, f := range p.implementers(c) {
							add(f, fn)
						}
					} else if f := c.StaticCallee(); f != nil {
						add(f, fn)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v, fn)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function), fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function), fn)
				}
			}
		}
	}
	p.callers = m
	return m
}

// fnByName finds a function by its short name, e.g. "(*core.SQLiteStore).Search".
func (p *Prog) fnByName(name string) *ssa.Function {
	for _, f := range p.allFuncs {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// exportedRoots: exported functions and methods of exported types reachable by users.
func (p *Prog) exportedRoots(pkgSuffix ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.allFuncs {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		o, ok := fn.Object().(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		if len(pkgSuffix) > 0 {
			m := false
			for _, s := range pkgSuffix {
				if strings.HasSuffix(o.Pkg().Path(), s) {
					m = true
				}
			}
			if !m {
				continue
			}
		}
		if rv := o.Type().(*types.Signature).Recv(); rv != nil {
			n := recvNamed(rv.Type())
			if n == nil || !n.Obj().Exported() {
				continue
			}
		}
		r = append(r, fn)
	}
	return r
}

func recvNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// lookupType finds a named type "core.SQLiteStore".
func (p *Prog) lookupType(short string) *types.Named {
	i := strings.LastIndexByte(short, '.')
	for _, q := range p.pkgs {
		if strings.HasSuffix(q.PkgPath, "/"+short[:i]) {
			if o, ok := q.Types.Scope().Lookup(short[i+1:]).(*types.TypeName); ok {
				n, _ := o.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath+"/pkg/"), modPath+"/")
	})
	return strings.TrimPrefix(s, "*")
}

// exclusiveField: every value stored in the unexported field is nil, freshly allocated, or the
// result of a call (a constructor), never a parameter or another object's field.
func (p *Prog) exclusiveField(named *types.Named, field string) bool {
	key := shortType(named) + "." + field
	if v, ok := p.exclField[key]; ok {
		return v
	}
	if p.exclField == nil {
		p.exclField = map[string]bool{}
	}
	res := len(field) > 0 && !token.IsExported(field)
	var fresh func(v ssa.Value, d int) bool
	fresh = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			return true
		case *ssa.Call:
			return !x.Call.IsInvoke()
		case *ssa.Extract:
			return fresh(x.Tuple, d+1)
		case *ssa.MakeInterface:
			return fresh(x.X, d+1)
		case *ssa.ChangeType:
			return fresh(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !fresh(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	n := 0
	for _, fn := range p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt, ok := derefT(fa.X.Type()).(*types.Named)
				if !ok || nt.Obj() != named.Obj() || fieldName(derefT(fa.X.Type()), fa.Field) != field {
					continue
				}
				n++
				if !fresh(st.Val, 0) {
					res = false
				}
			}
		}
	}
	p.exclField[key] = res && n > 0
	return p.exclField[key]
}

// pkgName is the last path element of the package a function belongs to.
func pkgName(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	return path[strings.LastIndexByte(path, '/')+1:]
}

// immutableField: an unexported field that is only ever set on an object under construction.
func (p *Prog) immutableField(named *types.Named, field string) bool {
	if p.immut == nil {
		p.immut = map[string]bool{} // field -> some store disqualifies it
		for _, fn := range p.allFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						nt, ok := derefT(x.X.Type()).(*types.Named)
						if !ok {
							continue
						}
						if _, constructed := x.X.(*ssa.Alloc); constructed {
							continue
						}
						for _, r := range *x.Referrers() {
							if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							if fa, ok := r.(*ssa.FieldAddr); ok && fa.X == ssa.Value(x) {
								continue // a part of an embedded struct, not the field itself
							}
							p.immut[shortType(nt)+"."+fieldName(nt, x.Field)] = true
						}
					case *ssa.Store:
						if nt, ok := derefT(x.Addr.Type()).(*types.Named); ok && isStruct(nt) {
							if _, local := x.Addr.(*ssa.Alloc); !local {
								s := nt.Underlying().(*types.Struct)
								for i := 0; i < s.NumFields(); i++ {
									p.immut[shortType(nt)+"."+s.Field(i).Name()] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return field != "" && !token.IsExported(field) && !p.immut[shortType(named)+"."+field]
}

// allFuncsAndInit: the module's functions and package initialisers.
func (p *Prog) allFuncsAndInit() []*ssa.Function {
	if p.withInit == nil {
		p.withInit = append(p.withInit, p.allFuncs...)
		seen := map[*ssa.Function]bool{}
		for _, f := range p.allFuncs {
			seen[f] = true
		}
		for _, q := range p.prog.AllPackages() {
			if p.inModulePkg(q) {
				if f := q.Func("init"); f != nil && !seen[f] {
					p.withInit = append(p.withInit, f)
				}
			}
		}
	}
	return p.withInit
}

func (p *Prog) inModulePkg(q *ssa.Package) bool {
	return q != nil && strings.HasPrefix(q.Pkg.Path(), modPath)
}

// reaches: whether a call matching want can be reached from a function through calls whose
// target is known, or through functions it refers to.
func (p *Prog) reaches(want func(string) bool) func(*ssa.Function) bool {
	return func(root *ssa.Function) bool {
		seen := map[*ssa.Function]bool{root: true}
		work := []*ssa.Function{root}
		for len(work) > 0 {
			fn := work[len(work)-1]
			work = work[:len(work)-1]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && want(callName(c.Common())) {
						return true
					}
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && f.Blocks != nil && p.inModule(f) && !seen[f] {
							seen[f] = true
							work = append(work, f)
						}
					}
				}
			}
		}
		return false
	}
}
