package main

// A01: what a caller hands in stays the caller's, and what it gets back is its own. A points-to analysis with
// function summaries: which caller-owned slices, maps and records end up reachable from an object's state, and
// which parts of that state are handed out.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aloc: a place. base is a parameter index (free variables from 1000), or an allocation (alloc, and the call that
// led to it); path is a sequence of ".field", "[]" (elements) and "^" (what is pointed to).
type aloc struct {
	par  int
	val  ssa.Value
	site ssa.Instruction
	path string
}

func (a aloc) isParam() bool { return a.val == nil }
func (a aloc) add(s string) (aloc, bool) {
	if strings.Count(a.path, ".")+strings.Count(a.path, "[")+strings.Count(a.path, "^") > 9 {
		return a, false
	}
	a.path += s
	return a, true
}

// aref: a reference kept somewhere, and the type it has.
type aref struct {
	to aloc
	t  types.Type
}
type arefs map[aref]bool
type astate map[aloc]arefs

type asum struct {
	stores astate
	rets   []arefs
	writes map[aloc]bool // elements of the caller's slices and maps that are overwritten
	size   int
}

type aliasRun struct {
	p    *Prog
	sums map[*ssa.Function]*asum
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// refFields: the paths of the references inside a value that is copied.
func refFields(t types.Type, depth int, f func(path string, t types.Type)) {
	if isRefType(t) {
		f("", t)
		return
	}
	if depth > 3 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			refFields(u.Field(i).Type(), depth+1, func(p string, t types.Type) { f("."+n+p, t) })
		}
	case *types.Array:
		refFields(u.Elem(), depth+1, func(p string, t types.Type) { f("[]"+p, t) })
	}
}

func (st astate) clone() astate {
	n := astate{}
	for k, v := range st {
		n[k] = v
	}
	return n
}

// contents: what the reference kept at a place refers to.
func (st astate) contents(l aloc, t types.Type) arefs {
	if r, ok := st[l]; ok {
		return r
	}
	if l.isParam() {
		if n, ok := l.add("^"); ok {
			return arefs{{n, t}: true}
		}
	}
	return nil
}

func unionRefs(a, b arefs) arefs {
	if len(b) == 0 {
		return a
	}
	n := arefs{}
	for k := range a {
		n[k] = true
	}
	for k := range b {
		n[k] = true
	}
	return n
}

func (st astate) join(o astate) bool {
	changed := false
	for k, v := range o {
		have, ok := st[k]
		if !ok {
			if k.isParam() {
				// not set on the other way: keeps what it had
				for r := range v {
					have = st.contents(k, r.t)
					break
				}
			}
		}
		n := unionRefs(have, v)
		if len(n) != len(have) || !ok {
			st[k] = n
			changed = true
		}
	}
	for k, v := range st {
		if _, ok := o[k]; !ok && k.isParam() {
			for r := range v {
				d := o.contents(k, r.t)
				n := unionRefs(v, d)
				if len(n) != len(v) {
					st[k] = n
					changed = true
				}
				break
			}
		}
	}
	return changed
}

// resolve follows a path from a place.
func (st astate) resolve(from []aloc, path string, t types.Type) []aloc {
	cur := from
	for path != "" {
		var step string
		switch {
		case path[0] == '^':
			step, path = "^", path[1:]
		case strings.HasPrefix(path, "[]"):
			step, path = "[]", path[2:]
		default:
			n := 1
			for n < len(path) && path[n] != '.' && path[n] != '^' && path[n] != '[' {
				n++
			}
			step, path = path[:n], path[n:]
		}
		var next []aloc
		seen := map[aloc]bool{}
		for _, l := range cur {
			if step == "^" {
				for r := range st.contents(l, t) {
					if !seen[r.to] {
						seen[r.to] = true
						next = append(next, r.to)
					}
				}
			} else if n, ok := l.add(step); ok && !seen[n] {
				seen[n] = true
				next = append(next, n)
			}
		}
		cur = next
	}
	return cur
}

type afn struct {
	a    *aliasRun
	fn   *ssa.Function
	vals map[ssa.Value][]aloc
	ch   bool
	sum  *asum
}

// wrote: elements are overwritten.
func (f *afn) wrote(ls []aloc) {
	for _, l := range ls {
		if l.isParam() && strings.Contains(l.path[strings.LastIndex(l.path, "^")+1:], "[]") && !f.sum.writes[l] {
			f.sum.writes[l] = true
			f.ch = true
		}
	}
}

func (f *afn) set(v ssa.Value, ls []aloc) {
	have := map[aloc]bool{}
	for _, l := range f.vals[v] {
		have[l] = true
	}
	for _, l := range ls {
		if !have[l] {
			have[l] = true
			f.vals[v] = append(f.vals[v], l)
			f.ch = true
		}
	}
}

func (f *afn) get(v ssa.Value) []aloc {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return []aloc{{par: -1, path: "." + x.Name()}}
	}
	return f.vals[v]
}

// put copies the references inside a value to a place.
func (f *afn) put(st astate, dst []aloc, v ssa.Value, t types.Type, weak bool) {
	src := f.get(v)
	refFields(t, 0, func(path string, ft types.Type) {
		var refs arefs
		if path == "" {
			refs = arefs{}
			for _, s := range src {
				refs[aref{s, ft}] = true
			}
		} else {
			for _, s := range src {
				if l, ok := s.add(path); ok {
					refs = unionRefs(refs, st.contents(l, ft))
				}
			}
		}
		if refs == nil {
			refs = arefs{}
		}
		f.write(st, dst, path, refs, ft, weak)
	})
}

func (f *afn) write(st astate, dst []aloc, path string, refs arefs, ft types.Type, weak bool) {
	strong := !weak && len(dst) == 1 && !strings.Contains(dst[0].path+path, "[]")
	for _, d := range dst {
		l, ok := d.add(path)
		if !ok {
			continue
		}
		if strong {
			st[l] = refs
		} else if len(refs) > 0 {
			st[l] = unionRefs(st.contents(l, ft), refs)
		}
	}
}

func (f *afn) call(st astate, in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// the old elements or a new array of them
			f.set(res, f.get(c.Args[0]))
			n := aloc{val: res}
			f.set(res, []aloc{n})
			el := res.Type().Underlying().(*types.Slice).Elem()
			refFields(el, 0, func(path string, ft types.Type) {
				for _, a := range c.Args {
					if _, ok := a.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					for _, s := range f.get(a) {
						l, ok := s.add("[]" + path)
						if !ok {
							continue
						}
						refs := st.contents(l, ft)
						for _, d := range f.get(res) {
							if d == s {
								continue
							}
							if dl, ok := d.add("[]" + path); ok {
								st[dl] = unionRefs(st.contents(dl, ft), refs)
							}
						}
					}
				}
			})
		case "delete", "clear":
			f.wrote(f.elems(c.Args[0]))
		case "copy":
			f.wrote(f.elems(c.Args[0]))
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				refFields(s.Elem(), 0, func(path string, ft types.Type) {
					for _, s := range f.get(c.Args[1]) {
						if l, ok := s.add("[]" + path); ok {
							f.write(st, f.get(c.Args[0]), "[]"+path, st.contents(l, ft), ft, true)
						}
					}
				})
			}
		}
		return
	}
	var callees []*ssa.Function
	args := c.Args
	if c.IsInvoke() {
		callees = f.a.p.implementers(c)
		args = append([]ssa.Value{c.Value}, args...)
	} else if s := c.StaticCallee(); s != nil {
		callees = []*ssa.Function{s}
	}
	for _, g := range callees {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && mc.Fn == g {
			f.apply(st, in, g, args, mc.Bindings, res)
			continue
		}
		if f.a.p.inModule(g) && len(g.Blocks) > 0 {
			f.apply(st, in, g, args, nil, res)
			continue
		}
		if n := fnName(g); strings.HasPrefix(n, "sort.S") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") || strings.HasPrefix(n, "sort.Float") || strings.HasPrefix(n, "sort.Int") {
			f.wrote(f.elems(args[0]))
		}
		switch fnName(g) {
		case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync/atomic.Value).Store", "(*container/list.List).PushBack", "(*container/list.List).PushFront":
			for _, a := range args[1:] {
				f.put(st, f.elems(args[0]), a, a.Type(), true)
			}
		}
	}
	if res != nil && isRefType(res.Type()) && (len(callees) == 0 || !f.a.p.inModule(callees[0]) || c.IsInvoke()) {
		f.set(res, []aloc{{val: res}})
	}
}

func (f *afn) elems(v ssa.Value) []aloc {
	var r []aloc
	for _, l := range f.get(v) {
		if n, ok := l.add("[]"); ok {
			r = append(r, n)
		}
	}
	return r
}

func (f *afn) apply(st astate, in ssa.Instruction, g *ssa.Function, args []ssa.Value, free []ssa.Value, res ssa.Value) {
	s := f.a.sums[g]
	if s == nil {
		return
	}
	argOf := func(i int) []aloc {
		if i >= 1000 {
			if i-1000 < len(free) {
				return f.get(free[i-1000])
			}
			return nil
		}
		if i >= 0 && i < len(args) {
			return f.get(args[i])
		}
		return nil
	}
	before := st.clone()
	inst := func(l aloc, t types.Type) []aloc {
		if l.isParam() {
			if l.par == -1 {
				return []aloc{l}
			}
			return before.resolve(argOf(l.par), l.path, t)
		}
		l.site = in
		return []aloc{l}
	}
	instRefs := func(rs arefs) arefs {
		n := arefs{}
		for r := range rs {
			for _, l := range inst(r.to, r.t) {
				n[aref{l, r.t}] = true
			}
		}
		return n
	}
	for dst, refs := range s.stores {
		ds := inst(dst, nil)
		r := instRefs(refs)
		var ft types.Type
		for x := range refs {
			ft = x.t
		}
		f.write(st, ds, "", r, ft, !dst.isParam())
	}
	for w := range s.writes {
		f.wrote(inst(w, nil))
	}
	if res == nil {
		return
	}
	if len(s.rets) == 1 {
		var ls []aloc
		for r := range instRefs(s.rets[0]) {
			ls = append(ls, r.to)
		}
		f.set(res, ls)
		return
	}
	if refs := res.Referrers(); refs != nil {
		for _, u := range *refs {
			if e, ok := u.(*ssa.Extract); ok && e.Index < len(s.rets) {
				var ls []aloc
				for r := range instRefs(s.rets[e.Index]) {
					ls = append(ls, r.to)
				}
				f.set(e, ls)
			}
		}
	}
}

func (f *afn) load(st astate, from []aloc, t types.Type) []aloc {
	if !isRefType(t) {
		return from // a copy of what is there
	}
	var r []aloc
	seen := map[aloc]bool{}
	for _, l := range from {
		for x := range st.contents(l, t) {
			if !seen[x.to] {
				seen[x.to] = true
				r = append(r, x.to)
			}
		}
	}
	return r
}

func (f *afn) step(st astate, in ssa.Instruction) {
	sub := func(v ssa.Value, s string) []aloc {
		var r []aloc
		for _, l := range f.get(v) {
			if n, ok := l.add(s); ok {
				r = append(r, n)
			}
		}
		return r
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		f.set(x, []aloc{{val: x}})
		if !x.Heap || true {
			// a new one each time: nothing is kept in it yet
			for k := range st {
				if k.val == ssa.Value(x) && k.site == nil {
					delete(st, k)
				}
			}
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		f.set(x.(ssa.Value), []aloc{{val: x.(ssa.Value)}})
	case *ssa.MakeClosure:
		if g, ok := x.Fn.(*ssa.Function); ok {
			f.apply(st, in, g, nil, x.Bindings, nil)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.set(x, f.get(e))
		}
	case *ssa.ChangeType:
		f.set(x, f.get(x.X))
	case *ssa.ChangeInterface:
		f.set(x, f.get(x.X))
	case *ssa.MakeInterface:
		if isRefType(x.X.Type()) {
			f.set(x, f.get(x.X))
		} else {
			// a copy
			n := aloc{val: x}
			f.set(x, []aloc{n})
			f.put(st, []aloc{n}, x.X, x.X.Type(), true)
		}
	case *ssa.TypeAssert:
		f.set(x, f.get(x.X))
	case *ssa.Slice:
		f.set(x, f.get(x.X))
	case *ssa.FieldAddr:
		if s, ok := derefT(x.X.Type()).Underlying().(*types.Struct); ok {
			f.set(x, sub(x.X, "."+s.Field(x.Field).Name()))
		}
	case *ssa.Field:
		if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
			f.set(x, f.load(st, sub(x.X, "."+s.Field(x.Field).Name()), x.Type()))
		}
	case *ssa.IndexAddr:
		f.set(x, sub(x.X, "[]"))
	case *ssa.Index:
		f.set(x, f.load(st, sub(x.X, "[]"), x.Type()))
	case *ssa.Lookup:
		t := x.Type()
		if x.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		f.set(x, f.load(st, sub(x.X, "[]"), t))
	case *ssa.Range:
		f.set(x, f.get(x.X))
	case *ssa.Next:
		f.set(x, f.get(x.Iter))
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Next:
			if x.Index == 2 {
				f.set(x, f.load(st, sub(y, "[]"), x.Type()))
			}
		case *ssa.Lookup, *ssa.TypeAssert, *ssa.UnOp:
			if x.Index == 0 {
				f.set(x, f.get(x.Tuple))
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			f.set(x, f.load(st, f.get(x.X), x.Type()))
		case token.ARROW:
			t := x.Type()
			if x.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
			}
			f.set(x, f.load(st, sub(x.X, "[]"), t))
		}
	case *ssa.Store:
		f.put(st, f.get(x.Addr), x.Val, x.Val.Type(), false)
		f.wrote(f.get(x.Addr))
	case *ssa.MapUpdate:
		f.put(st, sub(x.Map, "[]"), x.Value, x.Value.Type(), true)
		f.wrote(sub(x.Map, "[]"))
	case *ssa.Send:
		f.put(st, sub(x.Chan, "[]"), x.X, x.X.Type(), true)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				f.put(st, sub(s.Chan, "[]"), s.Send, s.Send.Type(), true)
			}
		}
	case *ssa.Call:
		f.call(st, in, &x.Call, x)
	case *ssa.Go:
		f.call(st, in, &x.Call, nil)
	case *ssa.Defer:
		f.call(st, in, &x.Call, nil)
	}
}

func (a *aliasRun) summarise(fn *ssa.Function) *asum {
	sum := &asum{stores: astate{}, writes: map[aloc]bool{}}
	f := &afn{a: a, fn: fn, vals: map[ssa.Value][]aloc{}, sum: sum}
	for i, p := range fn.Params {
		f.vals[p] = []aloc{{par: i}}
	}
	for i, p := range fn.FreeVars {
		f.vals[p] = []aloc{{par: 1000 + i}}
	}
	ins := map[*ssa.BasicBlock]astate{fn.Blocks[0]: {}}
	if r := fn.Signature.Results(); r.Len() > 0 {
		sum.rets = make([]arefs, r.Len())
	}
	for round := 0; round < 12; round++ {
		f.ch = false
		changed := false
		exit := astate(nil)
		for _, b := range fn.DomPreorder() {
			in, ok := ins[b]
			if !ok {
				continue
			}
			st := in.clone()
			for _, i := range b.Instrs {
				f.step(st, i)
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for k, v := range r.Results {
					t := v.Type()
					refFields(t, 0, func(path string, ft types.Type) {
						for _, l := range f.get(v) {
							if path == "" {
								sum.rets[k] = unionRefs(sum.rets[k], arefs{{l, ft}: true})
							}
						}
					})
					if !isRefType(t) {
						for _, l := range f.get(v) {
							sum.rets[k] = unionRefs(sum.rets[k], arefs{{l, t}: true})
						}
					}
				}
				var out []arefs
				for _, v := range r.Results {
					o := arefs{}
					for _, l := range f.get(v) {
						o[aref{to: l}] = true
					}
					out = append(out, o)
				}
				seen := visible(st, out)
				if exit == nil {
					exit = seen
				} else {
					exit.join(seen)
				}
			}
			for n, s := range b.Succs {
				st := st
				if v := noneOn(b, n); v != nil {
					st = st.clone()
					f.none(st, v)
				}
				if have, ok := ins[s]; !ok {
					ins[s] = st.clone()
					changed = true
				} else if have.join(st) {
					changed = true
				}
			}
		}
		if exit != nil {
			sum.stores = exit
		}
		if !changed && !f.ch {
			break
		}
	}
	for _, v := range sum.stores {
		sum.size += 1 + len(v)
	}
	for _, r := range sum.rets {
		sum.size += len(r)
	}
	sum.size += len(sum.writes)
	return sum
}

// noneOn: the reference that is nil, or refers to nothing, when a block is left by its n-th way.
func noneOn(b *ssa.BasicBlock, n int) ssa.Value {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := c.X, c.Y, c.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GEQ:
			op = token.LEQ
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok {
		return nil
	}
	if k.IsNil() {
		if op == token.EQL && n == 0 || op == token.NEQ && n == 1 {
			return x
		}
		return nil
	}
	l, ok := x.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := l.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != 0 {
		return nil
	}
	if (op == token.EQL || op == token.LEQ) && n == 0 || (op == token.NEQ || op == token.GTR) && n == 1 {
		return l.Call.Args[0]
	}
	return nil
}

func (f *afn) none(st astate, v ssa.Value) {
	ls := f.get(v)
	if len(ls) != 1 || !ls[0].isParam() {
		return
	}
	at := ls[0]
	for k, refs := range st {
		n := arefs{}
		for r := range refs {
			if r.to != at {
				n[r] = true
			}
		}
		if len(n) != len(refs) && !(k.isParam() && len(n) == 0) {
			st[k] = n
		}
	}
}

// visible: the part of a state at a return that the caller can see.
func visible(st astate, rets []arefs) astate {
	keep := astate{}
	seen := map[aloc]bool{}
	var visit func(base aloc)
	visit = func(base aloc) {
		base.path = ""
		if seen[base] {
			return
		}
		seen[base] = true
		for k, v := range st {
			kb := k
			kb.path = ""
			if kb != base {
				continue
			}
			keep[k] = v
			for r := range v {
				if !r.to.isParam() {
					visit(r.to)
				}
			}
		}
	}
	for k := range st {
		if k.isParam() {
			visit(aloc{par: k.par})
		}
	}
	for _, rs := range rets {
		for r := range rs {
			if !r.to.isParam() {
				visit(r.to)
			}
		}
	}
	return keep
}

// plainData: a pointer to a record of values only: all its fields are exported, and none is behaviour or a resource.
func plainData(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() > 0 && dataType(p.Elem(), 0)
}

func dataType(t types.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() || !dataType(u.Field(i).Type(), depth+1) {
				return false
			}
		}
	case *types.Pointer:
		return dataType(u.Elem(), depth+1)
	case *types.Slice:
		return dataType(u.Elem(), depth+1)
	case *types.Map:
		return dataType(u.Elem(), depth+1)
	case *types.Signature, *types.Chan:
		return false
	case *types.Interface:
		return u.NumMethods() == 0
	}
	return true
}

func sharedType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return plainData(t)
}

func init() {
	register("A01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"methods": 40, "functions": 300, "stored_references": 5}}
		a := &aliasRun{p: p, sums: map[*ssa.Function]*asum{}}
		var fns []*ssa.Function
		for _, fn := range p.allFuncs {
			if len(fn.Blocks) > 0 {
				fns = append(fns, fn)
			}
		}
		r.Counts["functions"] = len(fns)
		for round := 0; round < 12; round++ {
			ch := false
			for _, fn := range fns {
				s := a.summarise(fn)
				if o := a.sums[fn]; o == nil || o.size != s.size {
					ch = true
				}
				a.sums[fn] = s
			}
			r.Counts["rounds"] = round + 1
			if !ch {
				break
			}
		}
		dump := os.Getenv("SCOPE_DUMP") != ""
		var keys []string
		found := map[string]*Finding{}
		add := func(rule, fn string, pos token.Pos, what, msg string) {
			k := rule + "|" + fn + "[" + what + "]"
			if found[k] == nil {
				found[k] = &Finding{Rule: rule, Construct: fn + "[" + what + "]", Pos: p.pos(pos), Msg: msg, Chain: fn}
				keys = append(keys, k)
			}
		}
		for _, fn := range p.exportedRoots() {
			if len(fn.Blocks) == 0 {
				continue
			}
			if fn.Signature.Recv() == nil {
				for w := range a.sums[fn].writes {
					if w.par >= 0 && w.par < len(fn.Params) && dataType(fn.Params[w.par].Type(), 0) {
						add("overwritten", fnName(fn), fn.Pos(), fn.Params[w.par].Name()+strings.ReplaceAll(w.path, "^", ""), fmt.Sprintf("the caller's %s%s is overwritten", fn.Params[w.par].Name(), strings.ReplaceAll(w.path, "^", "")))
					}
				}
				r.Counts["plain_functions"]++
				continue
			}
			if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok {
				continue
			}
			if plainData(fn.Signature.Recv().Type()) || isBuilder(p, fn.Signature.Recv().Type()) {
				continue
			}
			r.Counts["methods"]++
			s := a.sums[fn]
			pname := func(i int) string {
				if i < len(fn.Params) {
					return fn.Params[i].Name()
				}
				return fmt.Sprint(i)
			}
			for k, refs := range s.stores {
				if !k.isParam() || k.par != 0 && k.par != -1 {
					continue
				}
				seen := map[aloc]bool{}
				var walk func(at string, refs arefs)
				walk = func(at string, refs arefs) {
					for x := range refs {
						if x.to.isParam() {
							if x.to.par > 0 && x.to.par < 1000 {
								r.Counts["stored_references"]++
								if dump {
									fmt.Fprintf(os.Stderr, "%s: %s <- %s%s %v\n", fnName(fn), at, pname(x.to.par), x.to.path, x.t)
								}
								if sharedType(x.t) {
									add("kept", fnName(fn), fn.Pos(), pname(x.to.par)+strings.ReplaceAll(x.to.path, "^", ""), fmt.Sprintf("the caller's %s%s (%s) is kept in %s without being copied", pname(x.to.par), strings.ReplaceAll(x.to.path, "^", ""), types.TypeString(x.t, types.RelativeTo(fn.Pkg.Pkg)), strings.ReplaceAll(at, "^", "")))
								}
							}
							continue
						}
						if seen[x.to] {
							continue
						}
						seen[x.to] = true
						for l, v := range s.stores {
							if l.val == x.to.val && l.site == x.to.site && strings.HasPrefix(l.path, x.to.path) {
								walk(at+"^"+l.path[len(x.to.path):], v)
							}
						}
					}
				}
				walk(k.path, refs)
			}
			for w := range s.writes {
				if w.par > 0 && w.par < len(fn.Params) && dataType(fn.Params[w.par].Type(), 0) {
					r.Counts["overwritten"]++
					add("overwritten", fnName(fn), fn.Pos(), pname(w.par)+strings.ReplaceAll(w.path, "^", ""), fmt.Sprintf("the caller's %s%s is overwritten", pname(w.par), strings.ReplaceAll(w.path, "^", "")))
				}
			}
			// the objects kept in the receiver
			kept := map[aloc]string{}
			var keep func(at string, refs arefs)
			keep = func(at string, refs arefs) {
				for x := range refs {
					if x.to.isParam() {
						continue
					}
					if _, ok := kept[x.to]; ok {
						continue
					}
					kept[x.to] = at
					for l, v := range s.stores {
						if l.val == x.to.val && l.site == x.to.site && strings.HasPrefix(l.path, x.to.path) {
							keep(at+l.path[len(x.to.path):], v)
						}
					}
				}
			}
			for k, refs := range s.stores {
				if k.isParam() && (k.par == 0 || k.par == -1) {
					keep(k.path, refs)
				}
			}
			for _, refs := range s.rets {
				seen := map[aloc]bool{}
				var walk func(at string, refs arefs)
				walk = func(at string, refs arefs) {
					for x := range refs {
						if x.to.isParam() {
							if (x.to.par == 0 && x.to.path != "" || x.to.par == -1) && sharedType(x.t) {
								if dump {
									fmt.Fprintf(os.Stderr, "%s: returns %s = recv%s %v\n", fnName(fn), at, x.to.path, x.t)
								}
								add("handed-out", fnName(fn), fn.Pos(), strings.ReplaceAll(x.to.path, "^", ""), fmt.Sprintf("the object's own %s (%s) is returned without being copied", strings.ReplaceAll(x.to.path, "^", ""), types.TypeString(x.t, types.RelativeTo(fn.Pkg.Pkg))))
							}
							continue
						}
						if where, ok := kept[x.to]; ok && sharedType(x.t) {
							where = strings.ReplaceAll(where, "^", "")
							add("handed-out", fnName(fn), fn.Pos(), where, fmt.Sprintf("the object's own %s (%s) is returned without being copied", where, types.TypeString(x.t, types.RelativeTo(fn.Pkg.Pkg))))
						}
						if seen[x.to] {
							continue
						}
						seen[x.to] = true
						for l, v := range s.stores {
							if l.val == x.to.val && l.site == x.to.site && strings.HasPrefix(l.path, x.to.path) {
								walk(at+"^"+l.path[len(x.to.path):], v)
							}
						}
					}
				}
				walk("", refs)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			r.add(found[k])
		}
		return r
	})
}

// isBuilder: a value that is put together by chained calls; it is its caller's own.
func isBuilder(p *Prog, t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		if r := f.Type().(*types.Signature).Results(); r.Len() == 1 && types.Identical(r.At(0).Type(), t) {
			return true
		}
	}
	return false
}
