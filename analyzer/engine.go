package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome of a modelled call.
type Outcome struct {
	st  *State // the (possibly modified) state; nil means use the incoming one
	res *Abs   // result value (tuple for multi-result)
	set bool   // st already describes what the call stored through its arguments
}

// Plugin supplies the property-specific transfer functions.
type Plugin interface {
	// Touches reports whether the function's own body has instructions the plugin cares about.
	Touches(fn *ssa.Function) bool
	// Call models a call; handled=false falls back to the generic model / inlining.
	Call(e *Eng, fr *Frame, st *State, c *CallSite) (handled bool, outs []Outcome)
}

// Optional plugin hooks.
type accessHook interface {
	Access(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, write bool)
}
type refineHook interface {
	RefineBool(e *Eng, fr *Frame, st *State, loc string, truth bool)
}
type edgeHook interface {
	// Edge is told which edge of the control-flow graph is taken
	Edge(e *Eng, st *State, from, to *ssa.BasicBlock)
}
type relHook interface {
	// Rel is told that "x op y" holds on this path, op one of < <= > >=
	Rel(e *Eng, fr *Frame, st *State, op token.Token, x, y ssa.Value)
}
type boolHook interface {
	// Bool is told that a boolean answered by a call, a map lookup or a type assertion is true or false
	Bool(e *Eng, fr *Frame, st *State, v ssa.Value, truth bool)
}
type afterHook interface {
	// After is told the state after an instruction
	After(e *Eng, fr *Frame, st *State, in ssa.Instruction)
}
type compareHook interface {
	// Compare is told that x==y (eq) or x!=y holds on this path. Returns false if infeasible.
	Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool
}
type returnHook interface {
	Return(e *Eng, fr *Frame, st *State, res []*Abs)
}
type instrHook interface {
	Instr(e *Eng, fr *Frame, st *State, in ssa.Instruction)
}
type loadHook interface {
	// Loaded may adjust the value loaded from a location
	Loaded(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, v *Abs) *Abs
}
type elemHook interface {
	// KeepElem filters the tags of a value put into a container; cut: forget where it came from
	KeepElem(st *State, tags string) (keep string, cut bool)
}
type goHook interface {
	Go(e *Eng, fr *Frame, st *State, fn *Abs, args []*Abs, in ssa.Instruction)
}
type enterHook interface {
	// Enter may split props kept back from the callee (frame), to be restored at exit.
	Enter(prop map[string]string) (inner map[string]string, restore func(map[string]string) map[string]string)
}

type CallSite struct {
	Instr   ssa.Instruction
	Common  *ssa.CallCommon
	Callee  *ssa.Function // static callee (incl. closures with known fn), may be nil
	Name    string        // full name of the static callee or interface method
	Args    []*Abs        // receiver first for methods and invokes
	ArgVals []ssa.Value
	Defer   bool
	FnAbs   *Abs
}

func (c *CallSite) Pos() token.Pos { return c.Common.Pos() }

type Frame struct {
	fn    *ssa.Function
	up    *Frame
	site  ssa.Instruction
	depth int
	root  *ssa.Function
	ret   *ssa.Return // the return being taken (return hooks only)
	spawn *Frame      // the frame that started this goroutine
}

func (f *Frame) parent() *Frame {
	if f.up != nil {
		return f.up
	}
	return f.spawn
}

func (f *Frame) chain() string {
	var l []string
	for g := f; g != nil; g = g.up {
		l = append(l, fnName(g.fn))
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return strings.Join(l, " -> ")
}

type Exit struct {
	prop   map[string]string
	heap   map[string]*Abs
	res    []*Abs
	params []*Abs
}

type memoEnt struct {
	exits      []*Exit
	inProgress bool
	recUsed    bool
}

type Eng struct {
	P         *Prog
	pl        Plugin
	memo      map[string]*memoEnt
	relevant  map[*ssa.Function]bool
	loopOnce  bool
	onceIf    func(s *State, h *ssa.BasicBlock) bool // limits loopOnce to these loops
	basicPath bool                                   // keep identities of basic-typed values
	keepStr   bool                                   // compute string templates
	inlineAll bool
	maxDepth  int
	nSim      int
	nStates   int
	nCalls    int
	goSeen    map[string]bool
	goRoots   []goRoot
	noInvoke  bool
	visited   map[*ssa.Function]bool
	overflow  map[string]bool
	dropArg   func(fn *ssa.Function, i int, a *Abs) *Abs
	debug     bool
	anonHoles bool
	exactCmp  bool         // EqualFold is no comparison
	skipField string       // tags under this field do not count
	splitBool bool         // states that differ in the value of a boolean variable are kept apart
	forkBool  bool         // returns of a comparison are told apart by its outcome
	deep      bool         // follow struct copies when collecting tags
	argOver   map[int]*Abs // parameters of the next root with known facts
	heads     map[*ssa.Function]map[*ssa.BasicBlock]bool
}

type goRoot struct {
	fn   *ssa.Function
	args []*Abs
	bnd  []*Abs
	from string
	heap map[string]*Abs
	root *ssa.Function
	fr   *Frame
}

func NewEng(p *Prog, pl Plugin) *Eng {
	return &Eng{P: p, pl: pl, memo: map[string]*memoEnt{}, maxDepth: 40, goSeen: map[string]bool{}, visited: map[*ssa.Function]bool{}, overflow: map[string]bool{}, heads: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
}

// ---------- relevance ----------

func (e *Eng) computeRelevant() {
	e.relevant = map[*ssa.Function]bool{}
	callers := e.P.callersOf()
	var work []*ssa.Function
	for _, fn := range e.P.allFuncs {
		if e.pl.Touches(fn) {
			e.relevant[fn] = true
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for c := range callers[f] {
			if !e.relevant[c] {
				e.relevant[c] = true
				work = append(work, c)
			}
		}
	}
	for _, fn := range e.P.allFuncs {
		if smallLeaf(fn) {
			e.relevant[fn] = true
		}
	}
}

// smallLeaf: a short function without calls into the module, loops or effects, which passes values on.
func smallLeaf(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || len(fn.Blocks) > 4 || len(fn.Params) == 0 || fn.Signature.Results().Len() == 0 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				return false
			}
		}
		for _, in := range b.Instrs {
			if n++; n > 40 {
				return false
			}
			switch x := in.(type) {
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f == nil {
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
						return false
					}
				} else if len(f.Blocks) > 0 {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.Panic:
				return false
			}
		}
	}
	return true
}

// ---------- root execution ----------

// RunRoot simulates fn from an unconstrained entry state.
func (e *Eng) RunRoot(fn *ssa.Function, prop map[string]string, heap map[string]*Abs) []*Exit {
	if e.relevant == nil {
		e.computeRelevant()
	}
	args := make([]*Abs, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = &Abs{Path: fmt.Sprintf("p%d_%s", i, pathSafe(p.Type()))}
		if i == 0 && fn.Signature.Recv() != nil {
			args[i].Nil = No
		}
		e.P.setPathType(args[i].Path, p.Type())
		args[i] = e.normArg(p.Type(), args[i])
		if o := e.argOver[i]; o != nil {
			args[i] = o
		}
	}
	if prop == nil {
		prop = map[string]string{}
	}
	if heap == nil {
		heap = map[string]*Abs{}
	}
	fr := &Frame{fn: fn, root: fn}
	return e.simulate(fr, args, nil, prop, heap)
}

// pathSafe names a type with characters that have no meaning in access paths.
func pathSafe(t types.Type) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

func (e *Eng) normArg(t types.Type, a *Abs) *Abs {
	if !e.basicPath && a.Path != "" && isBasic(t) {
		return a.withPath("")
	}
	return a
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// RunGoRoots simulates goroutine bodies collected so far (transitively).
func (e *Eng) RunGoRoots(mk func(g goRoot) map[string]string) int {
	n := 0
	for len(e.goRoots) > 0 {
		g := e.goRoots[0]
		e.goRoots = e.goRoots[1:]
		n++
		fr := &Frame{fn: g.fn, root: g.fn, spawn: g.fr}
		e.simulate(fr, g.args, g.bnd, mk(g), g.heap)
	}
	return n
}

// ---------- function simulation with memo ----------

func (e *Eng) call(fr *Frame, st *State, fn *ssa.Function, args, binds []*Abs, site ssa.Instruction) []*Exit {
	// frame rule: only pass reachable heap facts
	inHeap, frame := e.splitHeap(st.heap, args, binds)
	inProp := st.prop
	var restore func(map[string]string) map[string]string
	if h, ok := e.pl.(enterHook); ok {
		inProp, restore = h.Enter(st.prop)
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "%p", fn)
	for _, a := range args {
		kb.WriteString("\x01" + a.key())
	}
	for _, a := range binds {
		kb.WriteString("\x02" + a.key())
	}
	kb.WriteString("\x03" + propKey(inProp) + "\x04" + heapKey(inHeap))
	key := kb.String()
	ent := e.memo[key]
	if ent == nil {
		ent = &memoEnt{inProgress: true}
		e.memo[key] = ent
		nfr := &Frame{fn: fn, up: fr, site: site, depth: fr.depth + 1, root: fr.root}
		for iter := 0; iter < 6; iter++ {
			ent.recUsed = false
			exits := e.simulate(nfr, args, binds, inProp, inHeap)
			same := len(exits) == len(ent.exits)
			ent.exits = exits
			if !ent.recUsed || (same && iter > 0) {
				break
			}
		}
		ent.inProgress = false
	} else if ent.inProgress {
		ent.recUsed = true
	}
	outs := make([]*Exit, 0, len(ent.exits))
	for _, x := range ent.exits {
		h := make(map[string]*Abs, len(frame)+len(x.heap))
		for k, v := range frame {
			h[k] = v
		}
		for k, v := range x.heap {
			h[k] = v
		}
		p := x.prop
		if restore != nil {
			p = restore(x.prop)
		}
		outs = append(outs, &Exit{prop: p, heap: h, res: x.res, params: x.params})
	}
	return outs
}

func hasPathPrefix(k, p string) bool {
	if !strings.HasPrefix(k, p) {
		return false
	}
	return len(k) == len(p) || k[len(p)] == '.' || k[len(p)] == '['
}

func (e *Eng) splitHeap(heap map[string]*Abs, args, binds []*Abs) (in, frame map[string]*Abs) {
	in, frame = map[string]*Abs{}, map[string]*Abs{}
	if len(heap) == 0 {
		return
	}
	roots := map[string]bool{}
	var work []string
	var add func(a *Abs)
	add = func(a *Abs) {
		if a == nil {
			return
		}
		if a.Path != "" && !roots[a.Path] {
			roots[a.Path] = true
			work = append(work, a.Path)
		}
		for _, b := range a.Binds {
			add(b)
		}
		for _, b := range a.Tup {
			add(b)
		}
	}
	for _, a := range args {
		add(a)
	}
	for _, a := range binds {
		add(a)
	}
	taken := map[string]bool{}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		for k, v := range heap {
			if !taken[k] && (hasPathPrefix(k, p)) {
				taken[k] = true
				add(v)
			}
		}
	}
	for k, v := range heap {
		if taken[k] {
			in[k] = v
		} else {
			frame[k] = v
		}
	}
	return
}

func (e *Eng) loopHeads(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if h, ok := e.heads[fn]; ok {
		return h
	}
	h := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				h[s] = true
			}
		}
	}
	e.heads[fn] = h
	return h
}

const maxDisj = 160

func (e *Eng) simulate(fr *Frame, args, binds []*Abs, prop map[string]string, heap map[string]*Abs) []*Exit {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		return []*Exit{{prop: prop, heap: heap, res: unkResults(fn.Signature), params: args}}
	}
	e.nSim++
	e.visited[fn] = true
	st := &State{prop: copyProp(prop), heap: copyHeap(heap), env: map[ssa.Value]*Abs{}}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
			if args[i].Path != "" {
				if _, isI := p.Type().Underlying().(*types.Interface); !isI {
					e.P.setPathType(args[i].Path, p.Type())
				}
			}
		} else {
			st.env[p] = absUnk
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			st.env[p] = binds[i]
		} else {
			st.env[p] = absUnk
		}
	}
	entry := make([]map[string]*State, len(fn.Blocks))
	for i := range entry {
		entry[i] = map[string]*State{}
	}
	type item struct {
		b *ssa.BasicBlock
		k string
	}
	heads := e.loopHeads(fn)
	queued := map[item]bool{}
	var work []item
	push := func(b *ssa.BasicBlock, s *State) {
		k := s.mergeKey()
		cur := entry[b.Index][k]
		it := item{b, k}
		if cur == nil {
			if len(entry[b.Index]) >= maxDisj {
				e.overflow[fnName(fn)] = true
				return
			}
			entry[b.Index][k] = s
		} else if !mergeInto(cur, s) {
			return
		}
		if !queued[it] {
			queued[it] = true
			work = append(work, it)
		}
	}
	push(fn.Blocks[0], st)
	exits := map[string]*Exit{}
	var order []string
	steps := 0
	for len(work) > 0 {
		// pick lowest block index first (approximates reverse post-order)
		best := 0
		for i := range work {
			if work[i].b.Index < work[best].b.Index {
				best = i
			}
		}
		it := work[best]
		work = append(work[:best], work[best+1:]...)
		queued[it] = false
		steps++
		if steps > 20000 {
			e.overflow[fnName(fn)] = true
			break
		}
		s0 := entry[it.b.Index][it.k].clone()
		outs := []*State{s0}
		b := it.b
		var term ssa.Instruction
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue // evaluated on edges
			}
			switch in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				term = in
			}
			if term != nil {
				break
			}
			var next []*State
			for _, s := range outs {
				l := e.step(fr, s, in)
				if h, ok := e.pl.(afterHook); ok {
					for _, x := range l {
						h.After(e, fr, x, in)
					}
				}
				next = append(next, l...)
			}
			outs = e.capStates(next)
			if len(outs) == 0 {
				break
			}
		}
		e.nStates += len(outs)
		if t, ok := term.(*ssa.Return); ok && e.forkBool {
			outs = e.forkReturn(fr, outs, t)
		}
		for _, s := range outs {
			switch t := term.(type) {
			case *ssa.Return:
				res := make([]*Abs, len(t.Results))
				for i, r := range t.Results {
					res[i] = e.eval(s, r)
				}
				if h, ok := e.pl.(returnHook); ok {
					fr.ret, _ = b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					h.Return(e, fr, s, res)
				}
				params := make([]*Abs, len(fn.Params))
				for i, p := range fn.Params {
					params[i] = s.env[p]
				}
				if e.splitBool {
					for k := range s.prop {
						if strings.HasPrefix(k, "b:"+fnName(fn)+".") {
							delete(s.prop, k)
						}
					}
				}
				x := &Exit{prop: s.prop, heap: e.pruneHeap(s.heap), res: res, params: params}
				k := exitKey(x)
				if len(exits) > 48 {
					k = propKey(x.prop) + "\x00" + errKey(x.res)
				}
				if old := exits[k]; old != nil {
					old.heap = joinHeap(old.heap, x.heap)
					for i := range old.res {
						old.res[i] = joinAbs(old.res[i], x.res[i])
					}
					for i := range old.params {
						old.params[i] = joinAbs(old.params[i], x.params[i])
					}
				} else {
					exits[k] = x
					order = append(order, k)
				}
			case *ssa.Jump:
				e.edge(fr, s, b, b.Succs[0], heads, push)
			case *ssa.If:
				for i := 0; i < 2; i++ {
					n := s.clone()
					if !e.refine(fr, n, t.Cond, i == 0, 0) {
						continue
					}
					if q, ok := t.Cond.(*ssa.Phi); ok && e.splitBool {
						delete(n.prop, boolKey(q))
					}
					e.edge(fr, n, b, b.Succs[i], heads, push)
				}
			case *ssa.Panic:
			}
		}
	}
	var r []*Exit
	for _, k := range order {
		r = append(r, exits[k])
	}
	return r
}

func (e *Eng) capStates(l []*State) []*State {
	if len(l) <= 24 {
		return l
	}
	m := map[string]*State{}
	var out []*State
	for _, s := range l {
		k := s.mergeKey()
		if c := m[k]; c != nil {
			mergeInto(c, s)
		} else {
			m[k] = s
			out = append(out, s)
		}
	}
	return out
}

func (e *Eng) pruneHeap(h map[string]*Abs) map[string]*Abs { return h }

func errKey(res []*Abs) string {
	if len(res) == 0 {
		return ""
	}
	a := res[len(res)-1]
	return fmt.Sprintf("%d%d", a.Nil, a.B)
}

func exitKey(x *Exit) string {
	var sb strings.Builder
	sb.WriteString(propKey(x.prop))
	for _, r := range x.res {
		fmt.Fprintf(&sb, "\x01%d%d%d", r.Nil, r.B, r.Emp)
		if r.N != nil {
			fmt.Fprintf(&sb, "N%d", *r.N)
		}
		sb.WriteString(tagFilter(r.Tags, func(t string) bool { return strings.HasPrefix(t, "err:") || strings.HasPrefix(t, "!") }))
	}
	for _, r := range x.params {
		if r != nil {
			fmt.Fprintf(&sb, "\x02%d%d", r.Nil, r.B)
		}
	}
	return sb.String()
}

func joinHeap(a, b map[string]*Abs) map[string]*Abs {
	r := map[string]*Abs{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			j := joinAbs(v, w)
			if !j.isUnk() {
				r[k] = j
			}
		} else if hp := weakKeep(k, v); hp != nil {
			r[k] = hp
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			if hp := weakKeep(k, v); hp != nil {
				r[k] = hp
			}
		}
	}
	return r
}

func copyProp(p map[string]string) map[string]string {
	r := make(map[string]string, len(p))
	for k, v := range p {
		r[k] = v
	}
	return r
}
func copyHeap(p map[string]*Abs) map[string]*Abs {
	r := make(map[string]*Abs, len(p))
	for k, v := range p {
		r[k] = v
	}
	return r
}

func unkResults(sig *types.Signature) []*Abs {
	r := make([]*Abs, sig.Results().Len())
	for i := range r {
		r[i] = absUnk
	}
	return r
}

func (e *Eng) edge(fr *Frame, s *State, from, to *ssa.BasicBlock, heads map[*ssa.BasicBlock]bool, push func(*ssa.BasicBlock, *State)) {
	if e.loopOnce {
		// an exit edge from a loop header is only taken after one iteration
		if heads[from] && !s.loop[from] && isRangeHeader(from) && (e.onceIf == nil || e.onceIf(s, from)) {
			if r := e.ranged(s, from); r != nil && (r.Emp == Yes || r.Nil == Yes) {
				if inLoop(from, to) {
					return
				}
			} else if !inLoop(from, to) {
				return
			}
		}
		if heads[to] && to.Dominates(from) {
			n := make(map[*ssa.BasicBlock]bool, len(s.loop)+1)
			for k := range s.loop {
				n[k] = true
			}
			n[to] = true
			s = s.clone()
			s.loop = n
		} else {
			for h := range s.loop {
				if h.Parent() == to.Parent() && !inLoop(h, to) {
					n := make(map[*ssa.BasicBlock]bool, len(s.loop))
					for k := range s.loop {
						if k.Parent() != to.Parent() || inLoop(k, to) {
							n[k] = true
						}
					}
					s = s.clone()
					s.loop = n
					break
				}
			}
		}
	}
	// which predecessor index?
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if len(phis) > 0 {
		s = s.clone()
		vals := make([]*Abs, len(phis))
		for i, p := range phis {
			v := p.Edges[pi]
			a := e.eval(s, v)
			if isBoolType(p.Type()) {
				if a.B == Unk {
					if _, isC := v.(*ssa.Const); !isC {
						a = a.clone()
						if a.Alias == nil {
							a.Alias = v
						}
					}
				} else {
					a = &Abs{B: a.B, Tags: a.Tags}
				}
			}
			vals[i] = a
		}
		for i, p := range phis {
			s.env[p] = vals[i]
		}
	} else {
		s = s.clone()
	}
	if e.splitBool {
		for k := range s.prop {
			if !strings.HasPrefix(k, "b:") {
				continue
			}
			for _, b := range to.Parent().Blocks {
				for _, in := range b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if boolKey(p) == k && !b.Dominates(to) {
						delete(s.prop, k)
					}
				}
			}
		}
		for _, p := range phis {
			if !isBoolType(p.Type()) {
				continue
			}
			v := p.Edges[pi]
			if q, ok := v.(*ssa.Phi); ok && q != p {
				delete(s.prop, boolKey(q))
			}
			if b := s.env[p].B; b != Unk {
				s.prop[boolKey(p)] = fmt.Sprint(b == Yes)
				continue
			}
			for _, truth := range []bool{false, true} {
				n := s.clone()
				if !e.refine(fr, n, v, truth, 0) {
					continue
				}
				n.env[p] = &Abs{B: triOf(truth)}
				n.prop[boolKey(p)] = fmt.Sprint(truth)
				if truth {
					s = n
					continue
				}
				if h, ok := e.pl.(edgeHook); ok {
					h.Edge(e, n, from, to)
				}
				push(to, n)
			}
		}
	}
	if h, ok := e.pl.(edgeHook); ok {
		h.Edge(e, s, from, to)
	}
	push(to, s)
}

func boolKey(p *ssa.Phi) string { return "b:" + fnName(p.Parent()) + "." + p.Name() }

// ranged returns the slice a range loop runs over.
func (e *Eng) ranged(s *State, h *ssa.BasicBlock) *Abs {
	t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if b, ok := t.Cond.(*ssa.BinOp); ok && b.Op == token.LSS {
		if l := lenArg(b.Y); l != nil {
			return e.eval(s, l)
		}
	}
	return nil
}

func isRangeHeader(b *ssa.BasicBlock) bool {
	return strings.HasPrefix(b.Comment, "rangeindex.") || strings.HasPrefix(b.Comment, "rangeiter.") || strings.HasPrefix(b.Comment, "for.")
}

var loopCache = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// inLoop reports whether b belongs to the natural loop(s) of header h.
func inLoop(h, b *ssa.BasicBlock) bool {
	m := loopCache[h]
	if m == nil {
		m = map[*ssa.BasicBlock]bool{h: true}
		var stack []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				stack = append(stack, p)
			}
		}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if m[x] {
				continue
			}
			m[x] = true
			stack = append(stack, x.Preds...)
		}
		loopCache[h] = m
	}
	return m[b]
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// ---------- evaluation ----------

func (e *Eng) eval(st *State, v ssa.Value) *Abs {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constAbs(v)
	case *ssa.Function:
		return &Abs{Fn: v, Nil: No}
	case *ssa.Global:
		p := "g:" + v.Pkg.Pkg.Path() + "." + v.Name()
		e.P.setPathType(p, v.Type())
		return &Abs{Path: p, Nil: No}
	case *ssa.Builtin:
		return absUnk
	}
	if a, ok := st.env[v]; ok && a != nil {
		return a
	}
	return absUnk
}

func (e *Eng) constAbs(c *ssa.Const) *Abs {
	if c.Value == nil {
		// nil or zero value
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return absUnk
		}
		return &Abs{Nil: Yes, Emp: Yes}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &Abs{B: triOf(constant.BoolVal(c.Value))}
	case constant.String:
		s := constant.StringVal(c.Value)
		a := &Abs{Emp: triOf(s == "")}
		if e.keepStr {
			a.Str = litTmpl(s)
		}
		return a
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return &Abs{N: &n}
		}
	}
	return absUnk
}

func segCount(p string) int { return strings.Count(p, ".") + strings.Count(p, "[") }

func extPath(p, seg string) string {
	if p == "" {
		return ""
	}
	if strings.HasSuffix(p, "[]") && seg == "[]" {
		// nested containers share one element summary per level; limit
	}
	if segCount(p) > 10 {
		return ""
	}
	return p + seg
}

// lookup returns the content of location loc, if facts are known.
func (e *Eng) lookup(st *State, loc string) *Abs {
	if loc == "" {
		return nil
	}
	if a, ok := st.heap[loc]; ok {
		return a
	}
	if strings.HasSuffix(loc, "[]") && isFresh(loc) {
		// literal array: elements are tracked one by one
		base := loc[:len(loc)-1]
		var j *Abs
		for _, k := range sortedKeys(st.heap) {
			v := st.heap[k]
			if strings.HasPrefix(k, base) && len(k) > len(base)+1 && k[len(base)] >= '0' && k[len(base)] <= '9' && strings.IndexByte(k[len(base):], ']') == len(k)-len(base)-1 {
				if j == nil {
					j = v
				} else {
					j = joinAbs(j, v)
				}
			}
		}
		if j != nil {
			return j
		}
	}
	// struct-copy binding of a prefix
	for i := len(loc) - 1; i > 0; i-- {
		if loc[i] == '.' || loc[i] == '[' {
			q := loc[:i]
			if b, ok := st.heap[q]; ok {
				if b.Path != "" && b.Path != q && !hasPathPrefix(loc, b.Path) {
					np := b.Path + loc[i:]
					if a := e.lookup(st, np); a != nil {
						return a
					}
					return &Abs{Path: np, Tags: b.Tags}
				}
				if b.Tags != "" {
					return &Abs{Path: loc, Tags: b.Tags}
				}
			}
		}
	}
	return nil
}

func (e *Eng) load(fr *Frame, st *State, in ssa.Instruction, loc string, t types.Type) *Abs {
	var r *Abs
	if loc == "" {
		return absUnk
	}
	if a := e.lookup(st, loc); a != nil {
		r = a
		if r.Path == "" && (e.basicPath || !isBasic(t)) {
			r = r.withPath(loc)
		}
	} else {
		r = &Abs{}
		if e.basicPath || !isBasic(t) {
			r.Path = loc
		}
	}
	if isStruct(t) && st.heapHasChild(loc) {
		r = r.withPath(loc)
	}
	if r.Path != "" {
		e.P.setPathType(r.Path, t)
	}
	if strings.HasPrefix(loc, "g:") && isErrorType(t) {
		r = &Abs{Nil: No, Path: loc, Tags: "err:" + loc[2:]}
	}
	if h, ok := e.pl.(loadHook); ok {
		r = h.Loaded(e, fr, st, in, loc, r)
	}
	return r
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (st *State) heapHasChild(loc string) bool {
	for k := range st.heap {
		if len(k) > len(loc) && hasPathPrefix(k, loc) {
			return true
		}
	}
	return false
}

func (st *State) killUnder(loc string) {
	if loc == "" {
		return
	}
	for k := range st.heap {
		if hasPathPrefix(k, loc) {
			delete(st.heap, k)
		}
	}
}
func (st *State) killChildren(loc string) {
	for k := range st.heap {
		if len(k) > len(loc) && hasPathPrefix(k, loc) {
			delete(st.heap, k)
		}
	}
}

func isFresh(p string) bool { return strings.HasPrefix(p, "new:") }

func (e *Eng) store(st *State, loc string, v *Abs) {
	if loc == "" {
		return
	}
	if strings.HasSuffix(loc, "[]") || strings.Contains(loc, "[]") {
		// weak update of container elements: another element of the same
		// container, or a missing key, has the zero value, so what one store
		// says about truth, number or emptiness says nothing about a later read
		if strings.HasSuffix(loc, "[]") && (v.B != Unk || v.N != nil || v.Emp != Unk) {
			c := v.clone()
			c.B, c.N, c.Emp = Unk, nil, Unk
			v = c
		}
		if old, ok := st.heap[loc]; ok {
			st.heap[loc] = joinAbs(old, v)
			return
		}
		if isFresh(loc) || v.Tags != "" {
			if !isFresh(loc) {
				v = &Abs{Tags: v.Tags}
			}
			st.heap[loc] = v
		}
		return
	}
	st.killUnder(loc)
	if !isFresh(loc) && isFresh(v.Path) {
		v = v.withPath(loc) // published: canonical name is the location
	}
	if v.isUnk() {
		return
	}
	st.heap[loc] = v
}

func zeroAbs(t types.Type) *Abs {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return &Abs{B: No}
		}
		if u.Info()&types.IsString != 0 {
			return &Abs{Emp: Yes}
		}
		if u.Info()&types.IsInteger != 0 {
			var z int64
			return &Abs{N: &z}
		}
		return absUnk
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return &Abs{Nil: Yes, Emp: Yes}
	}
	return absUnk
}

func (e *Eng) zeroInit(st *State, loc string, t types.Type, depth int) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if depth > 2 || s.NumFields() > 40 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			e.zeroInit(st, loc+"."+s.Field(i).Name(), s.Field(i).Type(), depth+1)
		}
		return
	}
	z := zeroAbs(t)
	if e.keepStr && isStringType(t) {
		z = z.clone()
		z.Str = litTmpl("")
	}
	if !z.isUnk() {
		st.heap[loc] = z
	}
}

func allocPath(v ssa.Value) string {
	in := v.(ssa.Instruction)
	return "new:" + fnName(in.Parent()) + "#" + v.Name()
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

func (e *Eng) access(fr *Frame, st *State, in ssa.Instruction, loc string, write bool) {
	if h, ok := e.pl.(accessHook); ok {
		h.Access(e, fr, st, in, loc, write)
	}
}

// step executes one non-terminator instruction.
func (e *Eng) step(fr *Frame, st *State, in ssa.Instruction) []*State {
	if h, ok := e.pl.(instrHook); ok {
		h.Instr(e, fr, st, in)
	}
	switch v := in.(type) {
	case *ssa.Alloc:
		p := allocPath(v)
		if e.deep {
			// older objects of this allocation site keep what they hold
			for k, h := range st.heap {
				if h.Path == p && !hasPathPrefix(k, p) {
					st.heap[k] = &Abs{Nil: h.Nil, Tags: e.deepTags(st, h, 0)}
				}
			}
		}
		st.killUnder(p)
		et := v.Type().Underlying().(*types.Pointer).Elem()
		e.P.setPathType(p, et)
		if e.keepStr || !isStruct(et) || true {
			e.zeroInit(st, p, et, 0)
		}
		st.env[v] = &Abs{Path: p, Nil: No}
	case *ssa.FieldAddr:
		b := e.eval(st, v.X)
		if e.deep && b.Nil == Yes {
			return nil // panics
		}
		p := extPath(b.Path, "."+fieldName(v.X.Type(), v.Field))
		if p != "" {
			e.P.setPathType(p, v.Type().Underlying().(*types.Pointer).Elem())
		}
		st.env[v] = &Abs{Path: p, Nil: No, Tags: b.Tags}
	case *ssa.Field:
		b := e.eval(st, v.X)
		p := extPath(b.Path, "."+fieldName(v.X.Type(), v.Field))
		if p != "" {
			e.P.setPathType(p, v.Type())
		}
		if a := e.lookup(st, p); a != nil {
			st.env[v] = a.addTags(b.Tags)
		} else {
			st.env[v] = &Abs{Path: p, Tags: b.Tags}
		}
		if !e.basicPath && isBasic(v.Type()) {
			st.env[v] = st.env[v].withPath("")
		}
	case *ssa.IndexAddr:
		b := e.eval(st, v.X)
		seg := "[]"
		if _, isArr := derefT(v.X.Type()).Underlying().(*types.Array); isArr && isFresh(b.Path) {
			if n := e.eval(st, v.Index); n.N != nil {
				seg = fmt.Sprintf("[%d]", *n.N)
			}
		}
		p := extPath(b.Path, seg)
		if p != "" {
			e.P.setPathType(p, v.Type().Underlying().(*types.Pointer).Elem())
		}
		st.env[v] = &Abs{Path: p, Nil: No, Tags: b.Tags}
		if e.keepStr && b.Str != nil {
			a := st.env[v].clone()
			a.Str = b.Str
			if n := e.eval(st, v.Index); n.N != nil {
				a.N = n.N
			}
			st.env[v] = a
		}
	case *ssa.Index:
		b := e.eval(st, v.X)
		p := extPath(b.Path, "[]")
		if a := e.lookup(st, p); a != nil {
			st.env[v] = a.addTags(b.Tags)
		} else {
			st.env[v] = &Abs{Path: p, Tags: b.Tags}
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			ptr := e.eval(st, v.X)
			if ptr.Path != "" {
				e.access(fr, st, in, ptr.Path, false)
			}
			r := e.load(fr, st, in, ptr.Path, v.Type())
			if ptr.Tags != "" {
				r = r.addTags(ptr.Tags)
			}
			if e.keepStr && ptr.Str != nil && (r.Str == nil || ptr.N != nil) {
				if isStringType(v.Type()) {
					r = r.clone()
					r.Str = ptr.Str.elem(ptr.N)
				}
			}
			st.env[v] = r
		case token.NOT:
			a := e.eval(st, v.X)
			st.env[v] = &Abs{B: a.B.neg(), Tags: a.Tags}
		case token.SUB:
			a := e.eval(st, v.X)
			if a.N != nil {
				n := -*a.N
				st.env[v] = &Abs{N: &n}
			} else {
				st.env[v] = &Abs{Tags: a.Tags}
			}
		case token.ARROW:
			st.env[v] = &Abs{Tags: e.eval(st, v.X).Tags}
			if v.CommaOk {
				st.env[v] = &Abs{Tup: []*Abs{absUnk, absUnk}}
			}
		default:
			st.env[v] = absUnk
		}
	case *ssa.BinOp:
		st.env[v] = e.binop(st, v)
	case *ssa.ChangeType:
		st.env[v] = e.eval(st, v.X)
	case *ssa.ChangeInterface:
		st.env[v] = e.eval(st, v.X)
	case *ssa.SliceToArrayPointer:
		st.env[v] = e.eval(st, v.X)
	case *ssa.Convert:
		a := e.eval(st, v.X)
		r := &Abs{Tags: a.Tags, N: a.N, Emp: a.Emp, Str: a.Str}
		if e.basicPath && isBasic(v.Type()) {
			r.Path = a.Path
		}
		st.env[v] = r
	case *ssa.MultiConvert:
		st.env[v] = &Abs{Tags: e.eval(st, v.X).Tags}
	case *ssa.MakeInterface:
		a := e.eval(st, v.X).clone()
		if _, ok := v.X.(*ssa.Const); !ok || true {
			a.Nil = No
		}
		a.Dyn = v.X.Type()
		if isErrorType(v.Type()) && isFresh(a.Path) {
			// an error value built around another error still "is" that error
			a.Tags = tagUnion(a.Tags, tagFilter(e.contentTags(st, a), func(t string) bool { return strings.HasPrefix(t, "err:") }))
		}
		st.env[v] = a
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		bs := make([]*Abs, len(v.Bindings))
		tags := ""
		for i, b := range v.Bindings {
			bs[i] = e.eval(st, b)
			_ = tags
		}
		st.env[v] = &Abs{Fn: fn, Binds: bs, Nil: No}
	case *ssa.MakeMap, *ssa.MakeChan:
		val := in.(ssa.Value)
		p := allocPath(val)
		st.killUnder(p)
		e.P.setPathType(p, val.Type())
		st.env[val] = &Abs{Path: p, Nil: No}
	case *ssa.MakeSlice:
		p := allocPath(v)
		st.killUnder(p)
		e.P.setPathType(p, v.Type())
		st.env[v] = &Abs{Path: p, Nil: No}
		if e.keepStr {
			if n := e.eval(st, v.Len); n.N != nil && *n.N == 0 {
				a := st.env[v].clone()
				a.Str = emptyList()
				st.env[v] = a
			}
		}
	case *ssa.Slice:
		a := e.eval(st, v.X)
		r := &Abs{Path: a.Path, Tags: a.Tags, Str: nil}
		if isStringType(v.X.Type()) {
			r = &Abs{Tags: a.Tags}
			if e.basicPath {
				r.Path = a.Path
			}
		} else {
			r.Nil = a.Nil
			if _, isArr := derefT(v.X.Type()).Underlying().(*types.Array); isArr {
				r.Nil = No
				r.Emp = No
				if e.keepStr {
					r.Str = e.arrayTmpl(st, v, a)
				}
			} else if v.Low == nil && e.keepStr {
				r.Str = a.Str
			}
		}
		st.env[v] = r
	case *ssa.Lookup:
		m := e.eval(st, v.X)
		p := extPath(m.Path, "[]")
		if isStringType(v.X.Type()) {
			st.env[v] = &Abs{Tags: m.Tags}
			break
		}
		if p != "" {
			e.access(fr, st, in, p, false)
		}
		var et types.Type
		if mt, ok := v.X.Type().Underlying().(*types.Map); ok {
			et = mt.Elem()
		}
		if et != nil {
			r := e.load(fr, st, in, p, et).addTags(m.Tags)
			if v.CommaOk {
				st.env[v] = &Abs{Tup: []*Abs{r, absUnk}}
			} else {
				if r.Nil != Unk {
					r = r.withNil(Unk)
				}
				st.env[v] = r
			}
		}
	case *ssa.Range:
		st.env[v] = e.eval(st, v.X)
	case *ssa.Next:
		m := e.eval(st, v.Iter)
		p := extPath(m.Path, "[]")
		if !v.IsString && p != "" {
			e.access(fr, st, in, p, false)
		}
		var kt, et types.Type
		if mt, ok := rangeType(v.Iter).(*types.Map); ok {
			kt, et = mt.Key(), mt.Elem()
		}
		r := &Abs{Tags: m.Tags}
		k := &Abs{Tags: m.Tags}
		if et != nil {
			r = e.load(fr, st, in, p, et).addTags(m.Tags)
			_ = kt
			if e.basicPath && m.Path != "" {
				k.Path = extPath(m.Path, "[k]")
			}
		}
		st.env[v] = &Abs{Tup: []*Abs{absUnk, k, r}}
	case *ssa.TypeAssert:
		a := e.eval(st, v.X)
		r := a.clone()
		r.Dyn = nil
		if _, isI := v.AssertedType.Underlying().(*types.Interface); isI {
			r.Dyn = a.Dyn
		}
		ok := Unk
		if a.Dyn != nil {
			if _, isI := v.AssertedType.Underlying().(*types.Interface); !isI {
				ok = triOf(types.Identical(a.Dyn, v.AssertedType))
			}
		}
		if v.CommaOk {
			st.env[v] = &Abs{Tup: []*Abs{r.withNil(Unk), {B: ok}}}
		} else {
			st.env[v] = r
		}
	case *ssa.Extract:
		t := e.eval(st, v.Tuple)
		if v.Index < len(t.Tup) {
			st.env[v] = t.Tup[v.Index]
		} else {
			st.env[v] = &Abs{Tags: t.Tags}
		}
	case *ssa.Store:
		ptr := e.eval(st, v.Addr)
		val := e.eval(st, v.Val)
		if ptr.Path != "" {
			e.access(fr, st, in, ptr.Path, true)
			e.store(st, ptr.Path, val)
		}
	case *ssa.MapUpdate:
		m := e.eval(st, v.Map)
		p := extPath(m.Path, "[]")
		if p != "" {
			e.access(fr, st, in, p, true)
			val := e.eval(st, v.Value)
			if h, ok := e.pl.(elemHook); ok {
				if k, cut := h.KeepElem(st, e.deepTags(st, val, 0)); cut {
					val = &Abs{Tags: k}
				}
			}
			e.store(st, p, val)
		}
		if e.basicPath && m.Path != "" {
			if k := e.eval(st, v.Key); k.Tags != "" {
				e.store(st, extPath(m.Path, "[]"), &Abs{Tags: k.Tags})
			}
		}
	case *ssa.Send, *ssa.DebugRef:
	case *ssa.Select:
		n := v.Type().(*types.Tuple).Len()
		t := make([]*Abs, n)
		for i := range t {
			t[i] = absUnk
		}
		st.env[v] = &Abs{Tup: t}
	case *ssa.Defer:
		for _, d := range st.defs {
			if d.instr == v {
				return []*State{st}
			}
		}
		d := deferred{instr: v}
		if v.Call.IsInvoke() {
			d.fn = e.eval(st, v.Call.Value)
		} else {
			d.fn = e.eval(st, v.Call.Value)
		}
		for _, a := range v.Call.Args {
			d.args = append(d.args, e.eval(st, a))
		}
		st.defs = append(st.defs, d)
	case *ssa.RunDefers:
		outs := []*State{st}
		for {
			again := false
			var next []*State
			for _, s := range outs {
				if len(s.defs) == 0 {
					next = append(next, s)
					continue
				}
				again = true
				d := s.defs[len(s.defs)-1]
				s.defs = s.defs[:len(s.defs)-1]
				r := e.doCall(fr, s, d.instr, &d.instr.Call, nil, d.fn, d.args, true)
				next = append(next, r...)
			}
			outs = e.capStates(next)
			if !again {
				break
			}
		}
		return outs
	case *ssa.Go:
		fnA := e.eval(st, v.Call.Value)
		var args []*Abs
		for _, a := range v.Call.Args {
			args = append(args, e.eval(st, a))
		}
		e.spawn(fr, st, in, &v.Call, fnA, args)
	case *ssa.Call:
		fnA := e.eval(st, v.Call.Value)
		args := make([]*Abs, 0, len(v.Call.Args))
		for _, a := range v.Call.Args {
			args = append(args, e.eval(st, a))
		}
		return e.doCall(fr, st, in, &v.Call, v, fnA, args, false)
	default:
		if val, ok := in.(ssa.Value); ok {
			st.env[val] = absUnk
		}
	}
	return []*State{st}
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func rangeType(v ssa.Value) types.Type {
	if r, ok := v.(*ssa.Range); ok {
		return r.X.Type().Underlying()
	}
	return nil
}

func (e *Eng) spawn(fr *Frame, st *State, in ssa.Instruction, common *ssa.CallCommon, fnA *Abs, args []*Abs) {
	if h, ok := e.pl.(goHook); ok {
		h.Go(e, fr, st, fnA, args, in)
	}
	var targets []*ssa.Function
	binds := fnA.Binds
	for g, n := fr, 0; g != nil; g = g.parent() {
		if g.fn == fnA.Fn {
			if n++; n > 2 {
				return
			}
		}
	}
	if common != nil && common.IsInvoke() {
		for _, f := range e.P.implementers(common) {
			targets = append(targets, f)
		}
		args = append([]*Abs{fnA}, args...)
	} else if fnA.Fn != nil {
		targets = append(targets, fnA.Fn)
	} else if common != nil && common.StaticCallee() != nil {
		targets = append(targets, common.StaticCallee())
	}
	for _, f := range targets {
		if len(f.Blocks) == 0 || !e.P.inModule(f) && f.Parent() == nil && f.Synthetic == "" {
			continue
		}
		sub := func(a *Abs) *Abs { return a }
		var na, nb []*Abs
		for _, a := range args {
			na = append(na, sub(a))
		}
		for _, a := range binds {
			nb = append(nb, sub(a))
		}
		// facts about locals only; shared state may change before the goroutine runs
		heap, _ := e.splitHeap(st.heap, na, nb)
		for k := range heap {
			if !isFresh(k) {
				delete(heap, k)
			}
		}
		key := fmt.Sprintf("%p", f)
		for _, a := range append(append([]*Abs{}, na...), nb...) {
			key += "|" + a.key()
		}
		key += heapKey(heap)
		if !e.goSeen[key] {
			e.goSeen[key] = true
			e.goRoots = append(e.goRoots, goRoot{fn: f, args: na, bnd: nb, from: fr.chain(), heap: heap, root: fr.root, fr: fr})
		}
	}
}

func (e *Eng) binop(st *State, v *ssa.BinOp) *Abs {
	x, y := e.eval(st, v.X), e.eval(st, v.Y)
	tags := ""
	switch v.Op {
	case token.ADD:
		if isStringType(v.Type()) {
			r := &Abs{Tags: tagUnion(x.Tags, y.Tags)}
			if e.keepStr {
				r.Str = concatTmpl(textTmpl(e.strOf(x)), textTmpl(e.strOf(y)))
			}
			if x.Emp == No || y.Emp == No {
				r.Emp = No
			} else if x.Emp == Yes && y.Emp == Yes {
				r.Emp = Yes
			}
			return r
		}
		if x.N != nil && y.N != nil {
			n := *x.N + *y.N
			if n > 4 || n < -4 {
				return &Abs{}
			}
			return &Abs{N: &n}
		}
		return &Abs{Tags: tagUnion(x.Tags, y.Tags)}
	case token.EQL, token.NEQ:
		eq := Unk
		if isNilConst(v.X) {
			eq = y.Nil
		} else if isNilConst(v.Y) {
			eq = x.Nil
		} else if x.B != Unk && y.B != Unk {
			eq = triOf(x.B == y.B)
		} else if x.N != nil && y.N != nil {
			eq = triOf(*x.N == *y.N)
		} else if isEmptyStr(v.X) {
			eq = y.Emp
		} else if isEmptyStr(v.Y) {
			eq = x.Emp
		} else if isErrorType(v.X.Type()) && x.Tags != "" && y.Tags != "" {
			eq = errTagEq(x, y)
		}
		if l := lenArg(v.X); l != nil && isZero(v.Y) {
			eq = e.eval(st, l).Emp
		}
		if v.Op == token.NEQ {
			eq = eq.neg()
		}
		return &Abs{B: eq, Tags: tags}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		r := Unk
		if x.N != nil && y.N != nil {
			switch v.Op {
			case token.LSS:
				r = triOf(*x.N < *y.N)
			case token.GTR:
				r = triOf(*x.N > *y.N)
			case token.LEQ:
				r = triOf(*x.N <= *y.N)
			case token.GEQ:
				r = triOf(*x.N >= *y.N)
			}
		} else if l := lenArg(v.X); l != nil && isZero(v.Y) && v.Op == token.GTR {
			r = e.eval(st, l).Emp.neg()
		}
		return &Abs{B: r}
	}
	return &Abs{Tags: tagUnion(x.Tags, y.Tags)}
}

// errTagEq decides equality of two tagged error values when both have exactly one identity tag.
func errTagEq(x, y *Abs) Tri {
	gx := tagFilter(x.Tags, func(t string) bool { return strings.HasPrefix(t, "err:") })
	gy := tagFilter(y.Tags, func(t string) bool { return strings.HasPrefix(t, "err:") })
	if gx == "" || gy == "" || strings.Contains(gx, ";") || strings.Contains(gy, ";") {
		return Unk
	}
	return triOf(gx == gy)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}
func isEmptyStr(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ""
}
func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	n, ok := constant.Int64Val(c.Value)
	return ok && n == 0
}
func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	n, ok := constant.Int64Val(c.Value)
	return ok && n == 1
}

// lenArg returns x if v is len(x) (possibly through strings.TrimSpace is not looked into).
func lenArg(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

// ---------- branch refinement ----------

func (e *Eng) refine(fr *Frame, st *State, v ssa.Value, truth bool, depth int) bool {
	a := e.eval(st, v)
	if a.B != Unk {
		return (a.B == Yes) == truth
	}
	if depth > 6 {
		return true
	}
	ok := true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			ok = e.refine(fr, st, x.X, !truth, depth+1)
		} else if x.Op == token.MUL {
			p := e.eval(st, x.X)
			if p.Path != "" {
				e.setFact(st, p.Path, func(o *Abs) *Abs { return o.withB(triOf(truth)) })
				if h, okk := e.pl.(refineHook); okk {
					h.RefineBool(e, fr, st, p.Path, truth)
				}
			}
		}
	case *ssa.Field:
		if a.Path != "" || true {
			b := e.eval(st, x.X)
			p := extPath(b.Path, "."+fieldName(x.X.Type(), x.Field))
			if p != "" {
				if h, okk := e.pl.(refineHook); okk {
					h.RefineBool(e, fr, st, p, truth)
				}
			}
		}
	case *ssa.BinOp:
		ok = e.refineCmp(fr, st, x, truth)
	case *ssa.Phi:
		if a.Alias != nil && a.Alias != v {
			ok = e.refine(fr, st, a.Alias, truth, depth+1)
		}
	case *ssa.Call:
		ok = e.refineCall(fr, st, x, truth)
	case *ssa.Extract, *ssa.Parameter:
	}
	if !ok {
		return false
	}
	if h, okk := e.pl.(boolHook); okk {
		switch v.(type) {
		case *ssa.Extract, *ssa.Call:
			h.Bool(e, fr, st, v, truth)
		}
	}
	st.env[v] = e.eval(st, v).withB(triOf(truth))
	return true
}

func (e *Eng) refineCall(fr *Frame, st *State, c *ssa.Call, truth bool) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return true
	}
	switch fnFull(f) {
	case "errors.Is":
		if truth {
			st.env[c.Call.Args[0]] = e.eval(st, c.Call.Args[0]).withNil(No)
		}
	}
	if h, ok := e.pl.(compareHook); ok && len(c.Call.Args) == 2 {
		switch fnFull(f) {
		case "strings.EqualFold":
			if e.exactCmp {
				return true
			}
			return h.Compare(e, fr, st, c.Call.Args[0], c.Call.Args[1], truth)
		}
	}
	return true
}

func (e *Eng) refineCmp(fr *Frame, st *State, x *ssa.BinOp, truth bool) bool {
	op := x.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		eq := op == token.EQL
		if e.keepStr && isStringType(x.X.Type()) {
			if s, ok := litOf(e.eval(st, x.X)); ok {
				if t, ok := litOf(e.eval(st, x.Y)); ok && (s == t) != eq {
					return false
				}
			}
		}
		if isNilConst(x.Y) {
			e.setVal(st, x.X, func(a *Abs) *Abs {
				a = a.withNil(triOf(eq))
				if eq {
					a = a.withEmp(Yes)
				}
				return a
			})
		} else if isNilConst(x.X) {
			e.setVal(st, x.Y, func(a *Abs) *Abs { return a.withNil(triOf(eq)) })
		} else if isEmptyStr(x.Y) {
			e.setVal(st, x.X, func(a *Abs) *Abs { return a.withEmp(triOf(eq)) })
		} else if isEmptyStr(x.X) {
			e.setVal(st, x.Y, func(a *Abs) *Abs { return a.withEmp(triOf(eq)) })
		} else if l := lenArg(x.X); l != nil && isZero(x.Y) {
			e.setVal(st, l, func(a *Abs) *Abs { return a.withEmp(triOf(eq)) })
		} else if isBoolType(x.X.Type()) {
			if b := e.eval(st, x.Y).B; b != Unk {
				return e.refine(fr, st, x.X, (b == Yes) == eq, 1)
			}
			if b := e.eval(st, x.X).B; b != Unk {
				return e.refine(fr, st, x.Y, (b == Yes) == eq, 1)
			}
		} else if eq && isErrorType(x.X.Type()) {
			if ya := e.eval(st, x.Y); ya.Nil == No {
				st.env[x.X] = e.eval(st, x.X).withNil(No)
			}
		}
		if eq {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				if n, ok := constant.Int64Val(c.Value); ok {
					e.setVal(st, x.X, func(a *Abs) *Abs { b := a.clone(); b.N = &n; return b })
				}
			}
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) != "" {
				e.setVal(st, x.X, func(a *Abs) *Abs {
					b := a.withEmp(No)
					if e.keepStr {
						b = b.clone()
						b.Str = litTmpl(constant.StringVal(c.Value))
					}
					return b
				})
			}
		}
		if h, ok := e.pl.(compareHook); ok {
			return h.Compare(e, fr, st, x.X, x.Y, eq)
		}
		return true
	}
	if h, ok := e.pl.(relHook); ok {
		h.Rel(e, fr, st, op, x.X, x.Y)
	}
	switch op {
	case token.GTR, token.LEQ:
		if l := lenArg(x.X); l != nil && isZero(x.Y) {
			e.setVal(st, l, func(a *Abs) *Abs { return a.withEmp(triOf(op == token.LEQ)) })
		}
		if l := lenArg(x.Y); l != nil && op == token.GTR && isZero(x.X) {
			return false
		}
	case token.LSS, token.GEQ:
		if l := lenArg(x.X); l != nil && isOne(x.Y) {
			e.setVal(st, l, func(a *Abs) *Abs { return a.withEmp(triOf(op == token.LSS)) })
		}
		if l := lenArg(x.Y); l != nil && isZero(x.X) { // 0 < len / 0 >= len
			e.setVal(st, l, func(a *Abs) *Abs { return a.withEmp(triOf(op == token.GEQ)) })
		}
	}
	return true
}

func (e *Eng) setVal(st *State, v ssa.Value, f func(*Abs) *Abs) {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := e.eval(st, x.X)
			if p.Path != "" {
				e.setFact(st, p.Path, f)
			}
		}
	case *ssa.ChangeInterface:
		e.setVal(st, x.X, f)
	case *ssa.ChangeType:
		e.setVal(st, x.X, f)
	case *ssa.Field:
		b := e.eval(st, x.X)
		if p := extPath(b.Path, "."+fieldName(x.X.Type(), x.Field)); p != "" {
			e.setFact(st, p, f)
		}
	case *ssa.Phi:
		// a phi of identical origin
	}
	st.env[v] = f(e.eval(st, v))
}

func (e *Eng) setFact(st *State, loc string, f func(*Abs) *Abs) {
	if strings.Contains(loc, "[]") {
		return // element summaries cannot be refined
	}
	cur := e.lookup(st, loc)
	if cur == nil {
		cur = absUnk
	}
	n := f(cur)
	st.heap[loc] = n
	if cur.Path != "" && cur.Path != loc && !isFresh(cur.Path) && !strings.Contains(cur.Path, "[]") {
		c2 := st.heap[cur.Path]
		if c2 == nil {
			c2 = absUnk
		}
		st.heap[cur.Path] = f(c2)
	}
}

// ---------- calls ----------

func (e *Eng) doCall(fr *Frame, st *State, in ssa.Instruction, common *ssa.CallCommon, dst ssa.Value, fnA *Abs, args []*Abs, isDefer bool) []*State {
	e.nCalls++
	set := func(s *State, r *Abs) {
		if dst != nil {
			if r == nil {
				r = absUnk
			}
			s.env[dst] = r
		}
	}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		set(st, e.builtin(fr, st, in, b, common, args))
		return []*State{st}
	}
	c := &CallSite{Instr: in, Common: common, Args: args, ArgVals: common.Args, Defer: isDefer, FnAbs: fnA}
	var targets []*ssa.Function
	var binds []*Abs
	if common.IsInvoke() {
		c.Name = fullMethodName(common)
		c.Args = append([]*Abs{fnA}, args...)
		c.ArgVals = append([]ssa.Value{common.Value}, common.Args...)
		if fnA.Dyn != nil {
			if f := e.P.prog.LookupMethod(fnA.Dyn, common.Method.Pkg(), common.Method.Name()); f != nil {
				targets = []*ssa.Function{f}
			}
		}
		if targets == nil {
			// assumption: a composite does not (transitively) contain an object of its own type
			for _, t := range e.P.implementers(common) {
				rec := false
				for g := fr; g != nil; g = g.parent() {
					if g.fn == t || g.fn.Signature.Recv() != nil && t.Signature.Recv() != nil && types.Identical(g.fn.Signature.Recv().Type(), t.Signature.Recv().Type()) {
						rec = true
					}
				}
				if !rec {
					targets = append(targets, t)
				}
			}
		}
	} else {
		f := common.StaticCallee()
		if f == nil && fnA.Fn != nil {
			f = fnA.Fn
		}
		if f != nil {
			if fnA.Fn == f {
				binds = fnA.Binds
			} else if mc, ok := common.Value.(*ssa.MakeClosure); ok {
				binds = e.eval(st, mc).Binds
			}
			targets = []*ssa.Function{f}
			c.Callee = f
			c.Name = fnFull(f)
		} else {
			c.Name = "?"
		}
	}
	if len(targets) == 1 && c.Callee == nil {
		c.Callee = targets[0]
	}
	if common.IsInvoke() {
		if n := sqlInvoke(common); n != "" {
			c.Name = n
			if len(targets) == 1 && strings.HasPrefix(fnFull(targets[0]), "(*database/sql.") {
				c.Name = fnFull(targets[0])
			}
		}
	}
	if handled, outs := e.pl.Call(e, fr, st, c); handled {
		var r []*State
		for _, o := range outs {
			s := o.st
			if s == nil {
				s = st
			}
			if len(outs) > 1 && s == st {
				s = st.clone()
			}
			if !o.set {
				e.havocPointees(s, c)
			}
			set(s, o.res)
			r = append(r, s)
		}
		return r
	}
	if r, ok := e.generic(fr, st, c); ok {
		set(st, r)
		return []*State{st}
	}
	var res []*State
	inl := 0
	for _, f := range targets {
		if len(f.Blocks) == 0 || !e.inlinable(f) || fr.depth >= e.maxDepth {
			continue
		}
		if !e.relevant[f] && !e.inlineAll && !e.wantValue(f) {
			continue
		}
		inl++
		a := c.Args
		if common.IsInvoke() && len(a) > 0 {
			// receiver: concrete type known now
			r0 := a[0].clone()
			r0.Dyn = nil
			r0.Nil = No
			a = append([]*Abs{r0}, a[1:]...)
		}
		na := make([]*Abs, len(a))
		for i := range a {
			na[i] = a[i]
			if i < len(f.Params) {
				na[i] = e.normArg(f.Params[i].Type(), na[i])
				if e.dropArg != nil {
					na[i] = e.dropArg(f, i, na[i])
				}
			}
		}
		for _, x := range e.call(fr, st, f, na, binds, in) {
			n := &State{prop: copyProp(x.prop), heap: copyHeap(x.heap), env: make(map[ssa.Value]*Abs, len(st.env)+1), defs: append([]deferred(nil), st.defs...), loop: st.loop}
			for k, v := range st.env {
				n.env[k] = v
			}
			// facts learnt about arguments
			for i, pa := range x.params {
				if pa == nil || i >= len(c.ArgVals) {
					continue
				}
				av := c.ArgVals[i]
				if _, isC := av.(*ssa.Const); isC {
					continue
				}
				if cur, ok := n.env[av]; ok && cur != nil {
					if cur.Nil == Unk && pa.Nil != Unk || cur.B == Unk && pa.B != Unk || cur.Emp == Unk && pa.Emp != Unk {
						nc := cur.clone()
						if nc.Nil == Unk {
							nc.Nil = pa.Nil
						}
						if nc.B == Unk {
							nc.B = pa.B
						}
						if nc.Emp == Unk {
							nc.Emp = pa.Emp
						}
						n.env[av] = nc
					}
				}
			}
			switch len(x.res) {
			case 0:
				set(n, absUnk)
			case 1:
				set(n, x.res[0])
			default:
				set(n, &Abs{Tup: x.res})
			}
			res = append(res, n)
		}
	}
	if inl == 0 {
		// external or irrelevant: closures passed in may run
		res = []*State{st}
		e.callbacks(fr, st, c, &res)
		for _, s := range res {
			e.havocPointees(s, c)
			set(s, e.havocResult(s, c))
		}
	}
	return e.capStates(res)
}

type wantHook interface{ Want(fn *ssa.Function) bool }

func (e *Eng) wantValue(f *ssa.Function) bool {
	if h, ok := e.pl.(wantHook); ok {
		return h.Want(f)
	}
	return false
}

func (e *Eng) inlinable(f *ssa.Function) bool {
	if f.Parent() != nil {
		return e.P.inModule(f)
	}
	if f.Synthetic != "" {
		return true
	}
	return e.P.inModule(f)
}

// callbacks: function values passed to a callee we do not look into may be invoked once.
func (e *Eng) callbacks(fr *Frame, st *State, c *CallSite, res *[]*State) {
	async := c.Name == "time.AfterFunc"
	for i, a := range c.Args {
		if a.Fn == nil || len(a.Fn.Blocks) == 0 || !e.inlinable(a.Fn) {
			continue
		}
		if async {
			e.spawn(fr, st, c.Instr, nil, a, nil)
			continue
		}
		if !e.relevant[a.Fn] && !e.inlineAll {
			continue
		}
		_ = i
		var na []*Abs
		for range a.Fn.Params {
			na = append(na, absUnk)
		}
		for _, x := range e.call(fr, st, a.Fn, na, a.Binds, c.Instr) {
			n := st.clone()
			n.prop, n.heap = copyProp(x.prop), copyHeap(x.heap)
			*res = append(*res, n)
		}
	}
}

// havocPointees forgets what is known about local variables whose address is passed to a call
// that is not followed.
func (e *Eng) havocPointees(st *State, c *CallSite) {
	kill := func(a *Abs) {
		if a != nil && isFresh(a.Path) && a.Fn == nil {
			keep := map[string]*Abs{}
			if t := e.P.pathType[a.Path]; t != nil {
				if nt, ok := derefT(t).(*types.Named); ok && isStruct(nt) {
					for k, v := range st.heap {
						if f, ok := strings.CutPrefix(k, a.Path+"."); ok && !strings.ContainsAny(f, ".[") && e.P.immutableField(nt, f) {
							keep[k] = v
						}
					}
				}
			}
			st.killUnder(a.Path)
			for k, v := range keep {
				st.heap[k] = v
			}
		}
	}
	for i, v := range c.ArgVals {
		if i >= len(c.Args) || c.Args[i] == nil {
			continue
		}
		a := c.Args[i]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		switch t := v.Type().Underlying().(type) {
		case *types.Pointer:
			kill(a)
		case *types.Slice:
			if _, isI := t.Elem().Underlying().(*types.Interface); !isI || a.Path == "" {
				continue
			}
			sl, ok := v.(*ssa.Slice)
			if !ok {
				continue
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			// variadic arguments: only those that are addresses
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if sto, ok := r2.(*ssa.Store); ok && sto.Addr == ia {
						if mi, ok := sto.Val.(*ssa.MakeInterface); ok {
							if _, isP := mi.X.Type().Underlying().(*types.Pointer); isP {
								kill(e.eval(st, mi.X))
							}
						}
					}
				}
			}
		}
	}
}

func (e *Eng) havocResult(st *State, c *CallSite) *Abs {
	sig := c.Common.Signature()
	tags := ""
	for _, a := range c.Args {
		tags = tagUnion(tags, tagFilter(a.Tags, func(t string) bool { return !strings.HasPrefix(t, "err:") }))
	}
	n := sig.Results().Len()
	of := func(i int) *Abs {
		if isNumeric(sig.Results().At(i).Type()) {
			// a number computed from a row is not the row
			return &Abs{Tags: tagFilter(tags, func(t string) bool { return !strings.HasPrefix(t, "un:") })}
		}
		return &Abs{Tags: tags}
	}
	if n == 1 {
		return of(0)
	}
	t := make([]*Abs, n)
	for i := range t {
		t[i] = of(i)
	}
	return &Abs{Tup: t}
}

func (e *Eng) strOf(a *Abs) *Tmpl {
	if a.Str != nil {
		return a.Str
	}
	if e.anonHoles {
		return holeTmpl(nil)
	}
	return holeTmpl(a)
}

// listOf is the template of a list of strings or arguments: known as a whole, or (a slice made with
// a length and filled by index) any number of the values stored into it.
func (e *Eng) listOf(st *State, a *Abs) *Tmpl {
	if a == nil {
		return nil
	}
	if a.Str != nil {
		return a.Str
	}
	if a.Nil == Yes || a.Emp == Yes {
		return emptyList()
	}
	if isFresh(a.Path) {
		if _, ok := e.P.pathType[a.Path].(*types.Slice); ok {
			el := st.heap[a.Path+"[]"]
			if el == nil {
				el = absUnk
			}
			return starOf(listElem(e.strOf(el)))
		}
	}
	return nil
}

// generic models of common library functions.
func (e *Eng) generic(fr *Frame, st *State, c *CallSite) (*Abs, bool) {
	switch c.Name {
	case "fmt.Errorf":
		tags := ""
		wraps := true
		if len(c.Args) == 2 {
			if f, ok := c.ArgVals[0].(*ssa.Const); ok && f.Value != nil {
				wraps = strings.Contains(constant.StringVal(f.Value), "%w")
			}
			if wraps {
				tags = e.contentTags(st, c.Args[1])
			}
		}
		return &Abs{Nil: No, Tags: tags}, true
	case "errors.New":
		return &Abs{Nil: No, Tags: "err:new"}, true
	case "errors.Is":
		x, y := c.Args[0], c.Args[1]
		if x.Nil == Yes {
			return &Abs{B: No}, true
		}
		gx := tagFilter(x.Tags, func(t string) bool { return strings.HasPrefix(t, "err:") })
		gy := tagFilter(y.Tags, func(t string) bool { return strings.HasPrefix(t, "err:") })
		if gx != "" && gy != "" && !strings.Contains(gy, ";") {
			if !tagHas(gx, gy) {
				return &Abs{B: No}, true
			}
			if gx == gy {
				return &Abs{B: Yes}, true
			}
		}
		return &Abs{}, true
	case "errors.Join":
		return &Abs{Tags: c.Args[0].Tags}, true
	}
	if e.keepStr {
		if r, ok := e.stringFuncs(st, c); ok {
			return r, true
		}
	}
	return nil, false
}

// contentTags unions the tags of a variadic argument list.
func (e *Eng) contentTags(st *State, a *Abs) string {
	t := a.Tags
	if a.Path != "" {
		for k, v := range st.heap {
			if hasPathPrefix(k, a.Path) {
				t = tagUnion(t, v.Tags)
			}
		}
	}
	return t
}

// deepTags unions the tags of a value and of everything it is known to hold.
func (e *Eng) deepTags(st *State, a *Abs, depth int) string {
	if a == nil {
		return ""
	}
	t := a.Tags
	for _, x := range a.Tup {
		t = tagUnion(t, e.deepTags(st, x, depth))
	}
	if a.Path == "" || depth > 3 {
		return t
	}
	for k, v := range st.heap {
		if hasPathPrefix(k, a.Path) && (e.skipField == "" || !strings.Contains(k[len(a.Path):], e.skipField)) {
			t = tagUnion(t, v.Tags)
			if v.Path != "" && !hasPathPrefix(v.Path, a.Path) {
				t = tagUnion(t, e.deepTags(st, v, depth+1))
			}
		}
	}
	return t
}

func (e *Eng) builtin(fr *Frame, st *State, in ssa.Instruction, b *ssa.Builtin, common *ssa.CallCommon, args []*Abs) *Abs {
	switch b.Name() {
	case "append":
		a := args[0]
		var bb *Abs = absUnk
		if len(args) > 1 {
			bb = args[1]
		}
		r := &Abs{Tags: tagUnion(a.Tags, bb.Tags)}
		if bb.Emp == No {
			r.Emp, r.Nil = No, No
		} else if a.Emp == No {
			r.Emp, r.Nil = No, No
		}
		if a.Path != "" && a.Nil != Yes {
			r.Path = a.Path
			// elements may be written in place
			if !isFresh(a.Path) {
				e.access(fr, st, in, extPath(a.Path, "[]"), true)
			}
		} else if v, ok := in.(ssa.Value); ok {
			r.Path = allocPath(v)
			e.P.setPathType(r.Path, v.Type())
		}
		if bb.Path != "" && r.Path != "" {
			el := e.lookup(st, bb.Path+"[]")
			if el == nil {
				el = &Abs{}
				if et, ok := bbElem(common); ok && !isBasic(et) {
					el.Path = bb.Path + "[]"
				}
				if st.heapHasChild(bb.Path + "[]") {
					el.Path = bb.Path + "[]"
				}
			}
			ct := e.contentTags(st, &Abs{Path: bb.Path + "[]"})
			if e.deep {
				ct = tagUnion(ct, tagUnion(e.deepTags(st, bb, 0), e.deepTags(st, el, 0)))
			}
			if h, ok := e.pl.(elemHook); ok {
				if k, cut := h.KeepElem(st, tagUnion(ct, tagUnion(el.Tags, bb.Tags))); cut {
					el, ct = &Abs{Tags: k}, k
					r.Tags = tagUnion(a.Tags, k)
				} else if et, ok := bbElem(common); ok && isStructType(et) {
					el = &Abs{Tags: tagUnion(ct, el.Tags)} // the element is a copy
				}
			}
			if el != nil && !el.isUnk() {
				cur, ok := st.heap[r.Path+"[]"]
				if ok {
					el = joinAbs(cur, el)
				}
				if !el.isUnk() {
					if isFresh(r.Path) || el.Tags != "" {
						st.heap[r.Path+"[]"] = el
					}
				}
			}
			r.Tags = tagUnion(r.Tags, ct)
		}
		if e.keepStr {
			x := e.listOf(st, a)
			y := e.listOf(st, bb)
			if x != nil && y != nil {
				r.Str = concatTmpl(x, y)
			}
		}
		return r
	case "copy":
		if args[0].Path != "" {
			e.access(fr, st, in, extPath(args[0].Path, "[]"), true)
			if t := tagUnion(args[1].Tags, ""); t != "" {
				e.store(st, extPath(args[0].Path, "[]"), &Abs{Tags: t})
			}
		}
		if args[1].Path != "" {
			e.access(fr, st, in, extPath(args[1].Path, "[]"), false)
		}
		return &Abs{}
	case "delete":
		if args[0].Path != "" {
			e.access(fr, st, in, extPath(args[0].Path, "[]"), true)
		}
	case "clear":
		if args[0].Path != "" {
			e.access(fr, st, in, extPath(args[0].Path, "[]"), true)
		}
	case "len", "cap":
		if len(args) > 0 && args[0].Path != "" {
			if _, isMap := common.Args[0].Type().Underlying().(*types.Map); isMap {
				e.access(fr, st, in, extPath(args[0].Path, "[]"), false)
			}
			if args[0].Emp == Yes {
				var z int64
				return &Abs{N: &z}
			}
		}
		if len(args) > 0 && args[0].Nil == Yes {
			var z int64
			return &Abs{N: &z}
		}
		return &Abs{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	return &Abs{}
}

func bbElem(common *ssa.CallCommon) (types.Type, bool) {
	if len(common.Args) < 2 {
		return nil, false
	}
	if s, ok := common.Args[1].Type().Underlying().(*types.Slice); ok {
		return s.Elem(), true
	}
	return nil, false
}

// ---------- naming ----------

func fnFull(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return f.String()
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func fullMethodName(c *ssa.CallCommon) string {
	return c.Method.FullName()
}

func dbg(f string, a ...any) {
	if os.Getenv("AZ_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func isStructType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// forkReturn separates the returns of a comparison by its outcome.
func (e *Eng) forkReturn(fr *Frame, outs []*State, t *ssa.Return) []*State {
	for _, r := range t.Results {
		if !isBoolType(r.Type()) {
			continue
		}
		switch r.(type) {
		case *ssa.BinOp, *ssa.Call, *ssa.UnOp, *ssa.Phi:
		default:
			continue
		}
		var next []*State
		for _, s := range outs {
			if e.eval(s, r).B != Unk {
				next = append(next, s)
				continue
			}
			for _, b := range []bool{true, false} {
				n := s.clone()
				if e.refine(fr, n, r, b, 0) {
					v := e.eval(n, r).clone()
					v.B = triOf(b)
					n.env[r] = v
					next = append(next, n)
				}
			}
		}
		outs = next
	}
	return outs
}
