package main

// V01: vectors are read element by element only within their length, which is compared with the length it has to
// have before a loop over another vector or a configured dimension runs over them.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vecRun struct {
	p       *Prog
	r       *Result
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
	made    map[*ssa.Function][]*ssa.MakeClosure
	facts   map[*ssa.Function][]*vecFact
	same    map[*ssa.Function]int // result 0 has the length of this parameter (-1 no)
	found   map[string]bool
	mins    map[string][]string // a key that is the least of others
}

// vecFact: in the blocks dominated by dom, two lengths are equal (or idx < key).
type vecFact struct {
	dom  *ssa.BasicBlock
	a, b string
	idx  ssa.Value // for bounds: idx < a
	le   bool      // a <= b only
}

func isVec(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Float32 || b.Kind() == types.Float64 || b.Kind() == types.Uint8)
}

func isFloatVec(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Float32 || b.Kind() == types.Float64)
}

// vroot: where a vector comes from.
type vroot struct {
	base ssa.Value
	path string
}

func (v *vecRun) root(x ssa.Value, depth int) vroot {
	if depth > 14 {
		return vroot{x, ""}
	}
	switch y := x.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			r := v.root(y.X, depth+1)
			return r
		}
	case *ssa.IndexAddr:
		r := v.root(y.X, depth+1)
		if c, ok := y.Index.(*ssa.Const); ok {
			r.path += "[" + c.Value.String() + "]"
		} else {
			r.path += "[]"
		}
		return r
	case *ssa.Index:
		r := v.root(y.X, depth+1)
		r.path += "[]"
		return r
	case *ssa.FieldAddr:
		r := v.root(y.X, depth+1)
		r.path += "." + y.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(y.Field).Name()
		return r
	case *ssa.Field:
		r := v.root(y.X, depth+1)
		r.path += "." + y.X.Type().Underlying().(*types.Struct).Field(y.Field).Name()
		return r
	case *ssa.Extract:
		if nx, ok := y.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				r := v.root(rg.X, depth+1)
				r.path += "[]"
				return r
			}
		}
		if lk, ok := y.Tuple.(*ssa.Lookup); ok {
			return v.root(lk, depth+1)
		}
	case *ssa.Lookup:
		r := v.root(y.X, depth+1)
		r.path += "[]"
		return r
	case *ssa.Alloc:
		// a variable written once
		var val ssa.Value
		n := 0
		for _, rf := range *y.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
				val = st.Val
				n++
			}
		}
		if n == 1 {
			return v.root(val, depth+1)
		}
	case *ssa.ChangeType:
		return v.root(y.X, depth+1)
	case *ssa.Slice:
		if y.Low == nil && y.High == nil {
			return v.root(y.X, depth+1)
		}
	}
	return vroot{x, ""}
}

func isReceiver(x ssa.Value) bool {
	p, ok := x.(*ssa.Parameter)
	return ok && p.Parent().Signature.Recv() != nil && len(p.Parent().Params) > 0 && p.Parent().Params[0] == p
}

// foreign: the vector is the caller's or read from outside: nothing is known about its length.
func (v *vecRun) foreign(x ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	r := v.root(x, 0)
	switch b := r.base.(type) {
	case *ssa.Parameter:
		return !isReceiver(b)
	case *ssa.FreeVar:
		return true
	case *ssa.Phi:
		for _, e := range b.Edges {
			if e != x && v.foreign(e, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		if b2, ok := b.Call.Value.(*ssa.Builtin); ok && b2.Name() == "append" && len(b.Call.Args) == 2 {
			if c, ok := b.Call.Args[0].(*ssa.Const); ok && c.Value == nil {
				return v.foreign(b.Call.Args[1], depth+1)
			}
			if r.path == "" {
				return false
			}
		}
		if i := v.sameLen(b.Call.StaticCallee()); i >= 0 && r.path == "" {
			return v.foreign(b.Call.Args[i], depth+1)
		}
	}
	return false
}

func (v *vecRun) lenKey(x ssa.Value, depth int) string {
	r := v.root(x, 0)
	if r.path == "" && depth < 10 {
		switch b := r.base.(type) {
		case *ssa.MakeSlice:
			return v.intKey(b.Len, depth+1)
		case *ssa.Call:
			if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(b.Call.Args) == 2 {
				if c, ok := b.Call.Args[0].(*ssa.Const); ok && c.Value == nil {
					return v.lenKey(b.Call.Args[1], depth+1)
				}
			}
			if f := b.Call.StaticCallee(); f != nil {
				if f.Name() == "Clone" && len(b.Call.Args) == 1 && f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "slices" {
					return v.lenKey(b.Call.Args[0], depth+1)
				}
				if f.Origin() != nil && f.Origin().Name() == "Clone" && len(b.Call.Args) == 1 {
					return v.lenKey(b.Call.Args[0], depth+1)
				}
				if i := v.sameLen(f); i >= 0 && i < len(b.Call.Args) {
					return v.lenKey(b.Call.Args[i], depth+1)
				}
			}
		case *ssa.Phi:
			k := ""
			for _, e := range b.Edges {
				if e == ssa.Value(b) {
					continue
				}
				ek := v.lenKey(e, depth+1)
				if k == "" {
					k = ek
				} else if k != ek {
					k = "-"
				}
			}
			if k != "" && k != "-" {
				return k
			}
		}
	}
	if mk, ok := r.base.(*ssa.MakeSlice); ok && r.path == "[]" && depth < 10 {
		k := ""
		for _, rf := range *mk.Referrers() {
			ia, ok := rf.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					if ek := v.lenKey(st.Val, depth+1); k == "" || k == ek {
						k = ek
					} else {
						k = "-"
					}
				}
			}
		}
		if k != "" && k != "-" {
			return k
		}
	}
	return fmt.Sprintf("L:%p:%s", r.base, r.path)
}

// sameLen: the parameter whose length the first result always has.
func (v *vecRun) sameLen(f *ssa.Function) int {
	if f == nil || f.Blocks == nil || !v.p.inModule(f) || f.Signature.Results().Len() == 0 || !isVec(f.Signature.Results().At(0).Type()) {
		return -1
	}
	if i, ok := v.same[f]; ok {
		return i
	}
	v.same[f] = -1
	res := -2
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value == nil {
			continue
		}
		k := v.lenKey(ret.Results[0], 0)
		hit := -1
		for i, p := range f.Params {
			if isVec(p.Type()) && k == fmt.Sprintf("L:%p:", p) {
				hit = i
			}
		}
		if res == -2 {
			res = hit
		} else if res != hit {
			res = -1
		}
	}
	if res == -2 {
		res = -1
	}
	v.same[f] = res
	return res
}

func (v *vecRun) intKey(x ssa.Value, depth int) string {
	if depth > 10 {
		return fmt.Sprintf("V:%p", x)
	}
	switch y := x.(type) {
	case *ssa.Const:
		if y.Value != nil {
			return "C:" + y.Value.String()
		}
	case *ssa.Convert:
		return v.intKey(y.X, depth+1)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return v.lenKey(y.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				return "F:" + goFieldKey(fa)
			}
			if al, ok := y.X.(*ssa.Alloc); ok {
				r := v.root(al, 0)
				if r.base != ssa.Value(al) && r.path == "" {
					return v.intKey(r.base, depth+1)
				}
			}
		}
	case *ssa.Field:
		t := y.X.Type()
		return "F:field:" + namedName(t) + "." + t.Underlying().(*types.Struct).Field(y.Field).Name()
	}
	switch y := x.(type) {
	case *ssa.BinOp:
		l, r := v.intKey(y.X, depth+1), v.intKey(y.Y, depth+1)
		if (strings.HasPrefix(l, "F:") || strings.HasPrefix(l, "C:")) && (strings.HasPrefix(r, "F:") || strings.HasPrefix(r, "C:")) {
			return "F:(" + l + y.Op.String() + r + ")"
		}
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			k := fmt.Sprintf("V:%p", x)
			if _, ok := v.mins[k]; !ok {
				v.mins[k] = nil
				for _, a := range y.Call.Args {
					v.mins[k] = append(v.mins[k], v.intKey(a, depth+1))
				}
			}
		}
	case *ssa.Phi:
		// n := len(a); if len(b) < n { n = len(b) }
		k := fmt.Sprintf("V:%p", x)
		if _, ok := v.mins[k]; !ok && len(y.Edges) == 2 {
			v.mins[k] = nil
			if a, b := v.intKey(y.Edges[0], depth+1), v.intKey(y.Edges[1], depth+1); strings.HasPrefix(a, "L:") && strings.HasPrefix(b, "L:") {
				v.mins[k] = []string{a, b}
			}
		}
	}
	return fmt.Sprintf("V:%p", x)
}

// okFacts: what holds over the parameters when the last result is nil (an error), or true / false.
func (v *vecRun) okFacts(f *ssa.Function, wantBool bool) []*vecFact {
	return v.resFacts(f, wantBool, true)
}

func (v *vecRun) okFactsT(f *ssa.Function, truth bool) []*vecFact { return v.resFacts(f, true, truth) }

func (v *vecRun) resFacts(f *ssa.Function, wantBool, truth bool) []*vecFact {
	if f == nil || f.Blocks == nil || !v.p.inModule(f) {
		return nil
	}
	var out []*vecFact
	first := true
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		res := ret.Results[len(ret.Results)-1]
		var fs []*vecFact
		all := v.factsOf(f)
		if wantBool {
			if c, ok := res.(*ssa.Const); ok && c.Value != nil && c.Value.String() == fmt.Sprint(!truth) {
				continue
			}
			fs = append(fs, v.condFacts(f, all, res, truth, 0)...)
		} else if c, ok := res.(*ssa.Const); !ok || c.Value != nil {
			continue // an error
		}
		for _, fc := range all {
			if fc.dom.Dominates(b) {
				fs = append(fs, fc)
			}
		}
		var keep []*vecFact
		for _, y := range fs {
			if y.idx != nil {
				continue
			}
			hit := first
			for _, x := range out {
				if x.a == y.a && x.b == y.b && x.le == y.le {
					hit = true
				}
			}
			if hit {
				keep = append(keep, y)
			}
		}
		first = false
		out = keep
	}
	return out
}

// subst: a key of a callee in terms of the caller's arguments.
func (v *vecRun) subst(f *ssa.Function, args []ssa.Value, k string) string {
	for i, p := range f.Params {
		pre := fmt.Sprintf("L:%p:", p)
		if strings.HasPrefix(k, pre) && i < len(args) {
			rest := k[len(pre):]
			if rest == "" {
				return v.lenKey(args[i], 0)
			}
			r := v.root(args[i], 0)
			return fmt.Sprintf("L:%p:%s%s", r.base, r.path, rest)
		}
		if k == fmt.Sprintf("V:%p", p) && i < len(args) {
			return v.intKey(args[i], 0)
		}
	}
	return k
}

func (v *vecRun) factsOf(fn *ssa.Function) []*vecFact {
	if f, ok := v.facts[fn]; ok {
		return f
	}
	v.facts[fn] = nil
	var out []*vecFact
	type late struct {
		b    *ssa.BasicBlock
		cond ssa.Value
	}
	var phis []late
	take := func(b *ssa.BasicBlock, cond ssa.Value) {
		for i, truth := range []bool{true, false} {
			dom := b.Succs[i]
			if len(dom.Preds) != 1 {
				continue
			}
			for _, fc := range v.condFacts(fn, out, cond, truth, 0) {
				out = append(out, &vecFact{dom, fc.a, fc.b, fc.idx, fc.le})
			}
		}
		if c, eq := eqCond(b, cond); c != nil {
			v.forAll(fn, b, eq, c, func(dom, from *ssa.BasicBlock, a, bk string, idx ssa.Value) {
				out = append(out, &vecFact{dom, a, bk, idx, false})
			})
		}
	}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		if hasPhi(iff.Cond) {
			phis = append(phis, late{b, iff.Cond})
			continue
		}
		take(b, iff.Cond)
	}
	for _, l := range phis {
		take(l.b, l.cond)
	}
	v.facts[fn] = out
	return out
}

func hasPhi(x ssa.Value) bool {
	for {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.NOT {
			x = u.X
			continue
		}
		_, ok := x.(*ssa.Phi)
		return ok
	}
}

// eqCond: the integer equality a branch tests, and the successor where it holds.
func eqCond(b *ssa.BasicBlock, cond ssa.Value) (*ssa.BinOp, *ssa.BasicBlock) {
	t, f := b.Succs[0], b.Succs[1]
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond = u.X
			t, f = f, t
			continue
		}
		break
	}
	c, ok := cond.(*ssa.BinOp)
	if !ok || c.Op != token.EQL && c.Op != token.NEQ {
		return nil, nil
	}
	if bt, ok := c.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	if c.Op == token.NEQ {
		return c, f
	}
	return c, t
}

// condFacts: what holds when a condition has a truth value.
func (v *vecRun) condFacts(fn *ssa.Function, known []*vecFact, cond ssa.Value, truth bool, depth int) []*vecFact {
	if depth > 6 {
		return nil
	}
	var out []*vecFact
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return v.condFacts(fn, known, c.X, !truth, depth+1)
		}
	case *ssa.BinOp:
		op := c.Op
		if !truth {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		x, y := c.X, c.Y
		isInt := false
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			isInt = true
		}
		switch op {
		case token.EQL:
			if isInt {
				out = append(out, &vecFact{a: v.intKey(x, 0), b: v.intKey(y, 0)})
			}
			if call, args := errCall(c); call != nil {
				for _, fc := range v.okFacts(call, false) {
					out = append(out, &vecFact{a: v.subst(call, args, fc.a), b: v.subst(call, args, fc.b), le: fc.le})
				}
			}
		case token.GTR, token.GEQ:
			x, y = y, x
			fallthrough
		case token.LSS, token.LEQ:
			if isInt {
				out = append(out, &vecFact{a: v.intKey(x, 0), b: v.intKey(y, 0), le: true})
				if op == token.LSS || op == token.GTR {
					out = append(out, &vecFact{a: v.intKey(y, 0), idx: x})
				}
			}
		}
	case *ssa.Call:
		if g := c.Call.StaticCallee(); g != nil {
			for _, fc := range v.okFactsT(g, truth) {
				out = append(out, &vecFact{a: v.subst(g, c.Call.Args, fc.a), b: v.subst(g, c.Call.Args, fc.b), le: fc.le})
			}
		}
	case *ssa.Phi:
		n := 0
		var e ssa.Value
		var pred *ssa.BasicBlock
		for i, x := range c.Edges {
			if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.String() == fmt.Sprint(!truth) {
				continue
			}
			n++
			e, pred = x, c.Block().Preds[i]
		}
		if n == 1 {
			out = append(out, v.condFacts(fn, known, e, truth, depth+1)...)
			for _, fc := range known {
				if fc.dom != nil && fc.dom.Dominates(pred) {
					out = append(out, &vecFact{a: fc.a, b: fc.b, idx: fc.idx, le: fc.le})
				}
			}
		}
	}
	return out
}

// errCall: the call whose error a comparison with nil tests.
func errCall(c *ssa.BinOp) (*ssa.Function, []ssa.Value) {
	x := c.X
	if k, ok := c.Y.(*ssa.Const); !ok || k.Value != nil {
		return nil, nil
	}
	if ex, ok := x.(*ssa.Extract); ok {
		x = ex.Tuple
	}
	call, ok := x.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	return call.Call.StaticCallee(), call.Call.Args
}

// forAll: a loop over all elements that is left with a return as soon as one has another length: afterwards all have it.
func (v *vecRun) forAll(fn *ssa.Function, b, eq *ssa.BasicBlock, c *ssa.BinOp, add func(dom, from *ssa.BasicBlock, a, bk string, idx ssa.Value)) {
	keys := [2]string{v.intKey(c.X, 0), v.intKey(c.Y, 0)}
	for _, l := range natLoops(fn) {
		if !l.blocks[b] || !l.blocks[eq] {
			continue
		}
		other := b.Succs[0]
		if other == eq {
			other = b.Succs[1]
		}
		if l.blocks[other] {
			continue // a mismatch does not leave the loop
		}
		// the test is passed in every round
		ok := true
		for x := range l.blocks {
			for _, s := range x.Succs {
				if s == l.head && !b.Dominates(x) {
					ok = false
				}
				if !l.blocks[s] && x != l.head && s != other {
					if !leaves(s) {
						ok = false
					}
				}
			}
		}
		if !ok || !leaves(other) {
			continue
		}
		for _, s := range l.head.Succs {
			if !l.blocks[s] {
				for i := range keys {
					if strings.HasPrefix(keys[i], "L:") && strings.Contains(keys[i], "[]") {
						add(s, nil, keys[0], keys[1], nil)
						break
					}
				}
			}
		}
	}
}

// leaves: the block ends in a return without further ado.
func leaves(b *ssa.BasicBlock) bool {
	for n := 0; n < 4; n++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return, *ssa.Panic:
			return true
		case *ssa.Jump:
			b = b.Succs[0]
			continue
		}
		return false
	}
	return false
}

var natLoopCache = map[*ssa.Function][]*natLoop{}

func natLoops(fn *ssa.Function) []*natLoop {
	if l, ok := natLoopCache[fn]; ok {
		return l
	}
	g := &goRun{loops: map[*ssa.Function][]*natLoop{}}
	l := g.loopsOf(fn)
	natLoopCache[fn] = l
	return l
}

var constIdx = regexp.MustCompile(`\[[0-9]+\]`)

// below: some bound is known to be at most a length of the class.
func (v *vecRun) below(fn *ssa.Function, at *ssa.BasicBlock, cl map[string]bool, bound []string) bool {
	seen := map[string]bool{}
	todo := append([]string{}, bound...)
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		for e := range v.class(fn, at, k) {
			if cl[e] {
				return true
			}
			if !seen[e] {
				todo = append(todo, e)
			}
		}
		for _, fc := range v.factsOf(fn) {
			if fc.le && fc.a == k && fc.dom.Dominates(at) {
				todo = append(todo, fc.b)
			}
		}
		todo = append(todo, v.mins[k]...)
	}
	return false
}

// class: all keys known equal to k at an instruction.
func (v *vecRun) class(fn *ssa.Function, at *ssa.BasicBlock, k string) map[string]bool {
	out := map[string]bool{k: true}
	for grown := true; grown; {
		grown = false
		for k := range out {
			if g := constIdx.ReplaceAllString(k, "[]"); strings.HasPrefix(k, "L:") && g != k && !out[g] {
				out[g] = true
				grown = true
			}
		}
		for _, fc := range v.factsOf(fn) {
			if fc.idx != nil || fc.le || !fc.dom.Dominates(at) {
				continue
			}
			if out[fc.a] != out[fc.b] {
				out[fc.a], out[fc.b] = true, true
				grown = true
			}
		}
	}
	return out
}

// trusted: the length was compared with a configured dimension or with what the object holds.
func (v *vecRun) trusted(cl map[string]bool, fn *ssa.Function) bool {
	for k := range cl {
		if strings.HasPrefix(k, "F:") {
			return true
		}
		if fn.Signature.Recv() != nil && len(fn.Params) > 0 && strings.HasPrefix(k, fmt.Sprintf("L:%p:", fn.Params[0])) {
			return true
		}
	}
	return false
}

// need: vector x is read at indexes below bound (a key, or "" if not known).
type need struct {
	x     string // key of x's length
	bound []string
	frgn  map[string]bool // keys that belong to vectors nothing is known about
	at    ssa.Instruction
	pos   token.Pos
	what  string
	keep  bool // the vector is kept by an index of a fixed dimension
	eq    bool // the two have to have the same length
	chain []string
}

func (v *vecRun) holds(fn *ssa.Function, at *ssa.BasicBlock, n *need) bool {
	cl := v.class(fn, at, n.x)
	if n.eq {
		for _, b := range n.bound {
			if cl[b] {
				return true
			}
		}
	} else if v.below(fn, at, cl, n.bound) {
		return true
	}
	for k := range n.frgn {
		if !v.trusted(v.class(fn, at, k), fn) {
			return false
		}
	}
	return true
}

func (v *vecRun) open(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	o := fn.Object()
	return v.taken[fn] || len(v.callers[fn]) == 0 || o != nil && o.Exported() && v.p.isAPI(fn)
}

func (v *vecRun) push(fn *ssa.Function, n *need, depth int, seen map[string]bool) {
	id := fmt.Sprintf("%p %s %v %v", fn, n.x, n.bound, n.eq)
	if depth > 6 || seen[id] {
		return
	}
	seen[id] = true
	if v.open(fn) {
		k := fnName(fn)
		if !v.found[n.chain[0]+k] {
			v.found[n.chain[0]+k] = true
			msg := fmt.Sprintf("%s is read beyond its own length when the vectors given have different lengths: nothing on the way compares them", n.what)
			if n.eq {
				msg = "two vectors are compared element by element without their lengths having been compared"
			}
			if n.keep {
				msg = "a vector is kept by an index of a fixed dimension without its length having been compared with it"
			}
			v.r.add(&Finding{Rule: "length", Construct: k + " > " + n.chain[0], Pos: v.p.pos(n.pos), Msg: msg, Chain: strings.Join(append([]string{k}, n.chain...), " <- ")})
		}
		if fn.Parent() == nil && len(v.callers[fn]) == 0 {
			return
		}
	}
	if v.open(fn) {
		return
	}
	type site struct {
		fn   *ssa.Function
		at   ssa.Instruction
		args []ssa.Value
	}
	var sites []site
	for _, c := range v.callers[fn] {
		sites = append(sites, site{c.Parent(), c, c.Common().Args})
	}
	for _, s := range sites {
		m := &need{at: s.at, pos: n.pos, what: n.what, keep: n.keep, eq: n.eq, frgn: map[string]bool{}, chain: append(append([]string{}, n.chain...), fnName(s.fn))}
		m.x = v.subst(fn, s.args, n.x)
		for _, b := range n.bound {
			m.bound = append(m.bound, v.subst(fn, s.args, b))
		}
		for k := range n.frgn {
			// which argument is it
			for i, p := range fn.Params {
				if strings.HasPrefix(k, fmt.Sprintf("L:%p:", p)) && i < len(s.args) {
					a := s.args[i]
					sk := v.subst(fn, s.args, k)
					if v.foreignKey(a, k[len(fmt.Sprintf("L:%p:", p)):]) {
						m.frgn[sk] = true
					}
				}
			}
		}
		if v.holds(s.fn, s.at.Block(), m) {
			v.r.Counts["proved_at_calls"]++
			continue
		}
		v.push(s.fn, m, depth+1, seen)
	}
	if fn.Parent() != nil && len(sites) == 0 {
		v.r.Counts["not_followed"]++
	}
}

func (v *vecRun) foreignKey(a ssa.Value, rest string) bool {
	if rest == "" {
		return v.foreign(a, 0)
	}
	r := v.root(a, 0)
	p, ok := r.base.(*ssa.Parameter)
	return ok && !isReceiver(p)
}

func init() {
	register("V01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"functions": 300}}
		r.Counts["functions"] = len(p.allFuncs)
		v := &vecRun{p: p, r: r, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, facts: map[*ssa.Function][]*vecFact{}, same: map[*ssa.Function]int{}, found: map[string]bool{}, mins: map[string][]string{}}
		dyn := map[string][]ssa.CallInstruction{}
		into := map[*ssa.Function]map[string]bool{} // the fields a function is stored in ("?" elsewhere)
		for _, fn := range p.allFuncs {
			if fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if f := ci.Common().StaticCallee(); f != nil {
							v.callers[f] = append(v.callers[f], ci)
						} else if cc := ci.Common(); !cc.IsInvoke() {
							dyn[sigKey(cc.Signature())] = append(dyn[sigKey(cc.Signature())], ci)
						}
					}
					for _, op := range in.Operands(nil) {
						f, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == *op {
							continue
						}
						v.taken[f] = true
						k := "?"
						if st, ok := in.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
								k = goFieldKey(fa)
							}
						}
						if into[f] == nil {
							into[f] = map[string]bool{}
						}
						into[f][k] = true
					}
				}
			}
		}
		for f := range v.taken {
			if f.Signature.Recv() == nil && len(f.FreeVars) == 0 && len(dyn[sigKey(f.Signature)]) > 0 {
				for _, ci := range dyn[sigKey(f.Signature)] {
					if ld, ok := ci.Common().Value.(*ssa.UnOp); ok && !into[f]["?"] {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok && !into[f][goFieldKey(fa)] {
							continue
						}
					}
					v.callers[f] = append(v.callers[f], ci)
				}
				delete(v.taken, f)
			}
		}
		for _, fn := range p.allFuncs {
			if fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if bo, ok := in.(*ssa.BinOp); ok {
						if x, y := elemOf(bo.X, 0), elemOf(bo.Y, 0); x != nil && y != nil && sameIdx(x.Index, y.Index) && isVec(x.X.Type()) && isVec(y.X.Type()) {
							kx, ky := v.lenKey(x.X, 0), v.lenKey(y.X, 0)
							if kx != ky && v.keyForeign(fn, kx) && v.keyForeign(fn, ky) {
								r.Counts["pairs"]++
								n := &need{x: kx, bound: []string{ky}, eq: true, at: in, pos: in.Pos(), frgn: map[string]bool{}, chain: []string{fnName(fn)}}
								for _, k := range []string{kx, ky} {
									if v.keyForeign(fn, k) {
										n.frgn[k] = true
									}
								}
								if v.holds(fn, b, n) {
									r.Counts["proved"]++
								} else {
									v.push(fn, n, 0, map[string]bool{})
								}
							}
						}
					}
					val := storedVec(in)
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
							if sk := v.lenKey(c.Call.Args[1], 0); !v.class(fn, b, sk)[v.lenKey(c.Call.Args[0], 0)] {
								val = c.Call.Args[1]
							}
						}
					}
					if val != nil && isFloatVec(val.Type()) && dimensioned(fn) {
						r.Counts["stored_vectors"]++
						k := v.lenKey(val, 0)
						n := &need{x: k, at: in, pos: in.Pos(), keep: true, frgn: map[string]bool{}, chain: []string{fnName(fn)}}
						if v.keyForeign(fn, k) {
							n.frgn[k] = true
						}
						if v.holds(fn, b, n) {
							r.Counts["proved"]++
						} else {
							v.push(fn, n, 0, map[string]bool{})
						}
						continue
					}
					var x, idx ssa.Value
					var bound []string
					switch o := in.(type) {
					case *ssa.IndexAddr:
						if !isVec(o.X.Type()) {
							continue
						}
						x, idx = o.X, o.Index
						if _, isC := idx.(*ssa.Const); isC {
							continue
						}
					case *ssa.Slice:
						if !isFloatVec(o.X.Type()) || o.High == nil {
							continue
						}
						switch h := o.High.(type) {
						case *ssa.Phi, *ssa.Const:
							continue
						case *ssa.Call:
							_ = h
							continue
						}
						x = o.X
					default:
						continue
					}
					r.Counts["accesses"]++
					n := &need{x: v.lenKey(x, 0), at: in, pos: in.Pos(), what: "a vector", frgn: map[string]bool{}, chain: []string{fnName(fn)}}
					if v.foreign(x, 0) {
						n.frgn[n.x] = true
					}
					if idx != nil {
						for _, fc := range v.factsOf(fn) {
							if fc.idx != nil && fc.dom.Dominates(b) && sameIdx(fc.idx, idx) {
								bound = append(bound, fc.a)
							}
						}
						for _, k := range bound {
							if strings.HasPrefix(k, "L:") && v.keyForeign(fn, k) {
								n.frgn[k] = true
							}
						}
						if len(bound) == 0 {
							if !v.derived(fn, b, idx, 0) {
								r.Counts["index_not_bounded"]++
								continue
							}
							bound = append(bound, v.intKey(idx, 0))
						}
					} else if sl, ok := in.(*ssa.Slice); ok {
						bound = append(bound, v.intKey(sl.High, 0))
					}
					n.bound = bound
					if v.holds(fn, b, n) {
						r.Counts["proved"]++
						continue
					}
					if os.Getenv("SCOPE_DUMP") != "" {
						fmt.Fprintln(os.Stderr, "need", fnName(fn), p.pos(in.Pos()), n.x, n.bound, n.frgn)
					}
					v.push(fn, n, 0, map[string]bool{})
				}
			}
		}
		sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Construct < r.Findings[j].Construct })
		return r
	})
}

// derived: computed from an index that runs up to a known bound.
func (v *vecRun) derived(fn *ssa.Function, at *ssa.BasicBlock, x ssa.Value, depth int) bool {
	bo, ok := x.(*ssa.BinOp)
	if !ok || depth > 3 {
		return false
	}
	for _, o := range []ssa.Value{bo.X, bo.Y} {
		for _, fc := range v.factsOf(fn) {
			if fc.idx != nil && fc.dom.Dominates(at) && sameIdx(fc.idx, o) {
				return true
			}
		}
		if v.derived(fn, at, o, depth+1) {
			return true
		}
	}
	return false
}

// elemOf: the vector element a value is (converted or squared on the way).
func elemOf(x ssa.Value, depth int) *ssa.IndexAddr {
	if depth > 4 {
		return nil
	}
	switch y := x.(type) {
	case *ssa.Convert:
		return elemOf(y.X, depth+1)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			ia, _ := y.X.(*ssa.IndexAddr)
			return ia
		}
	}
	return nil
}

// storedVec: the vector an instruction puts into a map, slice element or structure.
func storedVec(in ssa.Instruction) ssa.Value {
	switch o := in.(type) {
	case *ssa.MapUpdate:
		return o.Value
	case *ssa.Store:
		switch o.Addr.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr:
			return o.Val
		}
	}
	return nil
}

// dimensioned: a method of an index that is made for one dimension.
func dimensioned(fn *ssa.Function) bool {
	rv := fn.Signature.Recv()
	if rv == nil || pkgName(fn) != "index" {
		return false
	}
	n := recvNamed(rv.Type())
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.EqualFold(st.Field(i).Name(), "dimension") {
			return true
		}
	}
	return false
}

// keyForeign: a length key of one of the function's own (not the receiver's) vectors.
func (v *vecRun) keyForeign(fn *ssa.Function, k string) bool {
	for _, p := range fn.Params {
		if strings.HasPrefix(k, fmt.Sprintf("L:%p:", p)) {
			return !isReceiver(p)
		}
	}
	for _, p := range fn.FreeVars {
		if strings.HasPrefix(k, fmt.Sprintf("L:%p:", p)) {
			return true
		}
	}
	return false
}

func sameIdx(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if c, ok := b.(*ssa.Convert); ok {
		return sameIdx(a, c.X)
	}
	return false
}

// isAPI: exported, on an exported type, outside internal packages.
func (p *Prog) isAPI(fn *ssa.Function) bool {
	o := fn.Object()
	if o == nil || !o.Exported() || o.Pkg() == nil || strings.Contains(o.Pkg().Path(), "/internal/") {
		return false
	}
	if rv := fn.Signature.Recv(); rv != nil {
		n := recvNamed(rv.Type())
		return n != nil && n.Obj().Exported()
	}
	return true
}

func sigKey(s *types.Signature) string {
	var out []string
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, types.TypeString(s.Params().At(i).Type(), nil))
	}
	out = append(out, ">")
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, types.TypeString(s.Results().At(i).Type(), nil))
	}
	return strings.Join(out, ",")
}
