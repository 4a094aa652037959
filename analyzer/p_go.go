package main

// G01: goroutines end, waits return, channels are closed once by their senders and nothing blocks for ever.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type goRun struct {
	p       *Prog
	r       *Result
	found   map[string]bool
	callers map[*ssa.Function][]ssa.CallInstruction // static calls, go and defer statements
	binds   map[*ssa.FreeVar][]ssa.Value
	rootsOf map[ssa.Value]map[string]bool
	loops   map[*ssa.Function][]*natLoop
	stores  map[string][]ssa.Value // field key -> values stored
	gos     []*goSite
}

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type goSite struct {
	fn   *ssa.Function // the function that starts it
	in   ssa.Instruction
	body *ssa.Function
	viaW string // started by WaitGroup.Go
}

func (g *goRun) add(rule, construct string, pos token.Pos, msg string) {
	if k := rule + "|" + construct; !g.found[k] {
		g.found[k] = true
		g.r.add(&Finding{Rule: rule, Construct: construct, Pos: g.p.pos(pos), Msg: msg, Chain: construct})
	}
}

func syncMethod(c *ssa.CallCommon, typ, name string) bool {
	f := c.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "sync" || f.Name() != name {
		return false
	}
	rv := f.Signature.Recv()
	return rv != nil && namedName(rv.Type()) == typ
}

func goFieldKey(x *ssa.FieldAddr) string {
	t := x.X.Type().Underlying().(*types.Pointer).Elem()
	return "field:" + namedName(t) + "." + t.Underlying().(*types.Struct).Field(x.Field).Name()
}

// roots: where a channel or wait group was made.
func (g *goRun) roots(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if seen[v] || depth > 12 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeChan:
			out[fmt.Sprintf("make:%p", x)] = true
		case *ssa.ChangeType:
			walk(x.X, depth+1)
		case *ssa.MakeInterface:
			walk(x.X, depth+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, depth+1)
			}
		case *ssa.Alloc:
			if el := x.Type().Underlying().(*types.Pointer).Elem(); isChan(el) || isPtr(el) {
				for _, rf := range *x.Referrers() {
					if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						walk(st.Val, depth+1)
					}
				}
				g.closureStores(x, func(val ssa.Value) { walk(val, depth+1) })
				return
			}
			out[fmt.Sprintf("alloc:%p", x)] = true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					k := goFieldKey(fa)
					if isTimeChan(fa) {
						k = "time"
					}
					out[k] = true
					return
				}
				walk(x.X, depth+1)
			}
		case *ssa.FieldAddr:
			out[goFieldKey(x)] = true
		case *ssa.FreeVar:
			for _, b := range g.binds[x] {
				walk(b, depth+1)
			}
		case *ssa.Parameter:
			fn := x.Parent()
			idx := -1
			for i, q := range fn.Params {
				if q == x {
					idx = i
				}
			}
			cs := g.callers[fn]
			if ob := fn.Object(); len(cs) == 0 || ob != nil && ob.Exported() && fn.Parent() == nil {
				out["param:"+fnName(fn)+"."+x.Name()] = true
			}
			for _, c := range cs {
				if a := c.Common().Args; idx < len(a) {
					walk(a[idx], depth+1)
				}
			}
		case *ssa.Call:
			if x.Call.IsInvoke() && x.Call.Method.Name() == "Done" {
				out["ctxdone"] = true
				return
			}
			if f := x.Call.StaticCallee(); f != nil {
				if f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "time" {
					out["time"] = true
					return
				}
				if f.Blocks != nil && g.callersKnown(f) {
					for _, b := range f.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, rv := range ret.Results {
								if isChan(rv.Type()) {
									walk(rv, depth+1)
								}
							}
						}
					}
					return
				}
			}
			out["other"] = true
		case *ssa.Extract:
			walk(x.Tuple, depth+1)
		case *ssa.Const:
		default:
			out["other"] = true
		}
	}
	walk(v, 0)
	return out
}

// isTimeChan: the channel of a timer or ticker.
func isTimeChan(fa *ssa.FieldAddr) bool {
	n := recvNamed(fa.X.Type())
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

func (g *goRun) callersKnown(f *ssa.Function) bool { return g.p.inModule(f) }

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isPtr(t types.Type) bool  { _, ok := t.Underlying().(*types.Pointer); return ok }

// closureStores: values that closures store into a captured variable.
func (g *goRun) closureStores(al *ssa.Alloc, do func(ssa.Value)) {
	for _, rf := range *al.Referrers() {
		mc, ok := rf.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for i, b := range mc.Bindings {
			if b != ssa.Value(al) {
				continue
			}
			fv := mc.Fn.(*ssa.Function).FreeVars[i]
			for _, rf2 := range *fv.Referrers() {
				if st, ok := rf2.(*ssa.Store); ok && st.Addr == ssa.Value(fv) {
					do(st.Val)
				}
			}
		}
	}
}

func one(m map[string]bool, k string) bool { return len(m) == 1 && m[k] }

func (g *goRun) loopsOf(fn *ssa.Function) []*natLoop {
	if l, ok := g.loops[fn]; ok {
		return l
	}
	byHead := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	g.loops[fn] = out
	return out
}

func (g *goRun) loopsAt(b *ssa.BasicBlock) []*natLoop {
	var out []*natLoop
	for _, l := range g.loopsOf(b.Parent()) {
		if l.blocks[b] {
			out = append(out, l)
		}
	}
	return out
}

// exprKey: a name for the value of an expression that does not change meanwhile.
func exprKey(v ssa.Value, depth int) string {
	if depth > 8 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + exprKey(x.Call.Args[0], depth+1) + ")"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return exprKey(a.X, depth+1) + "." + goFieldKey(a)
			case *ssa.Alloc:
				var val ssa.Value
				n := 0
				for _, rf := range *a.Referrers() {
					if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						val = st.Val
						n++
					}
				}
				if n == 1 {
					return exprKey(val, depth+1)
				}
			}
		}
	case *ssa.Convert:
		return exprKey(x.X, depth+1)
	}
	return fmt.Sprintf("%p", v)
}

// bound: how often a loop runs its body, as the key of a value, and whether it can be left early.
func (g *goRun) bound(l *natLoop) (key string, early bool) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return "", true
	}
	switch c := iff.Cond.(type) {
	case *ssa.BinOp:
		if c.Op == token.LSS {
			key = exprKey(c.Y, 0)
		} else if c.Op == token.GTR {
			key = exprKey(c.X, 0)
		}
	case *ssa.Extract:
		if nx, ok := c.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				key = "len(" + exprKey(rg.X, 0) + ")"
			}
		}
	}
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] && b != l.head {
				early = true
			}
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				early = true
			}
		}
	}
	return key, early
}

const countCap = 9

// count: how often events happen on the paths through a function, least and most; deferred calls count.
func (g *goRun) count(fn *ssa.Function, ev func(ssa.Instruction) bool, depth int) (int, int) {
	if fn == nil || fn.Blocks == nil || depth > 4 {
		return 0, 0
	}
	type mm struct{ lo, hi int }
	in := map[*ssa.BasicBlock]mm{}
	res := mm{-1, 0}
	step := func(s mm, i ssa.Instruction) mm {
		if ev(i) {
			s.lo++
			s.hi++
		} else {
			var c *ssa.CallCommon
			switch x := i.(type) {
			case *ssa.Call:
				c = &x.Call
			case *ssa.Defer:
				c = &x.Call
			}
			if c != nil {
				f := c.StaticCallee()
				if f == nil {
					if mc, ok := c.Value.(*ssa.MakeClosure); ok {
						f = mc.Fn.(*ssa.Function)
					}
				}
				if f != nil && f != fn && g.p.inModule(f) {
					a, b := g.count(f, ev, depth+1)
					s.lo, s.hi = s.lo+a, s.hi+b
				} else if f == nil || !g.p.inModule(f) {
					// Once.Do and the like run the closure they are given
					for _, a := range c.Args {
						if mc, ok := a.(*ssa.MakeClosure); ok && f != nil && f.Name() == "Do" {
							_, b := g.count(mc.Fn.(*ssa.Function), ev, depth+1)
							s.hi += b
						}
					}
				}
			}
		}
		if s.lo > countCap {
			s.lo = countCap
		}
		if s.hi > countCap {
			s.hi = countCap
		}
		return s
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	in[fn.Blocks[0]] = mm{0, 0}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		s := in[b]
		for _, i := range b.Instrs {
			s = step(s, i)
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if res.lo < 0 || s.lo < res.lo {
				res.lo = s.lo
			}
			if s.hi > res.hi {
				res.hi = s.hi
			}
		}
		for _, o := range b.Succs {
			old, ok := in[o]
			nw := s
			if ok {
				if old.lo < nw.lo {
					nw.lo = old.lo
				}
				if old.hi > nw.hi {
					nw.hi = old.hi
				}
				if nw == old {
					continue
				}
			}
			in[o] = nw
			work = append(work, o)
		}
	}
	if res.lo < 0 {
		// never returns
		hi := 0
		for _, s := range in {
			if s.hi > hi {
				hi = s.hi
			}
		}
		return countCap, hi
	}
	return res.lo, res.hi
}

func commonOf(i ssa.Instruction) *ssa.CallCommon {
	switch x := i.(type) {
	case *ssa.Call:
		return &x.Call
	case *ssa.Defer:
		return &x.Call
	case *ssa.Go:
		return &x.Call
	}
	return nil
}

func (g *goRun) evWG(w, name string) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		if _, isGo := i.(*ssa.Go); isGo {
			return false
		}
		c := commonOf(i)
		return c != nil && syncMethod(c, "WaitGroup", name) && g.roots(c.Args[0])[w]
	}
}

func (g *goRun) evClose(r string) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		if _, isGo := i.(*ssa.Go); isGo {
			return false
		}
		c := commonOf(i)
		if c == nil {
			return false
		}
		b, ok := c.Value.(*ssa.Builtin)
		return ok && b.Name() == "close" && g.roots(c.Args[0])[r]
	}
}

func (g *goRun) evSend(r string) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		switch x := i.(type) {
		case *ssa.Send:
			return g.roots(x.Chan)[r]
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly && g.roots(st.Chan)[r] {
					return true
				}
			}
		}
		return false
	}
}

// walkStates: all paths through a function with a small state; bad is asked at returns.
func walkStates(fn *ssa.Function, start string, step func(s string, i ssa.Instruction) string) {
	in := map[*ssa.BasicBlock]map[string]bool{fn.Blocks[0]: {start: true}}
	type item struct {
		b *ssa.BasicBlock
		s string
	}
	work := []item{{fn.Blocks[0], start}}
	for n := 0; len(work) > 0 && n < 50000; n++ {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.s
		for _, i := range it.b.Instrs {
			s = step(s, i)
		}
		for _, o := range it.b.Succs {
			if in[o] == nil {
				in[o] = map[string]bool{}
			}
			if !in[o][s] {
				in[o][s] = true
				work = append(work, item{o, s})
			}
		}
	}
}

func init() {
	register("G01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"functions": 300}}
		g := &goRun{p: p, r: r, found: map[string]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, binds: map[*ssa.FreeVar][]ssa.Value{}, loops: map[*ssa.Function][]*natLoop{}}
		r.Counts["functions"] = len(p.allFuncs)
		g.collect()
		g.waitGroups()
		g.channels()
		g.endless()
		g.closers()
		sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Construct < r.Findings[j].Construct })
		return r
	})
}

func (g *goRun) collect() {
	for _, fn := range g.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					for i, bd := range mc.Bindings {
						g.binds[f.FreeVars[i]] = append(g.binds[f.FreeVars[i]], bd)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				f := c.StaticCallee()
				if f != nil {
					g.callers[f] = append(g.callers[f], ci)
				}
				if _, isGo := in.(*ssa.Go); isGo {
					g.r.Counts["goroutines"]++
					if f == nil || f.Blocks == nil {
						g.r.Counts["not_followed"]++
						continue
					}
					g.gos = append(g.gos, &goSite{fn: fn, in: in, body: f})
				} else if syncMethod(c, "WaitGroup", "Go") && len(c.Args) > 1 {
					var body *ssa.Function
					switch x := c.Args[1].(type) {
					case *ssa.MakeClosure:
						body = x.Fn.(*ssa.Function)
					case *ssa.Function:
						body = x
					}
					if body != nil && body.Blocks != nil {
						g.r.Counts["goroutines"]++
						s := &goSite{fn: fn, in: in, body: body}
						for k := range g.roots(c.Args[0]) {
							s.viaW = k
						}
						g.gos = append(g.gos, s)
					}
				}
			}
		}
	}
}

func (g *goRun) waitGroups() {
	// wait groups by where they live
	type use struct {
		fn *ssa.Function
		in ssa.Instruction
	}
	adds, dones, waits := map[string][]use{}, map[string][]use{}, map[string][]use{}
	for _, fn := range g.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c := commonOf(in)
				if c == nil {
					continue
				}
				for name, m := range map[string]map[string][]use{"Add": adds, "Done": dones, "Wait": waits} {
					if syncMethod(c, "WaitGroup", name) {
						for k := range g.roots(c.Args[0]) {
							m[k] = append(m[k], use{fn, in})
						}
					}
				}
			}
		}
	}
	ws := map[string]bool{}
	for k := range adds {
		ws[k] = true
	}
	for k := range dones {
		ws[k] = true
	}
	for _, s := range g.gos {
		if s.viaW != "" {
			ws[s.viaW] = true
		}
	}
	for _, w := range sortedKeys(ws) {
		g.r.Counts["wait_groups"]++
		done, wait := g.evWG(w, "Done"), g.evWG(w, "Wait")
		var where token.Pos
		name := ""
		for _, u := range append(append([]use{}, adds[w]...), dones[w]...) {
			where, name = u.in.Pos(), fnName(u.fn)
			break
		}
		if len(waits[w]) == 0 && !strings.HasPrefix(w, "param:") {
			g.add("never-waited", name, where, "goroutines are counted in a wait group that nobody waits for")
		}
		workers := map[ssa.Instruction]*goSite{}
		for _, s := range g.gos {
			if s.viaW == w {
				workers[s.in] = s
				continue
			}
			lo, hi := g.count(s.body, done, 0)
			if hi == 0 {
				continue
			}
			workers[s.in] = s
			g.r.Counts["obligations"]++
			if lo != 1 || hi != 1 {
				g.add("done", fnName(s.body), s.in.Pos(), fmt.Sprintf("the goroutine started in %s marks itself done %d to %d times, not exactly once on every path", fnName(s.fn), lo, hi))
			}
			if _, a := g.count(s.body, g.evWG(w, "Add"), 0); a > 0 {
				g.add("add-inside", fnName(s.body), s.in.Pos(), "the goroutine adds itself to the wait group: the wait may be over before it starts")
			}
		}
		// starters
		starters := map[*ssa.Function]bool{}
		for _, s := range workers {
			starters[s.fn] = true
		}
		for _, u := range adds[w] {
			starters[u.fn] = true
		}
		for _, u := range waits[w] {
			if g.ownsAlloc(u.fn, w) {
				starters[u.fn] = true
			}
		}
		for fn := range starters {
			if fn.Blocks == nil {
				continue
			}
			isBody := false
			for _, s := range g.gos {
				if s.body == fn {
					isBody = true
				}
			}
			_ = isBody
			hasAdd, hasGo := false, false
			for _, u := range adds[w] {
				hasAdd = hasAdd || u.fn == fn
			}
			for _, s := range workers {
				hasGo = hasGo || s.fn == fn && s.viaW == ""
			}
			if hasAdd && !hasGo && len(workers) > 0 && !g.ownsAlloc(fn, w) {
				continue // added here, started elsewhere
			}
			local := strings.HasPrefix(w, "alloc:") && g.ownsAlloc(fn, w)
			deferredWait := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if d, ok := in.(*ssa.Defer); ok && syncMethod(&d.Call, "WaitGroup", "Wait") && g.roots(d.Call.Args[0])[w] {
						deferredWait = true
					}
				}
			}
			addAnywhere := len(adds[w]) > 0
			// state: pending (0, 1, m) and running (0, 1)
			walkStates(fn, "00", func(s string, in ssa.Instruction) string {
				pend, run := s[0], s[1]
				switch x := in.(type) {
				case *ssa.Call:
					if syncMethod(&x.Call, "WaitGroup", "Add") && g.roots(x.Call.Args[0])[w] {
						if c, ok := x.Call.Args[1].(*ssa.Const); ok && c.Int64() == 1 {
							if pend == '1' {
								g.add("add", fnName(fn), x.Pos(), "the wait group is counted up twice for one goroutine: the wait never ends")
							}
							if pend == '0' {
								pend = '1'
							}
						} else if ok && c.Int64() > 1 {
							pend = 'm'
						} else {
							pend = 'm'
						}
					} else if wait(in) {
						if pend == '1' {
							g.add("add", fnName(fn), x.Pos(), "on a path the wait group is counted up but no goroutine is started: the wait never ends")
						}
						pend, run = '0', '0'
					} else if ws := workers[in]; ws != nil {
						run = '1'
					} else if f := x.Call.StaticCallee(); f != nil && g.p.inModule(f) {
						if lo, _ := g.count(f, wait, 0); lo > 0 {
							pend, run = '0', '0'
						} else if _, hi := g.count(f, func(i ssa.Instruction) bool { return workers[i] != nil }, 0); hi > 0 {
							run = '1'
						}
					}
				case *ssa.Go:
					if ws := workers[in]; ws != nil {
						if pend == '0' && addAnywhere && hasAdd {
							g.add("add", fnName(fn), x.Pos(), "on a path a goroutine is started without counting it in the wait group it reports to")
						}
						if pend == '0' && !addAnywhere {
							g.add("add", fnName(fn), x.Pos(), "a goroutine reports to a wait group it was never counted in")
						}
						if pend == '1' {
							pend = '0'
						}
						run = '1'
						break
					}
					if f := x.Call.StaticCallee(); f != nil {
						if lo, _ := g.count(f, wait, 0); lo > 0 {
							run, pend = '0', '0' // someone else waits
						}
					}
				case *ssa.Return:
					if pend == '1' && !(isBodyOf(g, fn) && !local) {
						g.add("add", fnName(fn), x.Pos(), "on a path the wait group is counted up but no goroutine is started: the wait never ends")
					}
					if local && run == '1' && !deferredWait {
						g.add("not-awaited", fnName(fn), x.Pos(), "on a path the operation returns without waiting for the goroutines it started")
					}
				}
				return string([]byte{pend, run})
			})
			_ = done
		}
	}
}

// ownsAlloc: the wait group is a variable of this function.
func (g *goRun) ownsAlloc(fn *ssa.Function, w string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && fmt.Sprintf("alloc:%p", al) == w {
				return true
			}
		}
	}
	return false
}

// closers: what an object works on in the background is over when its Close returns.
func (g *goRun) closers() {
	for _, s := range g.gos {
		// goroutines of an object: started by its constructor, or counted in a wait group it holds
		var owners []*types.Named
		if s.fn.Signature.Recv() == nil && s.fn.Parent() == nil {
			for i := 0; i < s.fn.Signature.Results().Len(); i++ {
				if n := recvNamed(s.fn.Signature.Results().At(i).Type()); n != nil {
					owners = append(owners, n)
				}
			}
		}
		for _, b := range s.body.Blocks {
			for _, in := range b.Instrs {
				if c := commonOf(in); c != nil && syncMethod(c, "WaitGroup", "Done") {
					if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
						if n := recvNamed(fa.X.Type()); n != nil {
							owners = append(owners, n)
						}
					}
				}
			}
		}
		for _, n := range owners {
			var cl *ssa.Function
			for _, fn := range g.p.allFuncs {
				if fn.Name() == "Close" && fn.Signature.Recv() != nil && recvNamed(fn.Signature.Recv().Type()) == n && fn.Synthetic == "" {
					cl = fn
				}
			}
			if cl == nil {
				continue
			}
			g.r.Counts["obligations"]++
			awaited := false
			ws := map[string]bool{}
			g.eachBelow(s.body, 3, func(in ssa.Instruction) {
				c := commonOf(in)
				if c == nil {
					return
				}
				if syncMethod(c, "WaitGroup", "Done") {
					for k := range g.roots(c.Args[0]) {
						ws["wg "+k] = true
					}
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					for k := range g.roots(c.Args[0]) {
						ws["ch "+k] = true
					}
				}
			})
			if s.viaW != "" {
				ws["wg "+s.viaW] = true
			}
			for k := range ws {
				kind, w := k[:2], k[3:]
				ev := g.evWG(w, "Wait")
				if kind == "ch" {
					ev = func(in ssa.Instruction) bool {
						u, ok := in.(*ssa.UnOp)
						return ok && u.Op == token.ARROW && g.roots(u.X)[w]
					}
				}
				if g.waitsUnlessClosed(cl, ev) {
					awaited = true
				}
			}
			if !awaited {
				g.add("outlives-close", fnName(s.fn), s.in.Pos(), fmt.Sprintf("%s.Close can return while the goroutine started here still works for it", n.Obj().Name()))
			}
		}
	}
}

// waitsUnlessClosed: every path waits, but for those that found the object closed already.
func (g *goRun) waitsUnlessClosed(cl *ssa.Function, ev func(ssa.Instruction) bool) bool {
	ok := true
	walkStates(cl, "0", func(s string, in ssa.Instruction) string {
		if b := in.Block(); in == b.Instrs[0] && len(b.Preds) == 1 {
			if iff, isIf := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); isIf {
				cond, want := iff.Cond, b.Preds[0].Succs[0]
				if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
					cond, want = u.X, b.Preds[0].Succs[1]
				}
				if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.MUL && b == want {
					if _, isF := u.X.(*ssa.FieldAddr); isF {
						s = "1"
					}
				}
			}
		}
		if ev(in) {
			return "1"
		}
		if c := commonOf(in); c != nil {
			if f := c.StaticCallee(); f != nil && g.p.inModule(f) {
				if lo, _ := g.count(f, ev, 0); lo >= 1 {
					return "1"
				}
			}
		}
		if _, isRet := in.(*ssa.Return); isRet && s == "0" {
			ok = false
		}
		return s
	})
	return ok
}

func (g *goRun) eachBelow(fn *ssa.Function, depth int, do func(ssa.Instruction)) {
	if fn == nil || fn.Blocks == nil || depth < 0 || !g.p.inModule(fn) {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			do(in)
			if c := commonOf(in); c != nil {
				g.eachBelow(c.StaticCallee(), depth-1, do)
			}
		}
	}
}

func isBodyOf(g *goRun, fn *ssa.Function) bool {
	for _, s := range g.gos {
		if s.body == fn {
			return true
		}
	}
	return false
}

func (g *goRun) dump(s string) {
	if os.Getenv("SCOPE_DUMP") != "" {
		fmt.Fprintln(os.Stderr, s)
	}
}
