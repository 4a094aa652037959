package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type chanUse struct {
	fn      *ssa.Function
	in      ssa.Instruction
	roots   map[string]bool
	escape  bool // a select that another case or a default always leaves in the end
	commaOK bool
	sel     *ssa.Select
	state   int
}

func (g *goRun) selEscapes(x *ssa.Select, except int) bool {
	if !x.Blocking {
		return true
	}
	for i, st := range x.States {
		if i == except || st.Dir != types.RecvOnly {
			continue
		}
		rt := g.roots(st.Chan)
		if rt["ctxdone"] || rt["time"] {
			return true
		}
	}
	return false
}

// reaches: whether an instruction can run after another in one function.
func reachesInstr(from, to ssa.Instruction) bool {
	fb, tb := from.Block(), to.Block()
	if fb == tb {
		for _, i := range fb.Instrs {
			if i == from {
				goto after
			}
			if i == to {
				break
			}
		}
		goto around
	after:
		return true
	}
around:
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, fb.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == tb {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

func (g *goRun) channels() {
	makes := map[string]*ssa.MakeChan{}
	var sends, recvs, closes []*chanUse
	for _, fn := range g.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeChan:
					makes[fmt.Sprintf("make:%p", x)] = x
				case *ssa.Send:
					sends = append(sends, &chanUse{fn: fn, in: in, roots: g.roots(x.Chan)})
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						recvs = append(recvs, &chanUse{fn: fn, in: in, roots: g.roots(x.X), commaOK: x.CommaOk})
					}
				case *ssa.Select:
					for i, st := range x.States {
						u := &chanUse{fn: fn, in: in, roots: g.roots(st.Chan), escape: g.selEscapes(x, i), sel: x, state: i}
						if st.Dir == types.SendOnly {
							sends = append(sends, u)
						} else {
							for _, rf := range *x.Referrers() {
								if ex, ok := rf.(*ssa.Extract); ok && ex.Index == 1 && len(*ex.Referrers()) > 0 {
									u.commaOK = true
								}
							}
							if u.roots["ctxdone"] || u.roots["time"] {
								u.escape = true
							}
							recvs = append(recvs, u)
						}
					}
				}
				if c := commonOf(in); c != nil {
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						closes = append(closes, &chanUse{fn: fn, in: in, roots: g.roots(c.Args[0])})
					}
				}
			}
		}
	}
	// a field's channels stand for the field
	fieldOf := map[string]string{}
	for _, fn := range g.p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isChan(st.Val.Type()) {
						for k := range g.roots(st.Val) {
							if strings.HasPrefix(k, "make:") {
								fieldOf[k] = goFieldKey(fa)
							}
						}
					}
				}
			}
		}
	}
	canon := func(m map[string]bool) []string {
		out := map[string]bool{}
		for k := range m {
			if f := fieldOf[k]; f != "" {
				k = f
			}
			out[k] = true
		}
		return sortedKeys(out)
	}
	has := func(u *chanUse, r string) bool {
		for _, k := range canon(u.roots) {
			if k == r {
				return true
			}
		}
		return false
	}
	closedSomewhere := func(r string) bool {
		for _, c := range closes {
			if has(c, r) {
				return true
			}
		}
		return false
	}
	g.r.Counts["channels"] = len(makes)

	// sends
	for _, u := range sends {
		g.r.Counts["sends"]++
		if u.escape {
			continue
		}
		for _, r := range canon(u.roots) {
			mk := makes[r]
			if mk == nil {
				if strings.HasPrefix(r, "field:") {
					g.add("send", fnName(u.fn), u.in.Pos(), "the send waits without end once nobody takes the values any more: no context, time limit or default in sight")
				}
				continue
			}
			if ok, why := g.sendFits(mk, r, u); !ok {
				g.add("send", fnName(u.fn), u.in.Pos(), why)
			}
		}
	}
	// receives
	for _, u := range recvs {
		g.r.Counts["receives"]++
		if u.escape {
			continue
		}
		for _, r := range canon(u.roots) {
			if strings.HasPrefix(r, "param:") || r == "ctxdone" || r == "time" || r == "other" {
				continue
			}
			if closedSomewhere(r) {
				if mk := makes[r]; mk != nil && !g.closedFor(mk, r, u) {
					g.add("receive", fnName(u.fn), u.in.Pos(), "on a path the channel waited for is not closed: the receiver waits without end")
				}
				continue
			}
			if mk := makes[r]; mk != nil {
				if ok, why := g.recvMatches(mk, r, u); !ok {
					g.add("receive", fnName(u.fn), u.in.Pos(), why)
				}
			}
		}
	}
	// channels handed to the caller
	for r, mk := range makes {
		fn := mk.Parent()
		closers := map[ssa.Instruction]bool{}
		for _, s := range g.gos {
			if lo, _ := g.count(s.body, g.evClose(r), 0); lo >= 1 {
				closers[s.in] = true
			}
		}
		ev := g.evClose(r)
		walkStates(fn, "0", func(s string, in ssa.Instruction) string {
			if closers[in] || ev(in) {
				return "1"
			}
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && g.p.inModule(f) {
					if lo, _ := g.count(f, ev, 0); lo >= 1 {
						return "1"
					}
					for _, x := range g.startsIn(f, 2) {
						if closers[x] {
							return "1"
						}
					}
				}
			}
			if ret, ok := in.(*ssa.Return); ok {
				for _, v := range ret.Results {
					v = lastStored(v, ret)
					if isChan(v.Type()) && g.roots(v)[r] {
						g.r.Counts["obligations"]++
						if s == "0" {
							g.add("never-closed", fnName(fn), ret.Pos(), "the channel handed to the caller is not closed on every path of the goroutine that feeds it: a caller reading to the end waits for ever")
						}
					}
				}
			}
			return s
		})
	}
	// closing
	seen := map[string]*chanUse{}
	for _, c := range closes {
		g.r.Counts["closes"]++
		for _, r := range canon(c.roots) {
			if o := seen[r]; o != nil && o.in != c.in {
				if o.fn != c.fn || reachesInstr(o.in, c.in) || reachesInstr(c.in, o.in) {
					if !(g.onceOnly(o.fn) && g.onceOnly(c.fn)) {
						g.add("closed-twice", fnName(c.fn), c.in.Pos(), "the channel can be closed twice, which crashes the program")
					}
				}
			}
			seen[r] = c
			if len(g.loopsAt(c.in.Block())) > 0 {
				if mk := makes[r]; mk == nil || mk.Parent() != c.fn || len(g.loopsAt(mk.Block())) == 0 {
					g.add("closed-twice", fnName(c.fn), c.in.Pos(), "the channel is closed in a loop")
				}
			}
			if strings.HasPrefix(r, "field:") {
				g.fieldClose(r, c, sends, has)
				continue
			}
			if makes[r] == nil {
				if strings.HasPrefix(r, "param:") {
					continue
				}
				continue
			}
			// several goroutines may run the closing body
			for _, s := range g.gos {
				if _, hi := g.count(s.body, g.evClose(r), 0); hi > 0 && len(g.loopsAt(s.in.Block())) > 0 && s.fn == makes[r].Parent() && len(g.loopsAt(makes[r].Block())) == 0 {
					g.add("closed-twice", fnName(s.body), c.in.Pos(), "each of several goroutines closes the channel they share")
				}
			}
			g.sendsBeforeClose(r, c, sends, has)
		}
	}
}

// lastStored: the value a result variable was given right before the return.
func lastStored(v ssa.Value, ret *ssa.Return) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	for b := ret.Block(); b != nil; {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == u.X {
				return st.Val
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
	}
	return v
}

// startsIn: the goroutines a function starts, itself or through helpers.
func (g *goRun) startsIn(f *ssa.Function, depth int) []ssa.Instruction {
	var out []ssa.Instruction
	for _, s := range g.gos {
		if s.fn == f {
			out = append(out, s.in)
		}
	}
	return out
}

// runsOf: the go statements whose goroutine runs a function, itself or below.
func (g *goRun) runsOf(fn *ssa.Function) []*goSite {
	var out []*goSite
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, depth int)
	up = func(f *ssa.Function, depth int) {
		if seen[f] || depth > 5 {
			return
		}
		seen[f] = true
		for _, s := range g.gos {
			if s.body == f {
				out = append(out, s)
			}
		}
		for _, c := range g.callers[f] {
			if _, isGo := c.(*ssa.Go); !isGo {
				up(c.Parent(), depth+1)
			}
		}
		if f.Parent() != nil && len(g.callers[f]) == 0 {
			isGo := false
			for _, s := range g.gos {
				isGo = isGo || s.body == f
			}
			if !isGo {
				up(f.Parent(), depth+1)
			}
		}
	}
	up(fn, 0)
	return out
}

// sendFits: every value sent finds room in the buffer, or the starter takes them all.
func (g *goRun) sendFits(mk *ssa.MakeChan, r string, u *chanUse) (bool, string) {
	size := -1
	if c, ok := mk.Size.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		size = int(c.Int64())
	}
	key := exprKey(mk.Size, 0)
	total := 0
	fits := true
	sites := 0
	for _, s := range g.gos {
		_, hi := g.count(s.body, g.evSend(r), 0)
		if hi == 0 {
			continue
		}
		sites++
		ls := g.loopsAt(s.in.Block())
		var run []*natLoop
		for _, l := range ls {
			if !(l.blocks[mk.Block()] && s.fn == mk.Parent()) {
				run = append(run, l)
			}
		}
		switch len(run) {
		case 0:
			total += hi
			if hi >= countCap {
				fits = false
			}
		case 1:
			if bk, _ := g.bound(run[0]); bk != key || hi > 1 || size == 0 {
				fits = false
			}
			if size < 0 {
				break
			}
			total += hi
		default:
			fits = false
		}
	}
	_, own := g.count(mk.Parent(), g.evSend(r), 0)
	total += own
	if size >= 0 && total > size {
		fits = false
	}
	if own > 0 && size < 0 {
		fits = false
	}
	if sites+own == 0 {
		return true, ""
	}
	if fits {
		return true, ""
	}
	if own == 0 && g.drained(mk, r) {
		return true, ""
	}
	return false, "the send waits without end once the receiver is gone: the buffer does not hold all values and there is no context or default"
}

// drained: after starting the senders, every path of the function that made the channel takes all values.
func (g *goRun) drained(mk *ssa.MakeChan, r string) bool {
	fn := mk.Parent()
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if v = lastStored(v, ret); isChan(v.Type()) && g.roots(v)[r] {
					return false
				}
			}
		}
	}
	senders := map[ssa.Instruction]bool{}
	bounds := map[string]bool{}
	for _, s := range g.gos {
		if _, hi := g.count(s.body, g.evSend(r), 0); hi > 0 {
			senders[s.in] = true
			if s.fn != fn {
				return false
			}
			for _, l := range g.loopsAt(s.in.Block()) {
				k, _ := g.bound(l)
				bounds[k] = true
			}
		}
	}
	// loops that take values until the end
	exits := map[*ssa.BasicBlock]bool{}
	for _, l := range g.loopsOf(fn) {
		takes := false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if un, ok := in.(*ssa.UnOp); ok && un.Op == token.ARROW && g.roots(un.X)[r] {
					takes = true
				}
			}
		}
		if !takes {
			continue
		}
		k, early := g.bound(l)
		if early {
			continue
		}
		closing := false
		if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
			if ex, ok := iff.Cond.(*ssa.Extract); ok {
				if un, ok := ex.Tuple.(*ssa.UnOp); ok && un.Op == token.ARROW {
					closing = true
				}
			}
		}
		if closing || bounds[k] {
			for _, s := range l.head.Succs {
				if !l.blocks[s] {
					exits[s] = true
				}
			}
		}
	}
	if len(exits) == 0 {
		return false
	}
	ok := true
	walkStates(fn, "0", func(s string, in ssa.Instruction) string {
		if exits[in.Block()] && in == in.Block().Instrs[0] {
			s = "0"
		}
		if senders[in] {
			s = "1"
		}
		if _, isRet := in.(*ssa.Return); isRet && s == "1" {
			ok = false
		}
		return s
	})
	return ok
}

// closedFor: a channel somebody waits for is closed by a goroutine on all its paths, or before the wait.
func (g *goRun) closedFor(mk *ssa.MakeChan, r string, u *chanUse) bool {
	for _, s := range g.gos {
		if lo, _ := g.count(s.body, g.evClose(r), 0); lo >= 1 {
			return true
		}
	}
	ev := g.evClose(r)
	closedBefore := true
	found := false
	walkStates(u.fn, "0", func(s string, in ssa.Instruction) string {
		if in == u.in {
			found = true
			if s == "0" {
				closedBefore = false
			}
		}
		if _, isDefer := in.(*ssa.Defer); !isDefer && ev(in) {
			return "1"
		}
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && g.p.inModule(f) {
				if lo, _ := g.count(f, ev, 0); lo >= 1 {
					return "1"
				}
			}
		}
		return s
	})
	return found && closedBefore
}

// recvMatches: as many values are sent as are waited for.
func (g *goRun) recvMatches(mk *ssa.MakeChan, r string, u *chanUse) (bool, string) {
	if u.fn != mk.Parent() {
		if len(g.runsOf(u.fn)) > 0 {
			return false, "the goroutine waits for a channel that nobody closes: it never ends"
		}
		return true, ""
	}
	lb := map[string]int{}
	single := 0
	for _, s := range g.gos {
		lo, hi := g.count(s.body, g.evSend(r), 0)
		if hi == 0 {
			continue
		}
		if lo < 1 {
			return false, fmt.Sprintf("the goroutine started in %s does not send on every path, but a value is waited for", fnName(s.fn))
		}
		ls := g.loopsAt(s.in.Block())
		if len(ls) == 0 {
			single += lo
		} else if k, early := g.bound(ls[0]); !early {
			lb[k]++
		}
	}
	ls := g.loopsAt(u.in.Block())
	if len(ls) == 0 {
		if single > 0 || len(lb) > 0 {
			return true, ""
		}
		return false, "a value is waited for that nobody sends"
	}
	k, _ := g.bound(ls[0])
	if lb[k] > 0 {
		return true, ""
	}
	if single > 0 && len(lb) == 0 && k != "" && strings.HasPrefix(k, fmt.Sprint(single)+":") {
		return true, ""
	}
	return false, "as many values are waited for as nobody promises to send: the channel is not closed and the numbers differ"
}

// onceOnly: the function runs at most once: handed to Once.Do, or behind a flag.
func (g *goRun) onceOnly(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && syncMethod(&c.Call, "Once", "Do") {
					if mc, ok := c.Call.Args[1].(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	cs := g.callers[fn]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !g.onceOnly(c.Parent()) {
			return false
		}
	}
	return true
}

// lockState walks a function with the locks held on one object, and the flags of the object seen false.
func (g *goRun) guards(fn *ssa.Function, at ssa.Instruction) (held map[string]bool, falseFlags, set map[string]bool) {
	type st struct{ held, flags, set map[string]bool }
	enc := func(s st) string {
		return strings.Join(sortedKeys(s.held), ",") + ";" + strings.Join(sortedKeys(s.flags), ",") + ";" + strings.Join(sortedKeys(s.set), ",")
	}
	dec := func(s string) st {
		f := strings.Split(s, ";")
		mk := func(x string) map[string]bool {
			m := map[string]bool{}
			for _, e := range strings.Split(x, ",") {
				if e != "" {
					m[e] = true
				}
			}
			return m
		}
		return st{mk(f[0]), mk(f[1]), mk(f[2])}
	}
	first := true
	meet := func(a, b map[string]bool) map[string]bool {
		if first {
			return b
		}
		o := map[string]bool{}
		for k := range a {
			if b[k] {
				o[k] = true
			}
		}
		return o
	}
	flagLoad := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return goFieldKey(fa)
			}
		}
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Name() == "Load" && len(c.Call.Args) == 1 {
				if fa, ok := c.Call.Args[0].(*ssa.FieldAddr); ok {
					return goFieldKey(fa)
				}
			}
		}
		return ""
	}
	walkStates(fn, enc(st{}), func(s string, in ssa.Instruction) string {
		x := dec(s)
		// a block entered only by the false edge of a flag
		if b := in.Block(); in == b.Instrs[0] && len(b.Preds) == 1 {
			if iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok {
				cond, want := iff.Cond, b.Preds[0].Succs[1]
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, want = u.X, b.Preds[0].Succs[0]
				}
				if f := flagLoad(cond); f != "" && b == want {
					x.flags[f] = true
				}
			}
		}
		if in == at {
			held, falseFlags, set = meet(held, x.held), meet(falseFlags, x.flags), meet(set, x.set)
			first = false
		}
		if c, ok := in.(*ssa.Call); ok && len(c.Call.Args) > 0 {
			if f := c.Call.StaticCallee(); f != nil && g.p.inModule(f) {
				for _, k := range setsFlags(f) {
					x.set[k] = true
				}
			}
			for _, t := range []string{"Mutex", "RWMutex"} {
				k := ""
				if fa, ok := c.Call.Args[0].(*ssa.FieldAddr); ok {
					k = goFieldKey(fa)
				}
				switch {
				case syncMethod(&c.Call, t, "Lock"):
					x.held["W"+k] = true
				case syncMethod(&c.Call, t, "RLock"):
					x.held["R"+k] = true
				case syncMethod(&c.Call, t, "Unlock"):
					delete(x.held, "W"+k)
					x.flags = map[string]bool{}
				case syncMethod(&c.Call, t, "RUnlock"):
					delete(x.held, "R"+k)
					x.flags = map[string]bool{}
				}
			}
		}
		if sto, ok := in.(*ssa.Store); ok {
			if fa, ok := sto.Addr.(*ssa.FieldAddr); ok {
				if c, ok := sto.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
					x.set[goFieldKey(fa)] = true
				}
			}
		}
		return enc(x)
	})
	return
}

// guardsAbove: the locks held and flags seen false at an instruction, those its callers bring along included.
func (g *goRun) guardsAbove(fn *ssa.Function, at ssa.Instruction, depth int) (map[string]bool, map[string]bool) {
	held, flags, _ := g.guards(fn, at)
	if held == nil {
		held, flags = map[string]bool{}, map[string]bool{}
	}
	cs := g.callers[fn]
	if ob := fn.Object(); depth > 3 || len(cs) == 0 || ob != nil && ob.Exported() {
		return held, flags
	}
	var ch, cf map[string]bool
	for i, c := range cs {
		if _, isGo := c.(*ssa.Go); isGo {
			return held, flags
		}
		h, f := g.guardsAbove(c.Parent(), c, depth+1)
		if i == 0 {
			ch, cf = h, f
			continue
		}
		for k := range ch {
			if !h[k] {
				delete(ch, k)
			}
		}
		for k := range cf {
			if !f[k] {
				delete(cf, k)
			}
		}
	}
	for k := range ch {
		held[k] = true
	}
	for k := range cf {
		flags[k] = true
	}
	return held, flags
}

// fieldClose: a channel kept in an object is closed at most once and never sent to afterwards.
func (g *goRun) fieldClose(r string, c *chanUse, sends []*chanUse, has func(*chanUse, string) bool) {
	g.r.Counts["obligations"]++
	at := c.in
	fn := c.fn
	set := g.setAbove(fn, at, 0)
	held, flags := g.guardsAbove(fn, at, 0)
	once := g.onceAbove(fn, 0)
	if !once {
		for f := range flags {
			if set[f] {
				once = true // tested and set
			}
		}
	}
	if !once {
		for _, s := range g.gos {
			if s.body == fn {
				once = true // the goroutine that serves the object
			}
		}
	}
	if !once {
		g.add("closed-twice", fnName(fn), at.Pos(), "a second call closes the channel again, which crashes the program")
	}
	for _, u := range sends {
		if !has(u, r) {
			continue
		}
		if u.fn == fn {
			continue
		}
		h, fl := g.guardsAbove(u.fn, u.in, 0)
		ok := false
		for f := range fl {
			if !set[f] {
				continue
			}
			for l := range h {
				if held["W"+l[1:]] {
					ok = true
				}
			}
		}
		if !ok {
			g.add("send-after-close", fnName(u.fn), u.in.Pos(), "the channel may be closed by the time of the send, which crashes the program: the object's closed flag is not tested under the lock that closing takes")
		}
	}
}

// setAbove: the flags set when (or before the lock is given back after) an instruction runs, by its
// function or by those that call it.
func (g *goRun) setAbove(fn *ssa.Function, at ssa.Instruction, depth int) map[string]bool {
	_, _, set := g.guards(fn, at)
	if set == nil {
		set = map[string]bool{}
	}
	_, later := g.setLater(fn, at)
	for k := range later {
		set[k] = true
	}
	cs := g.callers[fn]
	if ob := fn.Object(); depth > 3 || len(cs) == 0 || ob != nil && ob.Exported() {
		return set
	}
	var above map[string]bool
	for i, c := range cs {
		if _, isGo := c.(*ssa.Go); isGo {
			return set
		}
		a := g.setAbove(c.Parent(), c, depth+1)
		if i == 0 {
			above = a
			continue
		}
		for k := range above {
			if !a[k] {
				delete(above, k)
			}
		}
	}
	for k := range above {
		set[k] = true
	}
	return set
}

// onceAbove: the function runs at most once, or everything that calls it does.
func (g *goRun) onceAbove(fn *ssa.Function, depth int) bool {
	if g.onceOnly(fn) {
		return true
	}
	cs := g.callers[fn]
	if ob := fn.Object(); depth > 3 || len(cs) != 1 || ob != nil && ob.Exported() {
		return false
	}
	if _, isGo := cs[0].(*ssa.Go); isGo || len(g.loopsAt(cs[0].Block())) > 0 {
		return false
	}
	return g.onceAbove(cs[0].Parent(), depth+1)
}

// setsFlags: the flags a helper sets whenever it is called.
func setsFlags(f *ssa.Function) []string {
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	var out []string
	for _, in := range f.Blocks[0].Instrs {
		if sto, ok := in.(*ssa.Store); ok {
			if fa, ok := sto.Addr.(*ssa.FieldAddr); ok {
				if c, ok := sto.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
					out = append(out, goFieldKey(fa))
				}
			}
		}
	}
	return out
}

func (g *goRun) setLater(fn *ssa.Function, at ssa.Instruction) (bool, map[string]bool) {
	out := map[string]bool{}
	after := false
	for _, in := range at.Block().Instrs {
		if in == at {
			after = true
		}
		if !after {
			continue
		}
		if c := commonOf(in); c != nil && (syncMethod(c, "Mutex", "Unlock") || syncMethod(c, "RWMutex", "Unlock")) {
			break
		}
		if sto, ok := in.(*ssa.Store); ok {
			if fa, ok := sto.Addr.(*ssa.FieldAddr); ok {
				if c, ok := sto.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
					out[goFieldKey(fa)] = true
				}
			}
		}
	}
	return after, out
}

// sendsBeforeClose: a channel made by a function is closed only when all sends are over.
func (g *goRun) sendsBeforeClose(r string, c *chanUse, sends []*chanUse, has func(*chanUse, string) bool) {
	_, deferred := c.in.(*ssa.Defer)
	closerRuns := g.runsOf(c.fn)
	for _, u := range sends {
		if !has(u, r) {
			continue
		}
		g.r.Counts["obligations"]++
		if u.fn == c.fn {
			if !deferred && reachesInstr(c.in, u.in) {
				g.add("send-after-close", fnName(u.fn), u.in.Pos(), "the channel is closed before the send")
			}
			continue
		}
		senderRuns := g.runsOf(u.fn)
		if len(senderRuns) == 0 {
			continue
		}
		same := false
		for _, a := range senderRuns {
			for _, b := range closerRuns {
				if a.in == b.in {
					same = true
				}
			}
		}
		if same {
			// the sending helper is called from the goroutine that closes
			ok := true
			if !deferred {
				for _, b := range c.fn.Blocks {
					for _, in := range b.Instrs {
						if cl, isC := in.(*ssa.Call); isC && reachesInstr(c.in, in) {
							if f := cl.Call.StaticCallee(); f != nil && g.p.inModule(f) {
								if _, hi := g.count(f, g.evSend(r), 0); hi > 0 {
									ok = false
								}
							}
						}
					}
				}
			}
			if !ok {
				g.add("send-after-close", fnName(u.fn), u.in.Pos(), "the channel is closed before the send")
			}
			continue
		}
		// closed by someone else: only after waiting for the senders
		waited := false
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok || !syncMethod(&cl.Call, "WaitGroup", "Wait") {
					continue
				}
				if !(in.Block() == c.in.Block() || in.Block().Dominates(c.in.Block())) {
					continue
				}
				if in.Block() == c.in.Block() && !before(in, c.in) && !deferred {
					continue
				}
				if deferred && !before(c.in, in) && in.Block() == c.in.Block() {
					// defer close registered after the wait: still after it
				}
				for w := range g.roots(cl.Call.Args[0]) {
					all := true
					for _, s := range senderRuns {
						if s.viaW == w {
							continue
						}
						if lo, _ := g.count(s.body, g.evWG(w, "Done"), 0); lo < 1 {
							all = false
						} else if !g.doneAfterSends(s.body, w, r) {
							all = false
						}
					}
					if all {
						waited = true
					}
				}
			}
		}
		if !waited && g.drainedBefore(c, r) {
			waited = true
		}
		if !waited {
			g.add("send-after-close", fnName(c.fn), c.in.Pos(), "the channel is closed while goroutines that send on it may still run, which crashes the program")
		}
	}
}

// drainedBefore: all values were taken before closing.
func (g *goRun) drainedBefore(c *chanUse, r string) bool {
	for _, l := range g.loopsOf(c.fn) {
		if l.blocks[c.in.Block()] || !l.head.Dominates(c.in.Block()) {
			continue
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if un, ok := in.(*ssa.UnOp); ok && un.Op == token.ARROW && g.roots(un.X)[r] {
					k, early := g.bound(l)
					if early {
						continue
					}
					for _, s := range g.gos {
						for _, gl := range g.loopsAt(s.in.Block()) {
							if gk, _ := g.bound(gl); gk == k && s.fn == c.fn {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// doneAfterSends: the goroutine marks itself done only after its last send.
func (g *goRun) doneAfterSends(body *ssa.Function, w, r string) bool {
	send, done := g.evSend(r), g.evWG(w, "Done")
	ok := true
	walkStates(body, "0", func(s string, in ssa.Instruction) string {
		if _, isDefer := in.(*ssa.Defer); isDefer {
			return s
		}
		if done(in) {
			return "1"
		}
		if s == "1" {
			if send(in) {
				ok = false
			}
			if c, isC := in.(*ssa.Call); isC {
				if f := c.Call.StaticCallee(); f != nil && g.p.inModule(f) {
					if _, hi := g.count(f, send, 0); hi > 0 {
						ok = false
					}
				}
			}
		}
		return s
	})
	return ok
}

// endless: loops of goroutines (and what they call) end when their context does or their channel is closed.
func (g *goRun) endless() {
	inGo := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function, depth int)
	mark = func(f *ssa.Function, depth int) {
		if f == nil || inGo[f] || f.Blocks == nil || !g.p.inModule(f) || depth > 6 {
			return
		}
		inGo[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c := commonOf(in); c != nil {
					mark(c.StaticCallee(), depth+1)
				}
			}
		}
	}
	for _, s := range g.gos {
		mark(s.body, 0)
	}
	for _, fn := range g.p.allFuncs {
		for _, l := range g.loopsOf(fn) {
			var sel []*ssa.Select
			var plain []*ssa.UnOp
			for b := range l.blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Select:
						sel = append(sel, x)
					case *ssa.UnOp:
						if x.Op == token.ARROW {
							plain = append(plain, x)
						}
					}
				}
			}
			exits := false // an exit other than through channels
			okExit := false
			doneExit := false
			for b := range l.blocks {
				last := b.Instrs[len(b.Instrs)-1]
				if _, ok := last.(*ssa.Return); ok {
					exits = true
				}
				for _, s := range b.Succs {
					if l.blocks[s] {
						continue
					}
					if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
						continue
					}
					kind := g.exitKind(b, sel)
					switch kind {
					case "ok":
						okExit = true
					case "done":
						doneExit = true
					default:
						exits = true
					}
				}
			}
			if inGo[fn] && !exits && !okExit && !doneExit {
				g.r.Counts["obligations"]++
				g.add("endless", fnName(fn), l.head.Instrs[0].Pos(), "the loop in a goroutine has no way out: the goroutine never ends")
				continue
			}
			if inGo[fn] && !exits {
				g.ended(fn, l)
			}
			if len(sel)+len(plain) == 0 || exits || okExit {
				continue
			}
			// left only when the context ends: a channel that gets closed must be noticed
			for _, x := range sel {
				g.r.Counts["obligations"]++
				for _, st := range x.States {
					if st.Dir != types.RecvOnly {
						continue
					}
					rt := g.roots(st.Chan)
					if rt["ctxdone"] || rt["time"] || len(rt) == 0 {
						continue
					}
					g.add("closed-unnoticed", fnName(fn), x.Pos(), "the loop does not notice that the channel it reads is closed and spins until its context ends")
				}
			}
		}
	}
}

// ended: a loop that only a channel kept in an object ends has somebody who closes it (or sends on it),
// and if the object has a Close, that is where it happens.
func (g *goRun) ended(fn *ssa.Function, l *natLoop) {
	ways := map[string]bool{}
	for b := range l.blocks {
		for _, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
				continue
			}
			for k := range g.exitChan(b) {
				ways[k] = true
			}
		}
	}
	for k := range ways {
		if !strings.HasPrefix(k, "field:") {
			return // a context, a channel made here or handed in: judged elsewhere
		}
	}
	if len(ways) == 0 {
		return
	}
	g.r.Counts["obligations"]++
	does := func(in ssa.Instruction) bool {
		for k := range ways {
			if g.evClose(k)(in) || g.evSend(k)(in) {
				return true
			}
		}
		return false
	}
	closes := func(in ssa.Instruction) bool {
		for k := range ways {
			if g.evClose(k)(in) {
				return true
			}
		}
		return false
	}
	some := false
	var all func(f *ssa.Function, depth int, ev func(ssa.Instruction) bool) bool
	all = func(f *ssa.Function, depth int, ev func(ssa.Instruction) bool) bool {
		if f == nil || depth > 5 || !g.p.inModule(f) {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ev(in) {
					return true
				}
				for _, op := range in.Operands(nil) {
					if op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.MakeClosure:
						if all(x.Fn.(*ssa.Function), depth+1, ev) {
							return true
						}
					case *ssa.Function:
						if all(x, depth+1, ev) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, f := range g.p.allFuncs {
		if all(f, 5, closes) {
			some = true
		}
	}
	names := strings.Join(sortedKeys(ways), ", ")
	if !some {
		// a stop value sent instead of a close; a data channel does not end the loop that way
		for _, f := range g.p.allFuncs {
			if all(f, 5, does) && g.doneOnly(l) {
				some = true
			}
		}
	}
	if !some {
		g.add("never-ended", fnName(fn), l.head.Instrs[0].Pos(), "nothing closes "+names+", which alone ends this loop of a goroutine")
		return
	}
	for _, f := range g.p.allFuncs {
		if f.Name() != "Close" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		n := recvNamed(f.Signature.Recv().Type())
		if n == nil {
			continue
		}
		own := false
		for k := range ways {
			if strings.HasPrefix(k, "field:"+namedName(n)+".") {
				own = true
			}
		}
		if own && !all(f, 0, does) {
			g.add("close-leaves-running", fnName(f), f.Pos(), "Close does not end the loop of "+fnName(fn)+", which waits for "+names)
		}
	}
}

// doneOnly: every way out of the loop is the arrival of a value, not the closing of a channel.
func (g *goRun) doneOnly(l *natLoop) bool {
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] && g.exitKind(b, nil) == "ok" {
				return false
			}
		}
	}
	return true
}

// exitChan: the channels whose closing (or value) takes the exit at the end of a block.
func (g *goRun) exitChan(b *ssa.BasicBlock) map[string]bool {
	for n := 0; n < 6 && b != nil; n++ {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			return g.condChan(iff.Cond)
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
	}
	return map[string]bool{"?": true}
}

func (g *goRun) condChan(v ssa.Value) map[string]bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return g.condChan(x.X)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.UnOp:
			if t.Op == token.ARROW {
				return g.roots(t.X)
			}
		case *ssa.Select:
			out := map[string]bool{}
			for _, st := range t.States {
				if st.Dir == types.RecvOnly {
					for k := range g.roots(st.Chan) {
						if k != "time" {
							out[k] = true
						}
					}
				}
			}
			return out
		}
	case *ssa.BinOp:
		if ex, ok := x.X.(*ssa.Extract); ok && x.Op == token.EQL {
			if s, ok := ex.Tuple.(*ssa.Select); ok && ex.Index == 0 {
				if c, ok := x.Y.(*ssa.Const); ok {
					if i := int(c.Int64()); i >= 0 && i < len(s.States) {
						return g.roots(s.States[i].Chan)
					}
				}
			}
		}
	}
	return map[string]bool{"?": true}
}

// exitKind: how a loop is left at the end of a block: a closed channel (ok), a context or done case (done), or otherwise.
func (g *goRun) exitKind(b *ssa.BasicBlock, sel []*ssa.Select) string {
	// inside the loop the exit edge is decided here or in the block's only predecessors
	for n := 0; n < 6 && b != nil; n++ {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k := g.condKind(iff.Cond); k != "" {
				return k
			}
			return ""
		}
		if len(b.Preds) != 1 {
			return ""
		}
		b = b.Preds[0]
	}
	return ""
}

func (g *goRun) condKind(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return g.condKind(x.X)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.UnOp:
			if t.Op == token.ARROW {
				return "ok"
			}
		case *ssa.Select:
			if x.Index == 1 {
				return "ok"
			}
		}
	case *ssa.BinOp:
		if ex, ok := x.X.(*ssa.Extract); ok && x.Op == token.EQL {
			if s, ok := ex.Tuple.(*ssa.Select); ok && ex.Index == 0 {
				if c, ok := x.Y.(*ssa.Const); ok {
					i := int(c.Int64())
					if i >= 0 && i < len(s.States) {
						rt := g.roots(s.States[i].Chan)
						if rt["ctxdone"] {
							return "done"
						}
						if rt["time"] {
							return ""
						}
						return "done"
					}
				}
			}
		}
	}
	return ""
}
