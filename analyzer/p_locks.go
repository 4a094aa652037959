package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockPlugin: must-held locksets on every path, used by C01 (races) and C02 (deadlocks).
type lockPlugin struct {
	p        *Prog
	acc      map[string]*accessRec // dedup
	accList  []*accessRec
	findings map[string]*Finding
	edges    map[string]*lockEdge
	acquires int
	sites    map[ssa.Instruction]bool
	goShared map[string]bool // local cells shared with the current goroutine root
	goID     string          // current goroutine root id ("" = API root)
	goMulti  bool
	owners   map[string]types.Type
	extra    map[string]bool // types shared by contract although they own no mutex
	rootEnd  map[*ssa.Function]bool
}

type accessRec struct {
	cell  string // memory object within the owner: path up to the last indirection
	inner string // value path within the cell
	typ   string // owner type
	via   string // enclosing object that exclusively owns the owner ("core.SQLiteStore.ivfIndex"), if any
	field string // relative path
	write bool
	held  string // held locks of the owner object: "mu=R;x=W"
	fn    *ssa.Function
	pos   string
	chain string
	goID  string
	multi bool
}

type lockEdge struct{ from, to, pos, chain string }

func newLockPlugin(p *Prog) *lockPlugin {
	return &lockPlugin{p: p, acc: map[string]*accessRec{}, findings: map[string]*Finding{}, edges: map[string]*lockEdge{}, sites: map[ssa.Instruction]bool{}, owners: map[string]types.Type{}, extra: map[string]bool{}, rootEnd: map[*ssa.Function]bool{}}
}

func (l *lockPlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				if l.ownerField(v.X.Type()) {
					return true
				}
				return true
			case *ssa.MapUpdate, *ssa.Store, *ssa.Lookup, *ssa.IndexAddr, *ssa.Go:
				return true
			case ssa.CallInstruction:
				if isLockCall(v.Common()) != "" {
					return true
				}
			}
		}
	}
	return false
}

func (l *lockPlugin) ownerField(t types.Type) bool { return len(mutexFields(derefT(t))) > 0 }

func mutexFields(t types.Type) []string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		ft := derefT(s.Field(i).Type()).String()
		if ft == "sync.Mutex" || ft == "sync.RWMutex" {
			r = append(r, s.Field(i).Name())
		}
	}
	return r
}

func isLockCall(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil {
		return ""
	}
	switch n := fnFull(f); n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W"
	case "(*sync.RWMutex).RLock":
		return "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "uW"
	case "(*sync.RWMutex).RUnlock":
		return "uR"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return "tW"
	case "(*sync.RWMutex).TryRLock":
		return "tR"
	}
	return ""
}

// mutexName turns the path of a mutex into Type.field for reports.
func (l *lockPlugin) mutexName(path string) string {
	i := strings.LastIndexByte(path, '.')
	if i < 0 {
		return path
	}
	if t := l.p.pathType[path[:i]]; t != nil {
		return shortType(derefT(t)) + path[i:]
	}
	if isFresh(path) && i < strings.LastIndexByte(path, '#') {
		return path
	}
	return path
}

func (l *lockPlugin) find(prop, rule, construct, pos, msg, chain string) {
	k := rule + "|" + construct
	if _, ok := l.findings[prop+k]; !ok {
		l.findings[prop+k] = &Finding{Prop: prop, Rule: rule, Construct: construct, Pos: pos, Msg: msg, Chain: chain}
	}
}

func (l *lockPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	m := isLockCall(c.Common)
	if c.Name == "(*sync.Once).Do" && len(c.Args) == 2 && c.Args[0].Path != "" {
		k := "O:" + c.Args[0].Path
		outs := []Outcome{}
		if f := c.Args[1]; f.Fn != nil && len(f.Fn.Blocks) > 0 && st.prop[k] == "" {
			n := st.clone()
			n.prop[k] = "W"
			for _, x := range e.call(fr, n, f.Fn, nil, f.Binds, c.Instr) {
				m := st.clone()
				m.prop, m.heap = copyProp(x.prop), copyHeap(x.heap)
				m.prop[k] = "R"
				outs = append(outs, Outcome{st: m, res: absUnk})
			}
		}
		s2 := st.clone()
		s2.prop[k] = "R"
		return true, append(outs, Outcome{st: s2, res: absUnk})
	}
	if m == "" {
		// non-thread-safe library objects held in fields: calling mutating methods is a write
		if c.Callee != nil && len(c.Args) > 0 && c.Args[0] != nil && c.Args[0].Path != "" {
			n := c.Name
			if strings.HasPrefix(n, "(*math/rand.Rand).") {
				e.access(fr, st, c.Instr, c.Args[0].Path+".$state", true)
			}
		}
		l.outside(e, fr, st, c)
		return false, nil
	}
	l.sites[c.Instr] = true
	path := c.Args[0].Path
	fnn := fnName(fr.fn)
	if path == "" {
		l.find("C02", "unresolved-mutex", fnn, l.p.pos(c.Pos()), "cannot identify the mutex operated on", fr.chain())
		return true, []Outcome{{st: st, res: absUnk}}
	}
	k := "L:" + path
	cur := st.prop[k]
	switch m {
	case "W", "R":
		l.acquires++
		if cur != "" {
			how := "already held " + modeName(cur)
			l.find("C02", "reacquire", l.mutexName(path)+" in "+fnn+" while held by "+st.prop["A:"+path], l.p.pos(c.Pos()),
				fmt.Sprintf("%s is acquired (%s) while the same goroutine holds it (%s); with a waiting writer or exclusive mode this blocks forever", l.mutexName(path), modeName(m), how), fr.chain())
			// continue as if it were counted
			st.prop[k] = cur + m
			return true, []Outcome{{st: st, res: absUnk}}
		}
		for h := range st.prop {
			if strings.HasPrefix(h, "L:") && h != k {
				from, to := l.mutexName(h[2:]), l.mutexName(path)
				ek := from + " -> " + to
				if l.edges[ek] == nil {
					l.edges[ek] = &lockEdge{from: from, to: to, pos: l.p.pos(c.Pos()), chain: fr.chain()}
				}
			}
		}
		st.prop[k] = m
		st.prop["A:"+path] = fnn
		// facts about the object learnt before acquiring may be stale
		l.staleFacts(st, path)
		return true, []Outcome{{st: st, res: absUnk}}
	case "uW", "uR":
		want := m[1:]
		if cur == "" {
			l.find("C02", "unlock-unheld", l.mutexName(path)+" in "+fnn, l.p.pos(c.Pos()),
				fmt.Sprintf("%s is released on a path where it is not held (or released twice): run-time fatal error", l.mutexName(path)), fr.chain())
			return true, []Outcome{{st: st, res: absUnk}}
		}
		last := cur[len(cur)-1:]
		if last != want {
			l.find("C02", "unlock-mode", l.mutexName(path)+" in "+fnn, l.p.pos(c.Pos()),
				fmt.Sprintf("%s is held %s but released with the %s unlock", l.mutexName(path), modeName(last), modeName(want)), fr.chain())
		}
		if len(cur) == 1 {
			delete(st.prop, k)
			delete(st.prop, "A:"+path)
		} else {
			st.prop[k] = cur[:len(cur)-1]
		}
		l.staleFacts(st, path)
		return true, []Outcome{{st: st, res: absUnk}}
	case "tW", "tR":
		s2 := st.clone()
		s2.prop[k] = m[1:]
		return true, []Outcome{{st: st, res: &Abs{B: No}}, {st: s2, res: &Abs{B: Yes}}}
	}
	return false, nil
}

// outside records what a call that leaves the module does to fields of
// lock-owning objects handed to it: through the address of a field it writes
// it (gob's Decode, rows.Scan), of a slice or map it reads the elements (json's
// Marshal, strings.Join), and sort and slices.Sort write them.
func (l *lockPlugin) outside(e *Eng, fr *Frame, st *State, c *CallSite) {
	if c.Callee != nil && (l.p.inModule(c.Callee) || c.Callee.Parent() != nil) {
		return
	}
	if c.Callee == nil {
		if !c.Common.IsInvoke() {
			return
		}
		if pk := c.Common.Method.Pkg(); pk == nil || strings.HasPrefix(pk.Path(), modPath) {
			return
		}
	}
	in := c.Instr
	for i, v := range c.ArgVals {
		if i >= len(c.Args) {
			break
		}
		vals := []ssa.Value{v}
		if sl, ok := v.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, s := range *ia.Referrers() {
						if s, ok := s.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							vals = append(vals, s.Val)
						}
					}
				}
			}
		}
		for _, v := range vals {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			a := e.eval(st, v)
			if a.Path == "" {
				continue
			}
			switch t := v.Type().Underlying().(type) {
			case *types.Pointer:
				fa, ok := v.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				ft := derefT(fa.Type())
				if n, ok := ft.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
					continue
				}
				if _, ok := ft.Underlying().(*types.Struct); ok {
					continue // a method of an embedded value with its own rules
				}
				_ = t
				if strings.HasPrefix(c.Name, "sync/atomic.") {
					// excluded only from other atomic operations
					n := st.clone()
					if x := e.eval(st, fa.X); x.Path != "" {
						n.prop["L:"+x.Path+".atomic"] = "W"
					}
					e.access(fr, n, in, a.Path, true)
					continue
				}
				e.access(fr, st, in, a.Path, true)
			case *types.Slice, *types.Map:
				w := strings.HasPrefix(c.Name, "sort.") || strings.HasPrefix(c.Name, "slices.Sort") || c.Name == "slices.Reverse"
				e.access(fr, st, in, extPath(a.Path, "[]"), w)
			}
		}
	}
}

func (l *lockPlugin) staleFacts(st *State, mpath string) {
	i := strings.LastIndexByte(mpath, '.')
	if i <= 0 {
		return
	}
	obj := mpath[:i]
	if isFresh(obj) {
		return
	}
	st.killChildren(obj)
}

func modeName(m string) string {
	if strings.HasSuffix(m, "W") {
		return "exclusively"
	}
	return "shared"
}

// Access records an access to a field of a lock-owning object.
func (l *lockPlugin) Access(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, write bool) {
	if isFresh(loc) {
		if l.goID != "" {
			l.localAccess(fr, st, in, loc, write)
		}
		return
	}
	if strings.HasPrefix(loc, "g:") {
		return
	}
	// nearest enclosing lock-owning object
	for i := len(loc) - 1; i > 0; i-- {
		if loc[i] != '.' {
			continue
		}
		q := loc[:i]
		t := l.p.pathType[q]
		if t == nil {
			continue
		}
		dt := derefT(t)
		named, ok := dt.(*types.Named)
		if !ok {
			continue
		}
		mf := mutexFields(dt)
		if len(mf) == 0 && !l.extra[shortType(named)] {
			continue
		}
		rel := loc[i+1:]
		for _, m := range mf {
			if rel == m {
				return
			}
		}
		l.record(shortType(named), rel, q, fr, st, in, write)
		return
	}
}

func (l *lockPlugin) record(typ, rel, obj string, fr *Frame, st *State, in ssa.Instruction, write bool) {
	var held []string
	for h, m := range st.prop {
		if strings.HasPrefix(h, "L:"+obj+".") {
			mode := "R"
			if strings.Contains(m, "W") {
				mode = "W"
			}
			held = append(held, h[len("L:"+obj+"."):]+"="+mode)
		}
	}
	for h, m := range st.prop {
		if strings.HasPrefix(h, "O:"+obj+".") {
			held = append(held, "once "+h[len("O:"+obj+"."):]+"="+m)
		}
	}
	via, outer := l.enclosing(obj)
	if via != "" {
		for h, m := range st.prop {
			if strings.HasPrefix(h, "L:"+outer+".") && !strings.HasPrefix(h, "L:"+obj+".") {
				mode := "R"
				if strings.Contains(m, "W") {
					mode = "W"
				}
				held = append(held, "owner "+h[len("L:"+outer+"."):]+"="+mode)
			}
		}
	}
	sort.Strings(held)
	hs := strings.Join(held, ";")
	rel = strings.ReplaceAll(rel, "[k]", "[]")
	k := fmt.Sprintf("%s|%s|%s|%v|%s|%p|%s", typ, via, rel, write, hs, fr.fn, l.goID)
	if l.acc[k] == nil {
		cell, inner := l.cellOf(obj, rel)
		a := &accessRec{cell: cell, inner: inner, typ: typ, via: via, field: rel, write: write, held: hs, fn: fr.fn, pos: l.p.pos(in.Pos()), chain: fr.chain(), goID: l.goID, multi: l.goMulti}
		if a.pos == "-" {
			a.pos = l.p.pos(fr.fn.Pos())
		}
		l.acc[k] = a
		l.accList = append(l.accList, a)
	}
}

func (l *lockPlugin) localAccess(fr *Frame, st *State, in ssa.Instruction, loc string, write bool) {
	root := loc
	if i := strings.IndexByte(loc[strings.LastIndexByte(loc, '#'):], '.'); i >= 0 {
		root = loc[:strings.LastIndexByte(loc, '#')+i]
	}
	if i := strings.IndexByte(root, '['); i >= 0 && i > strings.LastIndexByte(root, '#') {
		root = root[:i]
	}
	if !l.goShared[root] || strings.HasPrefix(root, "new:"+fnName(fr.fn)+"#") || strings.HasSuffix(loc, "]") {
		return
	}
	if t := l.p.pathType[root]; t != nil {
		ts := derefT(t).String()
		if strings.HasPrefix(ts, "sync.") || strings.HasPrefix(ts, "chan") || strings.HasPrefix(ts, "<-chan") {
			return
		}
	}
	var held []string
	for h, m := range st.prop {
		if strings.HasPrefix(h, "L:new:") {
			mode := "R"
			if strings.Contains(m, "W") {
				mode = "W"
			}
			held = append(held, h[2:]+"="+mode)
		}
	}
	sort.Strings(held)
	hs := strings.Join(held, ";")
	k := fmt.Sprintf("local|%s|%v|%s|%p|%s", root, write, hs, fr.fn, l.goID)
	if l.acc[k] == nil {
		a := &accessRec{typ: "local", field: root, write: write, held: hs, fn: fr.fn, pos: l.p.pos(in.Pos()), chain: fr.chain(), goID: l.goID, multi: l.goMulti}
		l.acc[k] = a
		l.accList = append(l.accList, a)
	}
}

// cellOf splits a path at its last indirection (pointer, slice, map, interface).
func (l *lockPlugin) cellOf(obj, rel string) (string, string) {
	full := obj + "." + rel
	for i := len(full) - 1; i > len(obj); i-- {
		if full[i] != '.' && full[i] != '[' {
			continue
		}
		if t := l.p.pathType[full[:i]]; t != nil {
			switch t.Underlying().(type) {
			case *types.Struct, *types.Array:
				continue
			}
			return full[len(obj):i], full[i:]
		}
	}
	return "", "." + rel
}

// enclosing finds the lock-owning object that exclusively owns obj: obj is reached through an
// unexported field that only ever receives objects created for it, so it cannot be the same
// object as one reached from elsewhere.
func (l *lockPlugin) enclosing(obj string) (string, string) {
	i := strings.LastIndexByte(obj, '.')
	if i <= 0 {
		return "", ""
	}
	q, f := obj[:i], obj[i+1:]
	t := l.p.pathType[q]
	if t == nil || strings.ContainsAny(f, "[]") {
		return "", ""
	}
	named, ok := derefT(t).(*types.Named)
	if !ok || len(mutexFields(derefT(t))) == 0 || !l.p.exclusiveField(named, f) {
		return "", ""
	}
	return shortType(named) + "." + f, q
}

func overlap(a, b *accessRec) bool {
	if a.typ == "local" {
		return hasPathPrefix(a.field, b.field) || hasPathPrefix(b.field, a.field)
	}
	return a.via == b.via && a.cell == b.cell && (hasPathPrefix(a.inner, b.inner) || hasPathPrefix(b.inner, a.inner))
}

func parseHeld(h string) map[string]string {
	m := map[string]string{}
	if h == "" {
		return m
	}
	for _, x := range strings.Split(h, ";") {
		i := strings.LastIndexByte(x, '=')
		m[x[:i]] = x[i+1:]
	}
	return m
}

func excluded(a, b *accessRec) bool {
	ha, hb := parseHeld(a.held), parseHeld(b.held)
	for m, x := range ha {
		if y, ok := hb[m]; ok && (x == "W" || y == "W") {
			return true
		}
	}
	return false
}

// races pairs conflicting accesses without a common lock; blames the accesses that do not
// hold the object's majority guard adequately.
func (l *lockPlugin) races() (pairs int, fields int) {
	byType := map[string][]*accessRec{}
	for _, a := range l.accList {
		byType[a.typ] = append(byType[a.typ], a)
	}
	if d := os.Getenv("LOCK_DUMP"); d != "" {
		for _, a := range l.accList {
			if a.typ == d {
				fmt.Fprintln(os.Stderr, a.typ, a.field, a.write, a.held, fnName(a.fn), a.pos, a.via, a.cell, a.inner)
			}
		}
	}
	fieldSet := map[string]bool{}
	for _, typ := range sortedKeys(byType) {
		list := byType[typ]
		for i, a := range list {
			for j := i; j < len(list); j++ {
				b := list[j]
				if !a.write && !b.write || !overlap(a, b) {
					continue
				}
				if typ == "local" {
					if a.goID == b.goID && !a.multi {
						continue
					}
				}
				pairs++
				fieldSet[typ+"."+a.field] = true
				if excluded(a, b) {
					continue
				}
				// blame
				bl := a
				other := b
				if weaker(b, a) {
					bl, other = b, a
				}
				f := bl.field
				verb := "reads"
				if bl.write {
					verb = "writes"
				}
				overb := "read"
				if other.write {
					overb = "write"
				}
				l.find("C01", "race", fmt.Sprintf("%s.%s %s in %s", typ, f, verb, fnName(bl.fn)), bl.pos,
					fmt.Sprintf("%s %s %s.%s holding {%s}; conflicts with the %s in %s (%s) holding {%s}: no common lock excludes them", fnName(bl.fn), verb, typ, f, bl.held, overb, fnName(other.fn), other.pos, other.held), bl.chain)
			}
		}
	}
	return pairs, len(fieldSet)
}

// weaker: b holds less protection than a.
func weaker(b, a *accessRec) bool {
	s := func(x *accessRec) int {
		h := parseHeld(x.held)
		n := 0
		for _, m := range h {
			if m == "W" {
				n += 2
			} else {
				n++
			}
		}
		if x.write {
			n-- // a write under a shared lock is the weaker side
		}
		return n
	}
	return s(b) < s(a)
}

// Go marks local cells shared with the spawned goroutine.
func (l *lockPlugin) Go(e *Eng, fr *Frame, st *State, fn *Abs, args []*Abs, in ssa.Instruction) {}

func (l *lockPlugin) Return(e *Eng, fr *Frame, st *State, res []*Abs) {
	if fr.up != nil {
		return
	}
	l.rootEnd[fr.fn] = true
	for k, m := range st.prop {
		if strings.HasPrefix(k, "L:") {
			l.find("C02", "lock-leak", l.mutexName(k[2:])+" in "+fnName(fr.fn), l.p.pos(fr.fn.Pos()),
				fmt.Sprintf("%s returns on some path with %s still held %s", fnName(fr.fn), l.mutexName(k[2:]), modeName(m)), fr.chain())
		}
	}
}

func blockInLoop(b *ssa.BasicBlock) bool {
	for _, h := range b.Parent().Blocks {
		isHead := false
		for _, p := range h.Preds {
			if h.Dominates(p) {
				isHead = true
			}
		}
		if isHead && inLoop(h, b) {
			return true
		}
	}
	return false
}

// lockCycles looks for cycles in the acquisition-order graph.
func (l *lockPlugin) lockCycles() {
	adj := map[string][]*lockEdge{}
	for _, k := range sortedKeys(l.edges) {
		ed := l.edges[k]
		adj[ed.from] = append(adj[ed.from], ed)
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		st := []string{from}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == to {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, ed := range adj[x] {
				st = append(st, ed.to)
			}
		}
		return false
	}
	for _, k := range sortedKeys(l.edges) {
		ed := l.edges[k]
		if reach(ed.to, ed.from) {
			l.find("C02", "lock-order", k, ed.pos, fmt.Sprintf("acquiring %s while holding %s closes a cycle in the lock order", ed.to, ed.from), ed.chain)
		}
	}
}

// runLocks drives the analysis over all exported roots and goroutine bodies.
func runLocks(p *Prog) (*lockPlugin, *Eng, int) {
	l := newLockPlugin(p)
	for _, t := range concurrentTypes {
		l.extra[t] = true
	}
	e := NewEng(p, l)
	roots := p.exportedRoots()
	n := 0
	for _, r := range roots {
		e.RunRoot(r, nil, nil)
		n++
	}
	for len(e.goRoots) > 0 {
		g := e.goRoots[0]
		e.goRoots = e.goRoots[1:]
		l.goID = fmt.Sprintf("%p", g.fn)
		l.goMulti = goInLoop(p, g.fn)
		l.goShared = map[string]bool{}
		for _, a := range append(append([]*Abs{}, g.args...), g.bnd...) {
			if a != nil && isFresh(a.Path) {
				l.goShared[a.Path] = true
			}
		}
		e.memo = map[string]*memoEnt{}
		fr := &Frame{fn: g.fn, root: g.fn, spawn: g.fr}
		e.simulate(fr, g.args, g.bnd, map[string]string{}, g.heap)
		n++
	}
	l.goID = ""
	return l, e, n
}

func goInLoop(p *Prog, fn *ssa.Function) bool {
	for _, f := range p.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if g.Call.StaticCallee() == fn && blockInLoop(b) {
						return true
					}
				}
			}
		}
	}
	return false
}

// Types that are used concurrently by contract although they own no mutex.
var concurrentTypes = []string{"graph.GraphStore", "semantic-router.CachedEmbedder"}
