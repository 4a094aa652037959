package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: every database operation of the store happens while the store's lock is held and after the
// closed flag was seen false under that same hold.
type closedPlugin struct {
	p        *Prog
	store    *types.Named
	flag     string // the field Close sets
	lock     string // the mutex held where Close sets it
	findings map[string]*Finding
	uses     map[ssa.Instruction]bool
}

const storeType = "core.SQLiteStore"

// closedAnchors finds the flag the store's Close sets to true and the mutex of the store.
func (l *closedPlugin) anchors() error {
	l.store = l.p.lookupType(storeType)
	if l.store == nil {
		return fmt.Errorf("type %s not found", storeType)
	}
	cl := l.p.fnByName("(*core.SQLiteStore).Close")
	if cl == nil {
		return fmt.Errorf("(*core.SQLiteStore).Close not found")
	}
	// Close or a helper of it
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function, d int)
	visit = func(fn *ssa.Function, d int) {
		if fn == nil || seen[fn] || d > 3 || !l.p.inModule(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || recvNamed(fa.X.Type()) != l.store {
						continue
					}
					if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
						l.flag = fieldName(derefT(fa.X.Type()), fa.Field)
					}
				case ssa.CallInstruction:
					visit(x.Common().StaticCallee(), d+1)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a, d+1)
		}
	}
	visit(cl, 0)
	if l.flag == "" {
		return fmt.Errorf("Close sets no boolean field of the store")
	}
	mf := mutexFields(l.store)
	if len(mf) == 0 {
		return fmt.Errorf("the store has no mutex field")
	}
	sort.Strings(mf)
	l.lock = mf[0]
	for _, f := range mf {
		if f == "mu" {
			l.lock = f
		}
	}
	return nil
}

func (l *closedPlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if isLockCall(x.Common()) != "" || dbUse(callName(x.Common())) {
					return true
				}
			case *ssa.FieldAddr:
				if recvNamed(x.X.Type()) == l.store && fieldName(derefT(x.X.Type()), x.Field) == l.flag {
					return true
				}
			}
		}
	}
	return passesError(fn)
}

func dbUse(name string) bool {
	if !strings.HasPrefix(name, "(*database/sql.") {
		return false
	}
	i := strings.LastIndexByte(name, '.')
	m := name[i+1:]
	switch {
	case strings.HasPrefix(name, "(*database/sql.Row"):
		return false
	case strings.HasPrefix(m, "Exec"), strings.HasPrefix(m, "Query"), strings.HasPrefix(m, "Prepare"), strings.HasPrefix(m, "Begin"), strings.HasPrefix(m, "Ping"), m == "Commit", m == "Conn":
		return true
	}
	return false
}

func (l *closedPlugin) storeOf(mpath string) string {
	suf := "." + l.lock
	if strings.HasSuffix(mpath, suf) {
		return strings.TrimSuffix(mpath, suf)
	}
	return ""
}

func (l *closedPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if m := isLockCall(c.Common); m != "" {
		obj := l.storeOf(c.Args[0].Path)
		if obj == "" || l.p.pathType[obj] == nil || recvNamed(l.p.pathType[obj]) != l.store {
			if strings.HasPrefix(m, "t") {
				return false, nil
			}
			return true, []Outcome{{st: st, res: absUnk}}
		}
		delete(st.prop, "open:"+obj)
		delete(st.prop, "ld:"+obj)
		if !isFresh(obj) {
			st.killChildren(obj)
			if st.prop["saw:"+obj] != "" { // nothing but Init reopens a store
				st.heap[obj+"."+l.flag] = &Abs{B: Yes}
			}
		}
		switch m {
		case "W", "R":
			st.prop["held:"+obj] = "1"
		case "uW", "uR":
			delete(st.prop, "held:"+obj)
		default:
			s2 := st.clone()
			s2.prop["held:"+obj] = "1"
			return true, []Outcome{{st: st, res: &Abs{B: No}}, {st: s2, res: &Abs{B: Yes}}}
		}
		return true, []Outcome{{st: st, res: absUnk}}
	}
	if dbUse(c.Name) && l.inStore(fr) {
		l.uses[c.Instr] = true
		open := false
		for k := range st.prop {
			if strings.HasPrefix(k, "open:") {
				open = true
			}
		}
		if !open {
			held := false
			for k := range st.prop {
				if strings.HasPrefix(k, "held:") {
					held = true
				}
			}
			why := "without the store's lock held"
			if held {
				why = "without having seen " + l.flag + " false under the lock it holds"
			}
			con := opShort(c.Name) + " in " + fnName(fr.fn) + " from " + fnName(fr.root)
			if l.findings[con] == nil {
				l.findings[con] = &Finding{Prop: "C03", Rule: "closed-unchecked", Construct: con, Pos: l.p.pos(c.Pos()),
					Msg: fmt.Sprintf("%s uses the database %s: a concurrent or earlier Close is not noticed", fnName(fr.root), why), Chain: fr.chain()}
			}
		}
	}
	return false, nil
}

// inStore: the operation runs in the store's own package (its users hold no store lock).
func (l *closedPlugin) inStore(fr *Frame) bool { return pkgName(fr.fn) == "core" }

func (l *closedPlugin) Loaded(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, v *Abs) *Abs {
	if obj, ok := strings.CutSuffix(loc, "."+l.flag); ok && st.prop["held:"+obj] != "" {
		st.prop["ld:"+obj] = "1"
	}
	return v
}

func (l *closedPlugin) RefineBool(e *Eng, fr *Frame, st *State, loc string, truth bool) {
	obj, ok := strings.CutSuffix(loc, "."+l.flag)
	if !ok {
		return
	}
	if truth {
		// A helper that returns no error (background work) only skips its work; its caller goes on to
		// see the flag itself.
		if errIndex(fr.fn.Signature) >= 0 {
			st.prop["saw:"+obj] = "r"
		} else if st.prop["saw:"+obj] == "" {
			st.prop["saw:"+obj] = "q"
		}
		return
	}
	if st.prop["held:"+obj] != "" && st.prop["ld:"+obj] != "" {
		st.prop["open:"+obj] = "1"
	}
}

// checkExit: an operation that saw the store closed must say so.
func (l *closedPlugin) checkExit(root *ssa.Function, exits []*Exit) {
	ei := errIndex(root.Signature)
	if ei < 0 {
		return
	}
	for _, x := range exits {
		saw := ""
		for k, v := range x.prop {
			if strings.HasPrefix(k, "saw:") && saw != "r" {
				saw = v
			}
		}
		if saw == "" || saw == "q" && ei < len(x.res) && x.res[ei].Nil == No || ei >= len(x.res) || x.res[ei].Nil == No && strings.Contains(x.res[ei].Tags, ".ErrStoreClosed") {
			continue
		}
		con := fnName(root)
		if l.findings["!"+con] == nil {
			l.findings["!"+con] = &Finding{Prop: "C03", Rule: "closed-not-reported", Construct: con, Pos: l.p.pos(root.Pos()),
				Msg: fmt.Sprintf("%s can return something other than the store-closed error although it saw the store closed", con), Chain: con}
		}
	}
}

func init() {
	register("C03", func(p *Prog) *Result {
		l := &closedPlugin{p: p, findings: map[string]*Finding{}, uses: map[ssa.Instruction]bool{}}
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 60, "database_uses": 45}}
		if err := l.anchors(); err != nil {
			r.add(&Finding{Rule: "anchor", Construct: "store close protocol", Pos: "-", Msg: err.Error()})
			return r
		}
		e := NewEng(p, l)
		n := 0
		for _, fn := range p.exportedRoots() {
			if fn.Signature.Recv() == nil || recvNamed(fn.Signature.Recv().Type()) != l.store {
				continue
			}
			if fn.Name() == "Close" {
				continue
			}
			n++
			exits := e.RunRoot(fn, nil, nil)
			l.checkExit(fn, exits)
		}
		for len(e.goRoots) > 0 {
			g := e.goRoots[0]
			e.goRoots = e.goRoots[1:]
			e.memo = map[string]*memoEnt{}
			e.simulate(&Frame{fn: g.fn, root: g.fn, spawn: g.fr}, g.args, g.bnd, map[string]string{}, g.heap)
			n++
		}
		r.Counts["roots"], r.Counts["database_uses"], r.Counts["functions"] = n, len(l.uses), len(e.visited)
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
}
