package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D03: every acquired result set, statement, transaction, connection, file or database handle is
// released on every path out of the operation, or handed on.
type resPlugin struct {
	p        *Prog
	findings map[string]*Finding
	sites    map[ssa.Instruction]bool
	releases map[ssa.Instruction]bool
	where    map[string]string // resource -> acquisition
	fnOf     map[string]*Frame
}

// acquires reports the kind of resource a call hands out ("" if none).
func acquires(name string) string {
	switch name {
	case "database/sql.Open", "database/sql.OpenDB":
		return "database handle"
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp":
		return "file"
	}
	if !strings.HasPrefix(name, "(*database/sql.") {
		return ""
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	switch {
	case strings.HasPrefix(m, "QueryRow"):
		return ""
	case m == "Query" || m == "QueryContext":
		return "result set"
	case m == "Prepare" || m == "PrepareContext":
		return "statement"
	case m == "Begin" || m == "BeginTx":
		return "transaction"
	case m == "Conn":
		return "connection"
	}
	return ""
}

func releaseCall(name string) bool {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return false
	}
	switch name[i+1:] {
	case "Close", "Commit", "Rollback":
		return true
	}
	return false
}

func (l *resPlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				n := callName(c.Common())
				if acquires(n) != "" || releaseCall(n) || strings.HasPrefix(n, "(*database/sql.Rows)") {
					return true
				}
			}
		}
	}
	return passesError(fn)
}

func (l *resPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if kind := acquires(c.Name); kind != "" {
		id := "res:" + kind + "@" + l.p.pos(c.Pos()) + "(" + fnName(fr.fn) + ")"
		id = strings.NewReplacer(".", "_", "[", "_").Replace(id)
		l.sites[c.Instr] = true
		l.where[id] = l.p.pos(c.Pos())
		if st.prop[id] != "" && !l.pendingRelease(st, id) {
			l.report(fr, id, c, "is opened again while the one opened before is still open")
		}
		bad := st.clone()
		st.prop[id] = kind
		sig := c.Common.Signature().Results()
		l.p.setPathType(id, sig.At(0).Type())
		return true, []Outcome{
			{st: st, res: &Abs{Tup: []*Abs{{Nil: No, Path: id}, {Nil: Yes}}}},
			{st: bad, res: &Abs{Tup: []*Abs{{Nil: Yes}, {Nil: No}}}},
		}
	}
	if strings.HasSuffix(c.Name, ").Close") && len(c.Args) > 0 && c.Args[0].Path != "" {
		// an owner's Close releases what the owner holds
		for k, w := range st.prop {
			if strings.HasPrefix(k, "res:") && strings.HasPrefix(w, "in "+c.Args[0].Path+".") {
				delete(st.prop, k)
			}
		}
	}
	if releaseCall(c.Name) && len(c.Args) > 0 {
		id := c.Args[0].Path
		if st.prop[id] != "" {
			l.releases[c.Instr] = true
			delete(st.prop, id)
		} else if id == "" && isResource(c.ArgVals[0].Type()) {
			// identity lost: some resource of this type is released
			for k := range st.prop {
				if strings.HasPrefix(k, "res:") && l.p.pathType[k] != nil && types.Identical(l.p.pathType[k], c.ArgVals[0].Type()) {
					delete(st.prop, k)
				}
			}
		}
		if strings.HasPrefix(c.Name, "(*database/sql.") || strings.HasPrefix(c.Name, "(*os.File)") {
			bad := st.clone()
			return true, []Outcome{{st: st, res: &Abs{Nil: Yes}}, {st: bad, res: &Abs{Nil: No}}}
		}
		return false, nil
	}
	if c.Name == "(*database/sql.Rows).Next" && st.prop[c.Args[0].Path] != "" {
		more := st.clone()
		delete(st.prop, c.Args[0].Path) // exhausted: database/sql closes it
		return true, []Outcome{{st: more, res: &Abs{B: Yes}}, {st: st, res: &Abs{B: No}}}
	}
	return false, nil
}

func isResource(t types.Type) bool {
	s := types.TypeString(t, nil)
	return strings.HasPrefix(s, "*database/sql.") || s == "*os.File"
}

// pendingRelease: a deferred call that releases the resource is registered.
func (l *resPlugin) pendingRelease(st *State, id string) bool {
	for _, d := range st.defs {
		for _, a := range d.args {
			if mentions(a, id, st) {
				return true
			}
		}
		if mentions(d.fn, id, st) {
			return true
		}
	}
	return false
}

func mentions(a *Abs, id string, st *State) bool {
	if a == nil {
		return false
	}
	if a.Path == id {
		return true
	}
	if st != nil && a.Path != "" {
		if v := st.heap[a.Path]; v != nil && v.Path == id {
			return true
		}
	}
	for _, b := range a.Binds {
		if mentions(b, id, st) {
			return true
		}
	}
	for _, b := range a.Tup {
		if mentions(b, id, st) {
			return true
		}
	}
	return false
}

func (l *resPlugin) Go(e *Eng, fr *Frame, st *State, fn *Abs, args []*Abs, in ssa.Instruction) {
	for k := range st.prop {
		if !strings.HasPrefix(k, "res:") {
			continue
		}
		for _, a := range append([]*Abs{fn}, args...) {
			if mentions(a, k, st) {
				delete(st.prop, k)
				break
			}
		}
	}
}

// Instr: a resource stored in a field, element or map entry belongs to that object from then on.
func (l *resPlugin) Instr(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		switch x.Addr.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			v = x.Val
		}
	case *ssa.MapUpdate:
		v = x.Value
	case *ssa.Send:
		v = x.X
	}
	if v == nil {
		return
	}
	a := e.eval(st, v)
	if !strings.HasPrefix(a.Path, "res:") || st.prop[a.Path] == "" {
		return
	}
	if s, ok := in.(*ssa.Store); ok {
		if f, ok := s.Addr.(*ssa.FieldAddr); ok {
			loc := e.eval(st, s.Addr).Path
			base := e.eval(st, f.X).Path
			if isFresh(base) {
				st.prop[a.Path] = "in " + loc // owned by an object the operation still has to hand out
				return
			}
			if old := e.lookup(st, loc); loc != "" && (old == nil || old.Nil != Yes) {
				con := "field " + fieldName(derefT(f.X.Type()), f.Field) + " in " + fnName(fr.fn)
				if l.findings[con] == nil {
					l.findings[con] = &Finding{Prop: "D03", Rule: "overwrite", Construct: con, Pos: l.p.pos(in.Pos()),
						Msg: "a resource is stored over one the field may still hold", Chain: fr.chain()}
				}
			}
		}
	}
	delete(st.prop, a.Path)
}

// Loaded: a resource kept in a field of a new object stays there until it is overwritten.
func (l *resPlugin) Loaded(e *Eng, fr *Frame, st *State, in ssa.Instruction, loc string, v *Abs) *Abs {
	if !isFresh(loc) || v != nil && strings.HasPrefix(v.Path, "res:") {
		return v
	}
	for k, w := range st.prop {
		if strings.HasPrefix(k, "res:") && w == "in "+loc {
			return &Abs{Path: k, Nil: No}
		}
	}
	return v
}

func (l *resPlugin) report(fr *Frame, id string, c *CallSite, what string) {
	kind := strings.TrimPrefix(id[:strings.IndexByte(id, '@')], "res:")
	con := kind + " in " + fnName(fr.fn)
	if l.findings[con] == nil {
		l.findings[con] = &Finding{Prop: "D03", Rule: "leak", Construct: con, Pos: l.p.pos(c.Pos()), Msg: "a " + kind + " " + what, Chain: fr.chain()}
	}
}

// Return: what is open here and neither returned nor reachable from the caller leaks.
func (l *resPlugin) checkExits(root *ssa.Function, exits []*Exit) {
	for _, x := range exits {
	next:
		for k := range x.prop {
			if !strings.HasPrefix(k, "res:") {
				continue
			}
			for _, r := range x.res {
				if mentions(r, k, &State{heap: x.heap}) {
					continue next
				}
			}
			if strings.HasPrefix(x.prop[k], "in ") {
				// inside a new object: lost only if the operation fails and hands out nothing
				ei := errIndex(root.Signature)
				if ei < 0 || ei >= len(x.res) || x.res[ei].Nil != No {
					continue
				}
				for i, r := range x.res {
					if i != ei && r.Nil != Yes {
						continue next
					}
				}
			}
			i, j := strings.IndexByte(k, '@'), strings.IndexByte(k, '(')
			kind, in := strings.TrimPrefix(k[:i], "res:"), strings.TrimSuffix(k[j+1:], ")")
			con := kind + " in " + in
			if l.findings[con] == nil {
				l.findings[con] = &Finding{Prop: "D03", Rule: "leak", Construct: con, Pos: l.where[k],
					Msg: fmt.Sprintf("a %s acquired here is still open when %s returns on some path", kind, fnName(root)), Chain: fnName(root)}
			}
		}
	}
}

func init() {
	register("D03", func(p *Prog) *Result {
		l := &resPlugin{p: p, findings: map[string]*Finding{}, sites: map[ssa.Instruction]bool{}, releases: map[ssa.Instruction]bool{}, where: map[string]string{}}
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 200, "acquisitions": 50}}
		e := NewEng(p, l)
		n := 0
		for _, fn := range p.exportedRoots() {
			n++
			l.checkExits(fn, e.RunRoot(fn, nil, nil))
		}
		for len(e.goRoots) > 0 {
			g := e.goRoots[0]
			e.goRoots = e.goRoots[1:]
			l.checkExits(g.fn, e.simulate(&Frame{fn: g.fn, root: g.fn, spawn: g.fr}, g.args, g.bnd, map[string]string{}, g.heap))
			n++
		}
		r.Counts["roots"], r.Counts["acquisitions"], r.Counts["releases"], r.Counts["functions"] = n, len(l.sites), len(l.releases), len(e.visited)
		for _, k := range sortedKeys(l.findings) {
			r.add(l.findings[k])
		}
		for _, k := range sortedKeys(e.overflow) {
			r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
		}
		return r
	})
}
