package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X01: the context handed to an operation reaches every database, embedder and model call made on
// its behalf. Contexts are traced backwards to where they come from.

func isCtxType(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }

func ctxParam(fn *ssa.Function) *ssa.Parameter {
	for _, p := range fn.Params {
		if isCtxType(p.Type()) {
			return p
		}
	}
	return nil
}

type ctxFlow struct {
	p    *Prog
	cfg  *flowConfig
	memo map[ssa.Value]string
}

// origin returns "" if the context derives from a context given to the enclosing operation, and a
// description of the detached origin otherwise.
func (f *ctxFlow) origin(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return ""
	case *ssa.FreeVar:
		par := x.Parent().Parent()
		if par == nil {
			return ""
		}
		idx := -1
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				idx = i
			}
		}
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() && idx >= 0 {
					if o := f.origin(mc.Bindings[idx], seen); o != "" {
						return o
					}
				}
			}
		}
		return ""
	case *ssa.Const:
		return "a nil context"
	case *ssa.Phi:
		var bad string
		good := false
		for i, e := range x.Edges {
			o := f.origin(e, seen)
			if o == "" {
				good = true
				continue
			}
			if nilGuarded(x.Block().Preds[i]) {
				continue
			}
			bad = o
		}
		if !good && bad == "" {
			return "context.Background()"
		}
		return bad
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		return f.origin(x.X, seen)
	case *ssa.Alloc:
		var bad string
		for _, r := range *x.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr == x {
					if o := f.origin(s.Val, seen); o != "" && !nilGuarded(s.Block()) {
						bad = o
					}
				}
			}
		}
		return bad
	case *ssa.Extract:
		return f.origin(x.Tuple, seen)
	case *ssa.MakeInterface:
		return f.origin(x.X, seen)
	case *ssa.ChangeInterface:
		return f.origin(x.X, seen)
	case *ssa.TypeAssert:
		return f.origin(x.X, seen)
	case *ssa.Call:
		n := callName(&x.Call)
		switch n {
		case "context.Background", "context.TODO", "context.WithoutCancel":
			return n + "()"
		}
		fn := x.Call.StaticCallee()
		// derived from another context
		any := false
		for _, a := range x.Call.Args {
			if isCtxType(a.Type()) {
				any = true
				if o := f.origin(a, seen); o != "" {
					return o
				}
			}
		}
		if fn != nil && fn.Blocks != nil && f.p.inModule(fn) {
			for _, b := range fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						if isCtxType(res.Type()) {
							if o := f.origin(res, seen); o != "" {
								return o
							}
						}
					}
				}
			}
			return ""
		}
		_ = any
		return ""
	}
	return ""
}

// nilGuarded: the block runs only if some context is nil.
func nilGuarded(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		for _, p := range d.Preds {
			if len(d.Preds) != 1 {
				break
			}
			if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if c, ok := i.Cond.(*ssa.BinOp); ok && (isCtxType(c.X.Type()) || isCtxType(c.Y.Type())) && (isNilConst(c.X) || isNilConst(c.Y)) {
					if c.Op == token.EQL && p.Succs[0] == d || c.Op == token.NEQ && p.Succs[1] == d {
						return true
					}
				}
			}
		}
	}
	return false
}

// detached: the function is the body of a goroutine nobody waits for in the function starting it.
func (f *ctxFlow) detached(fn *ssa.Function) bool {
	par := fn.Parent()
	if par == nil {
		return false
	}
	started := false
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				if x.Call.StaticCallee() == fn {
					started = true
				}
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
					started = true
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Select:
				return false
			case ssa.CallInstruction:
				if callName(x.Common()) == "time.AfterFunc" {
					for _, a := range x.Common().Args {
						if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == fn {
							return true
						}
					}
				}
				if callName(x.Common()) == "(*sync.WaitGroup).Wait" {
					return false
				}
			}
		}
	}
	if !started {
		return f.detached(par)
	}
	res := par.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if _, ok := res.At(i).Type().Underlying().(*types.Chan); ok {
			return false
		}
	}
	return true
}

func init() {
	register("X01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"operations": 100, "context_arguments": 300}}
		f := &ctxFlow{p: p, cfg: p.flowCfg()}
		// operations and what they run
		via := map[*ssa.Function]*ssa.Function{}
		var work []*ssa.Function
		for _, fn := range p.allFuncs {
			if ctxParam(fn) != nil {
				via[fn] = fn
				work = append(work, fn)
				r.Counts["operations"]++
			}
		}
		for len(work) > 0 {
			fn := work[0]
			work = work[1:]
			if f.detached(fn) {
				continue
			}
			add := func(t *ssa.Function) {
				if t == nil || t.Blocks == nil || via[t] != nil || !p.inModule(t) {
					return
				}
				via[t] = via[fn]
				work = append(work, t)
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo && c.Common().StaticCallee() != nil && c.Common().StaticCallee().Parent() == nil {
						continue // a named background worker
					}
					add(c.Common().StaticCallee())
					if c.Common().IsInvoke() {
						for _, t := range p.implementers(c.Common()) {
							add(t)
						}
					}
				}
			}
		}
		for _, fn := range p.allFuncs {
			op := via[fn]
			if op == nil || f.detached(fn) {
				continue
			}
			r.Counts["functions"]++
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					com := c.Common()
					name := callName(com)
					if m := sqlNoCtx(name); m != "" {
						r.add(&Finding{Rule: "no-context", Construct: fnName(fn) + " " + name, Pos: p.pos(in.Pos()), Msg: fmt.Sprintf("%s runs %s on behalf of %s without its context: cancelling has no effect on it", fnName(fn), m, fnName(op)), Chain: fnName(op) + " -> " + fnName(fn)})
						continue
					}
					if strings.HasPrefix(name, "context.") {
						continue
					}
					for _, a := range com.Args {
						if !isCtxType(a.Type()) {
							continue
						}
						r.Counts["context_arguments"]++
						if o := f.origin(a, map[ssa.Value]bool{}); o != "" {
							r.add(&Finding{Rule: "detached", Construct: fnName(fn) + " " + name, Pos: p.pos(in.Pos()), Msg: fmt.Sprintf("%s passes %s to %s although it runs on behalf of %s, which was given a context", fnName(fn), o, name, fnName(op)), Chain: fnName(op) + " -> " + fnName(fn)})
						}
					}
				}
			}
		}
		return r
	})
}

// sqlNoCtx recognises the context-less variants of database calls.
func sqlNoCtx(n string) string {
	if !strings.HasPrefix(n, "(*database/sql.") {
		return ""
	}
	switch n {
	case "(*database/sql.DB).Query", "(*database/sql.DB).QueryRow", "(*database/sql.DB).Exec", "(*database/sql.DB).Begin", "(*database/sql.DB).Prepare", "(*database/sql.DB).Ping",
		"(*database/sql.Tx).Query", "(*database/sql.Tx).QueryRow", "(*database/sql.Tx).Exec", "(*database/sql.Tx).Prepare",
		"(*database/sql.Stmt).Query", "(*database/sql.Stmt).QueryRow", "(*database/sql.Stmt).Exec":
		return n[len("(*database/sql."):]
	}
	return ""
}
