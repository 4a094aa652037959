package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Full-text relevance. SQLite's bm25() (and the rank column of an FTS5 table) is at most 0 and the
// smaller the better the match. A score made from it must therefore not grow with it: otherwise the
// best match is the one a threshold leaves out and a ranking by score puts last.

const (
	monoNone    = 0 // does not depend on the variable
	monoUp      = 1
	monoDown    = -1
	monoUnknown = 2
)

type mono struct {
	p    *Prog
	at   ssa.Value // the address of the variable
	par  map[ssa.Value]int
	seen map[ssa.Value]bool
}

func monoJoin(a, b int) int {
	switch {
	case a == monoNone:
		return b
	case b == monoNone || a == b:
		return a
	}
	return monoUnknown
}

func monoFlip(a int) int {
	if a == monoUnknown {
		return a
	}
	return -a
}

// of: how a value moves when the variable grows. Factors and divisors that do not depend on it count
// as positive unless they are negative constants.
func (m *mono) of(v ssa.Value, depth int) int {
	if depth > 30 {
		return monoUnknown
	}
	if s, ok := m.par[v]; ok {
		return s
	}
	if m.seen[v] {
		return monoNone
	}
	m.seen[v] = true
	defer delete(m.seen, v)
	neg := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && (c.Value.Kind() == constant.Int || c.Value.Kind() == constant.Float) && constant.Sign(c.Value) < 0
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if x.X == m.at {
				return monoUp
			}
			if al, ok := x.X.(*ssa.Alloc); ok && m.at != nil {
				s := monoNone
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						s = monoJoin(s, m.of(st.Val, depth+1))
					}
				}
				return s
			}
			return monoNone
		case token.SUB:
			return monoFlip(m.of(x.X, depth+1))
		}
	case *ssa.Convert:
		return m.of(x.X, depth+1)
	case *ssa.ChangeType:
		return m.of(x.X, depth+1)
	case *ssa.Phi:
		s := monoNone
		for _, e := range x.Edges {
			s = monoJoin(s, m.of(e, depth+1))
		}
		return s
	case *ssa.BinOp:
		a, b := m.of(x.X, depth+1), m.of(x.Y, depth+1)
		switch x.Op {
		case token.ADD:
			return monoJoin(a, b)
		case token.SUB:
			return monoJoin(a, monoFlip(b))
		case token.MUL:
			if a != monoNone && b != monoNone {
				return monoUnknown
			}
			if neg(x.X) || neg(x.Y) {
				return monoFlip(monoJoin(a, b))
			}
			return monoJoin(a, b)
		case token.QUO:
			switch {
			case b == monoNone:
				if neg(x.Y) {
					return monoFlip(a)
				}
				return a
			case a == monoNone:
				if neg(x.X) {
					return b
				}
				return monoFlip(b)
			}
			// r / (c + r)
			if d, ok := x.Y.(*ssa.BinOp); ok && d.Op == token.ADD && (m.same(d.X, x.X) && m.of(d.Y, depth+1) == monoNone || m.same(d.Y, x.X) && m.of(d.X, depth+1) == monoNone) {
				return a
			}
			return monoUnknown
		}
		if a == monoNone && b == monoNone {
			return monoNone
		}
		return monoUnknown
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return m.args(x, depth)
		}
		switch f.String() {
		case "math.Abs":
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL && u.X == m.at {
				return monoDown // the variable is at most 0
			}
			if m.of(x.Call.Args[0], depth+1) == monoNone {
				return monoNone
			}
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.SUB && m.of(u.X, depth+1) == monoUp {
				return monoDown
			}
			return monoUnknown
		case "math.Max", "math.Min":
			return monoJoin(m.of(x.Call.Args[0], depth+1), m.of(x.Call.Args[1], depth+1))
		case "math.Log", "math.Log1p", "math.Sqrt", "math.Exp", "math.Tanh", "math.Log2", "math.Log10", "math.Floor", "math.Round":
			return m.of(x.Call.Args[0], depth+1)
		}
		if m.p.inModule(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 && len(m.par) < 8 {
			par := map[ssa.Value]int{}
			dep := false
			for i, q := range f.Params {
				if i >= len(x.Call.Args) {
					return monoUnknown
				}
				par[q] = m.of(x.Call.Args[i], depth+1)
				dep = dep || par[q] != monoNone
			}
			if !dep {
				return monoNone
			}
			n := &mono{p: m.p, par: par, seen: map[ssa.Value]bool{}}
			s := monoNone
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					s = monoJoin(s, n.of(r.Results[0], depth+5))
				}
			}
			return s
		}
		return m.args(x, depth)
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Parameter, *ssa.FreeVar:
		return monoNone
	}
	return monoNone
}

func (m *mono) args(x *ssa.Call, depth int) int {
	for _, a := range x.Call.Args {
		if m.of(a, depth+1) != monoNone {
			return monoUnknown
		}
	}
	return monoNone
}

// same: two readings of one value.
func (m *mono) same(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == y.Op {
		return m.same(x.X, y.X) || x.Op == token.MUL && x.X == y.X
	}
	c, ok1 := a.(*ssa.Call)
	d, ok2 := b.(*ssa.Call)
	if ok1 && ok2 && c.Call.StaticCallee() != nil && c.Call.StaticCallee() == d.Call.StaticCallee() && len(c.Call.Args) == len(d.Call.Args) {
		for i := range c.Call.Args {
			if !m.same(c.Call.Args[i], d.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// relevance judges the scores made from full-text ranks; it returns how many were judged.
func relevance(p *Prog, add func(construct, pos, msg string)) int {
	c := &colAna{p: p, cfg: p.flowCfg(), s: p.schema(), r: &Result{Counts: map[string]int{}}}
	n := 0
	for _, fn := range p.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isScan(ci) {
					continue
				}
				com := ci.Common()
				recv := com.Value
				if !com.IsInvoke() {
					recv = com.Args[0]
				}
				dests := p.literalList(com.Args[len(com.Args)-1])
				if dests == nil {
					continue
				}
				for _, q := range c.origins(recv, "Query", map[ssa.Value]bool{}) {
					x := c.stmtOf(q)
					if x == nil {
						continue
					}
					for _, t := range x.texts {
						s := parseSelect(sqlTokens(t))
						if s == nil || len(s.cols) != len(dests) {
							continue
						}
						for i, e := range s.cols {
							if !ftsRank(s, e) {
								continue
							}
							d := dests[i]
							if mi, ok := d.(*ssa.MakeInterface); ok {
								d = mi.X
							}
							if _, ok := d.(*ssa.Alloc); !ok {
								continue
							}
							n += judgeRank(p, fn, d, add)
						}
					}
				}
			}
		}
	}
	return n
}

// ftsRank: the expression is the bm25 of a full-text table, or its rank column.
func ftsRank(s *selStmt, e []sqlTok) bool {
	if len(e) >= 4 && e[0].is("bm25") && e[1].is("(") {
		// nothing may follow but an alias
		d := 0
		for i, t := range e {
			if t.is("(") {
				d++
			}
			if t.is(")") {
				if d--; d == 0 {
					return i == len(e)-1 || e[i+1].is("as") || i == len(e)-2
				}
			}
		}
		return false
	}
	if len(e) > 0 && (e[0].is("rank") || len(e) > 2 && e[1].is(".") && e[2].is("rank")) {
		for _, t := range s.tables {
			if strings.HasSuffix(t.name, "_fts") {
				return true
			}
		}
	}
	return false
}

func judgeRank(p *Prog, fn *ssa.Function, at ssa.Value, add func(construct, pos, msg string)) int {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			str, ok := derefT(fa.X.Type()).Underlying().(*types.Struct)
			if !ok || !strings.Contains(strings.ToLower(str.Field(fa.Field).Name()), "score") {
				continue
			}
			m := &mono{p: p, at: at, seen: map[ssa.Value]bool{}}
			switch m.of(st.Val, 0) {
			case monoNone:
				continue
			case monoUp:
				add(fnName(fn)+" "+str.Field(fa.Field).Name(), p.pos(st.Pos()), "the score grows with bm25, which is the smaller the better the match: the best matches get the lowest scores")
			}
			n++
		}
	}
	return n
}
