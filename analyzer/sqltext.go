package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// texts evaluates a string to the templates it can be: constants and concatenations are followed,
// through helper results and parameters, and everything else becomes a hole.
func (p *Prog) texts(v ssa.Value) []Seq {
	l := p.textsRec(v, 6, map[ssa.Value]bool{})
	var r []Seq
	seen := map[string]bool{}
	for _, s := range l {
		s = normSeq(s)
		if k := s.key(); !seen[k] {
			seen[k] = true
			r = append(r, s)
		}
	}
	return r
}

var anyText = []Seq{{{K: pHole, S: "*"}}}

func (p *Prog) textsRec(v ssa.Value, depth int, busy map[ssa.Value]bool) []Seq {
	if depth < 0 || busy[v] {
		return anyText
	}
	busy[v] = true
	defer delete(busy, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []Seq{{{K: pLit, S: constant.StringVal(x.Value)}}}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return crossSeq(p.textsRec(x.X, depth, busy), p.textsRec(x.Y, depth, busy))
		}
	case *ssa.Phi:
		var r []Seq
		for _, e := range x.Edges {
			r = append(r, p.textsRec(e, depth, busy)...)
		}
		if len(r) <= 64 {
			return r
		}
	case *ssa.ChangeType:
		return p.textsRec(x.X, depth, busy)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				var r []Seq
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						r = append(r, p.textsRec(st.Val, depth, busy)...)
					}
				}
				if len(r) > 0 && len(r) <= 64 {
					return r
				}
			}
			if g, ok := x.X.(*ssa.Global); ok {
				var r []Seq
				for _, s := range p.flowCfg().globals[g] {
					r = append(r, p.textsRec(s, depth, busy)...)
				}
				if len(r) > 0 && len(r) <= 64 {
					return r
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.resultTexts(c, x.Index, depth, busy)
		}
	case *ssa.Call:
		if n := callName(&x.Call); n == "fmt.Sprintf" {
			if f, ok := x.Call.Args[0].(*ssa.Const); ok && f.Value != nil {
				args := p.literalList(x.Call.Args[1])
				return sprintfSeq(constant.StringVal(f.Value), args, func(a ssa.Value) []Seq {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						return p.textsRec(mi.X, depth, busy)
					}
					return anyText
				})
			}
		} else if n == "strings.TrimSpace" {
			return p.textsRec(x.Call.Args[0], depth, busy)
		}
		return p.resultTexts(x, 0, depth, busy)
	case *ssa.Parameter:
		fn := x.Parent()
		cfg := p.flowCfg()
		if fn.Parent() == nil && !cfg.valueUse[fn] && len(cfg.callSites[fn]) > 0 && len(cfg.callSites[fn]) <= 24 {
			i := paramIndex(x)
			var r []Seq
			for _, c := range cfg.callSites[fn] {
				com := c.Common()
				if com.IsInvoke() || i >= len(com.Args) {
					return anyText
				}
				r = append(r, p.textsRec(com.Args[i], depth-1, busy)...)
			}
			if len(r) <= 64 {
				return r
			}
		}
	}
	return anyText
}

func (p *Prog) resultTexts(c *ssa.Call, i, depth int, busy map[ssa.Value]bool) []Seq {
	fn := c.Call.StaticCallee()
	if fn == nil || fn.Blocks == nil || !p.inModule(fn) {
		return anyText
	}
	var r []Seq
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			r = append(r, p.textsRec(ret.Results[i], depth-1, busy)...)
		}
	}
	if len(r) == 0 || len(r) > 64 {
		return anyText
	}
	return r
}

func paramIndex(x *ssa.Parameter) int {
	for i, q := range x.Parent().Params {
		if q == x {
			return i
		}
	}
	return -1
}

func crossSeq(a, b []Seq) []Seq {
	if len(a)*len(b) > 64 {
		return anyText
	}
	var r []Seq
	for _, x := range a {
		for _, y := range b {
			s := append(append(Seq{}, x...), y...)
			r = append(r, s)
		}
	}
	return r
}

func sprintfSeq(f string, args []ssa.Value, text func(ssa.Value) []Seq) []Seq {
	r := []Seq{{}}
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 >= len(f) {
			r = crossSeq(r, []Seq{{{K: pLit, S: f}}})
			break
		}
		if i > 0 {
			r = crossSeq(r, []Seq{{{K: pLit, S: f[:i]}}})
		}
		if f[i+1] == '%' {
			r = crossSeq(r, []Seq{{{K: pLit, S: "%"}}})
			f = f[i+2:]
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		part := anyText
		if args != nil && n < len(args) && j < len(f) && (f[j] == 's' || f[j] == 'v') {
			part = text(args[n])
		}
		n++
		r = crossSeq(r, part)
		if j >= len(f) {
			break
		}
		f = f[j+1:]
	}
	return r
}

// literalList returns the elements of a slice built as a literal (a variadic call), nil if unknown.
func (p *Prog) literalList(v ssa.Value) []ssa.Value {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return []ssa.Value{}
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	n := arrayLen(a.Type())
	if n < 0 {
		return nil
	}
	r := make([]ssa.Value, n)
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		i, _ := constant.Int64Val(c.Value)
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				r[i] = st.Val
			}
		}
	}
	for _, x := range r {
		if x == nil {
			return nil
		}
	}
	return r
}
