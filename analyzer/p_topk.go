package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Q01: a search answers with at most as many results as asked for, best first, none below the
// threshold asked for; results are cut off only after they are ranked.
//
// Slices of scored elements carry an identity (tag sl:<site>); the state keeps facts per identity:
//   n:<id>   "lt" fewer than the limit, "le" at most the limit
//   ord:<id> "1" ranked best first, "bad" ranked the wrong way round, "?" ranked in a way not followed
//   th:<id>  "0" holds an element that was not compared with the threshold
//   src:<id> the slice its elements were taken from, in order; "-" several or none

type topkPlugin struct {
	p        *Prog
	findings map[string]*Finding
	sorts    map[ssa.Instruction]bool
	cuts     map[ssa.Instruction]bool
	appends  map[ssa.Instruction]bool
	dump     bool
	zero     bool // the limit is zero
	judgeCut bool
	rows     map[string]bool
	exch     map[*ssa.Function][]exchange
	nearest  bool // results carry a distance in place of a score
}

// scoreField: the field a slice of t is ranked by, and whether higher is better.
func scoreField(t types.Type) (string, bool) {
	s, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for _, want := range []string{"Score", "score", "Distance"} {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Embedded() {
				if n, up := scoreField(f.Type()); n == want {
					return n, up
				}
			}
			b, ok := f.Type().Underlying().(*types.Basic)
			if ok && b.Info()&types.IsFloat != 0 && (f.Name() == want || want == "Score" && strings.HasSuffix(f.Name(), want)) {
				return f.Name(), !strings.HasPrefix(strings.ToLower(want), "dist")
			}
		}
	}
	return "", false
}

// scoreFields: all fields elements may be ranked by.
func scoreFields(t types.Type) []string {
	f, up := scoreField(t)
	if f == "" || !up || !strings.HasSuffix(f, "Score") {
		return []string{f}
	}
	var r []string
	if s, ok := derefT(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && strings.HasSuffix(s.Field(i).Name(), "Score") {
				r = append(r, s.Field(i).Name())
			}
		}
	}
	if len(r) == 0 {
		r = []string{f}
	}
	return r
}

func isScoreField(t types.Type, name string) bool {
	for _, f := range scoreFields(t) {
		if f == name {
			return true
		}
	}
	return false
}

// mainScores: of several scores, those that sum the others up (where fn sets some of them, those).
func mainScores(fn *ssa.Function, t types.Type) []string {
	fs := scoreFields(t)
	var main, set []string
	for _, f := range fs {
		n := strings.ToLower(f)
		for _, w := range []string{"combined", "final", "total", "overall", "fused"} {
			if strings.HasPrefix(n, w) {
				main = append(main, f)
			}
		}
	}
	for _, f := range fs {
		if f == "Score" && main == nil {
			main = []string{f}
		}
	}
	if main == nil {
		return fs
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), derefT(t)) {
				for _, m := range main {
					if fieldName(derefT(t), fa.Field) == m {
						set = append(set, m)
					}
				}
			}
		}
	}
	if set != nil {
		return set
	}
	return main
}

// sameScore: elements built in fn have the same value in both fields.
func sameScore(fn *ssa.Function, t types.Type, a, b string) bool {
	some := false
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || !types.Identical(derefT(al.Type()), derefT(t)) || al.Referrers() == nil {
				continue
			}
			var va, vb ssa.Value
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				for _, q := range *fa.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
						switch fieldName(derefT(t), fa.Field) {
						case a:
							va = s.Val
						case b:
							vb = s.Val
						}
					}
				}
			}
			if va == nil && vb == nil {
				continue
			}
			if va != vb {
				return false
			}
			some = true
		}
	}
	return some
}

func rankedSlice(t types.Type) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	if f, _ := scoreField(s.Elem()); f != "" {
		return s.Elem(), true
	}
	return s.Elem(), false
}

func (l *topkPlugin) Touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if l.tracked(v.Type()) {
					return true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				n := callName(c.Common())
				if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") {
					return true
				}
			}
		}
	}
	return passesError(fn)
}

func (l *topkPlugin) tracked(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return l.rows[s.Elem().String()] || func() bool { f, _ := scoreField(s.Elem()); return f != "" }()
}

func tagsWith(t, prefix string) []string {
	var r []string
	for _, x := range strings.Split(t, ";") {
		if strings.HasPrefix(x, prefix) {
			r = append(r, x[len(prefix):])
		}
	}
	return r
}

func dropTags(t string, prefixes ...string) string {
	return tagFilter(t, func(x string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(x, p) {
				return false
			}
		}
		return true
	})
}

// srcIDs: the slices an address lies in.
func (l *topkPlugin) srcIDs(e *Eng, st *State, addr ssa.Value) []string {
	switch x := addr.(type) {
	case *ssa.IndexAddr:
		kind := "eu:"
		if counter(x.Index) != nil {
			kind = "el:"
		}
		var r []string
		for _, id := range tagsWith(e.eval(st, x.X).Tags, "sl:") {
			r = append(r, kind+id)
		}
		return r
	case *ssa.FieldAddr:
		r := l.srcIDs(e, st, x.X)
		if len(r) == 0 {
			r = elemTags(e.eval(st, x.X).Tags)
		}
		return r
	}
	return nil
}

// elemTags: the slices an element was taken from; el: in order, eu: in any order.
func elemTags(t string) []string {
	var r []string
	for _, x := range strings.Split(t, ";") {
		if strings.HasPrefix(x, "el:") || strings.HasPrefix(x, "eu:") {
			r = append(r, x)
		}
	}
	return r
}

// counter: the index of a loop that goes up by one, starting at the beginning.
func counter(v ssa.Value) *ssa.Phi {
	if c, ok := v.(*ssa.Convert); ok {
		v = c.X
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isOne(b.Y) { // rangeindex: phi(-1, i) + 1
		if p, ok := b.X.(*ssa.Phi); ok {
			start, step := false, true
			for _, ed := range p.Edges {
				if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Value.ExactString() == "-1" {
					start = true
				} else if ed != v {
					step = false
				}
			}
			if start && step {
				return p
			}
		}
		return nil
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return nil
	}
	start, step := false, true
	for _, ed := range p.Edges {
		if isZero(ed) {
			start = true
		} else if b, ok := ed.(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != p || !isOne(b.Y) {
			step = false
		}
	}
	if start && step {
		return p
	}
	return nil
}

// counted: an iteration of the innermost loop around b happens at most as often as the limit allows.
func (l *topkPlugin) counted(e *Eng, st *State, b *ssa.BasicBlock) bool {
	heads := e.loopHeads(b.Parent())
	for d := b; d != nil; d = d.Idom() {
		if i := d.Idom(); i != nil {
			if t, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If); ok && i.Succs[0] == d && len(d.Preds) == 1 {
				if c, ok := t.Cond.(*ssa.BinOp); ok {
					x, y, op := c.X, c.Y, c.Op
					if op == token.GTR {
						x, y, op = y, x, token.LSS
					}
					if p := counter(x); op == token.LSS && p != nil && l.bounding(e.eval(st, y), st) {
						// the loop of the counter is the innermost one
						for h := b; h != nil; h = h.Idom() {
							if heads[h] && loopOf(h)[b] {
								return h == p.Block()
							}
						}
					}
				}
			}
		}
	}
	return false
}

// limited: at b, the counter is known to be below the limit.
func (l *topkPlugin) limited(e *Eng, st *State, b *ssa.BasicBlock, p *ssa.Phi) bool {
	for d := b; d.Idom() != nil; d = d.Idom() {
		i := d.Idom()
		t, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If)
		if !ok || i.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}
		if c, ok := t.Cond.(*ssa.BinOp); ok {
			x, y, op := c.X, c.Y, c.Op
			if op == token.GTR {
				x, y, op = y, x, token.LSS
			}
			if op == token.LSS && counter(x) == p {
				if t := e.eval(st, y).Tags; tagHas(t, "lim") || tagHas(t, "limx") {
					return true
				}
			}
		}
	}
	return false
}

// bounding: a number of iterations within the limit.
func (l *topkPlugin) bounding(n *Abs, st *State) bool {
	if tagHas(n.Tags, "lim") {
		return true
	}
	if n.N != nil && *n.N == 0 {
		return true // no iteration
	}
	ids := tagsWith(n.Tags, "len:")
	for _, id := range ids {
		if st.prop["n:"+id] == "" {
			return false
		}
	}
	return len(ids) > 0
}

// loopOf: the blocks of the natural loop of header h.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				work = append(work, p)
			}
		}
	}
	return in
}

// exchange describes a loop that sorts a slice by exchanging elements.
type exchange struct {
	slice   ssa.Value
	in      map[*ssa.BasicBlock]bool
	verdict string
}

// exchanges finds the loops of fn in which elements of a slice change places.
func (l *topkPlugin) exchanges(e *Eng, fn *ssa.Function) []exchange {
	if x, ok := l.exch[fn]; ok {
		return x
	}
	var r []exchange
	heads := e.loopHeads(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			to, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !ranked(to.X.Type()) {
				continue
			}
			u, ok := s.Val.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			from, ok := u.X.(*ssa.IndexAddr)
			if !ok || !sameSlice(from.X, to.X) {
				continue
			}
			var outer *ssa.BasicBlock
			for h := b; h != nil; h = h.Idom() {
				if heads[h] && loopOf(h)[b] {
					outer = h
				}
			}
			if outer != nil {
				v := exchangeOrder(b, from, to)
				if v == "1" && !sweeps(to.X, from.Index, to.Index) {
					v = ""
				}
				r = append(r, exchange{to.X, loopOf(outer), v})
			}
		}
	}
	if l.exch == nil {
		l.exch = map[*ssa.Function][]exchange{}
	}
	l.exch[fn] = r
	return r
}

func sameSlice(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// after: index a is always higher than index b.
func after(a, b ssa.Value) bool {
	one := func(v ssa.Value) bool {
		x, ok := v.(*ssa.BinOp)
		if !ok || x.Op != token.ADD || x.X != b {
			return false
		}
		c, ok := x.Y.(*ssa.Const)
		return ok && c.Value != nil && constant.Sign(c.Value) > 0
	}
	if one(a) {
		return true
	}
	p, ok := a.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, ed := range p.Edges {
		if x, ok := ed.(*ssa.BinOp); ok && x.Op == token.ADD && x.X == p && isOne(x.Y) {
			continue
		}
		if !one(ed) {
			return false
		}
	}
	return true
}

// sweeps: the loops of an exchange sort go over the whole slice, as far as their bounds show.
func sweeps(s, a, b ssa.Value) bool {
	base := func(v ssa.Value) (*ssa.Phi, int64) { // counter plus offset
		if x, ok := v.(*ssa.BinOp); ok && x.Op == token.ADD {
			if c, ok := x.Y.(*ssa.Const); ok {
				if p, ok := x.X.(*ssa.Phi); ok {
					return p, c.Int64()
				}
			}
		}
		p, _ := v.(*ssa.Phi)
		return p, 0
	}
	pa, ka := base(a)
	pb, kb := base(b)
	if pa == nil || pb == nil {
		return true // not followed
	}
	adjacent := pa == pb
	slack := func(p *ssa.Phi) (start int64, from *ssa.Phi, short int64, known bool) {
		// for p := from+start; p < len(s)-short; p++
		n := 0
		for _, ed := range p.Edges {
			if x, ok := ed.(*ssa.BinOp); ok && x.Op == token.ADD && x.X == ssa.Value(p) {
				if !isOne(x.Y) {
					return 0, nil, 99, true
				}
				continue
			}
			n++
			if c, ok := ed.(*ssa.Const); ok {
				start = c.Int64()
				continue
			}
			from, start = base(ed)
			if from == nil {
				return 0, nil, 0, false
			}
		}
		t, ok := p.Block().Instrs[len(p.Block().Instrs)-1].(*ssa.If)
		if !ok || n != 1 {
			return 0, nil, 0, false
		}
		c, ok := t.Cond.(*ssa.BinOp)
		if !ok || c.X != ssa.Value(p) || c.Op != token.LSS && c.Op != token.LEQ {
			return 0, nil, 0, false
		}
		if c.Op == token.LEQ {
			short--
		}
		bound := c.Y
		for {
			x, ok := bound.(*ssa.BinOp)
			if !ok || x.Op != token.SUB {
				break
			}
			if k, ok := x.Y.(*ssa.Const); ok {
				short += k.Int64()
			} else if _, ok := x.Y.(*ssa.Phi); !ok {
				return 0, nil, 0, false
			}
			bound = x.X
		}
		call, ok := bound.(*ssa.Call)
		if !ok {
			return 0, nil, 0, false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || !sameSlice(call.Call.Args[0], s) {
			return 0, nil, 0, false
		}
		return start, from, short, true
	}
	for _, p := range []*ssa.Phi{pa, pb} {
		start, from, short, known := slack(p)
		if !known {
			continue
		}
		switch {
		case adjacent: // p and p+1
			if start > 0 || short > 1 {
				return false
			}
		case from != nil: // the inner loop
			if start > 1 || short > 0 {
				return false
			}
		default:
			if start > 0 || short > 1 {
				return false
			}
		}
	}
	_, _ = ka, kb
	return true
}

// exchangeOrder: which of the two elements ends up in front.
func exchangeOrder(b *ssa.BasicBlock, from, to *ssa.IndexAddr) string {
	et := to.X.Type().Underlying().(*types.Slice).Elem()
	_, up := scoreField(et)
	idx := func(v ssa.Value) ssa.Value {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !isScoreField(fa.X.Type(), fieldName(derefT(fa.X.Type()), fa.Field)) {
			return nil
		}
		base := fa.X
		if u, ok := base.(*ssa.UnOp); ok && u.Op == token.MUL {
			base = u.X
		}
		if ia, ok := base.(*ssa.IndexAddr); ok && sameSlice(ia.X, to.X) {
			return ia.Index
		}
		return nil
	}
	for d := b; d.Idom() != nil; d = d.Idom() {
		i := d.Idom()
		t, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If)
		if !ok || i.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}
		c, ok := t.Cond.(*ssa.BinOp)
		if !ok {
			return "?"
		}
		hi, lo := idx(c.X), idx(c.Y)
		if hi == nil || lo == nil {
			return "?"
		}
		switch c.Op {
		case token.LSS, token.LEQ:
			hi, lo = lo, hi
		case token.GTR, token.GEQ:
		default:
			return "?"
		}
		// the higher score sits at hi before the exchange and at lo after it
		switch {
		case after(hi, lo):
			if up {
				return "1"
			}
			return "bad"
		case after(lo, hi):
			if up {
				return "bad"
			}
			return "1"
		}
		return "?"
	}
	return "?"
}

// Go: a slice shared with a goroutine holds whatever the goroutine adds.
func (l *topkPlugin) Go(e *Eng, fr *Frame, st *State, fn *Abs, args []*Abs, in ssa.Instruction) {
	if fn == nil || fn.Fn == nil {
		return
	}
	for i, b := range fn.Binds {
		if b.Path == "" || i >= len(fn.Fn.FreeVars) {
			continue
		}
		if pt, ok := fn.Fn.FreeVars[i].Type().Underlying().(*types.Pointer); ok && l.tracked(pt.Elem()) {
			id := strings.NewReplacer(";", "_", ":", "_").Replace(fnName(fr.fn) + "." + fn.Fn.FreeVars[i].Name())
			st.heap[b.Path] = &Abs{Tags: "sl:" + id}
			for _, k := range []string{"n:", "ord:"} {
				delete(st.prop, k+id)
			}
			st.prop["th:"+id], st.prop["src:"+id] = "0", "-"
		}
	}
}

// passKey: states in which a score was found to reach the threshold are kept apart from others
// for as long as the score lives.
func passKey(v ssa.Value) string {
	b := 0
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
		b = in.Block().Index
	}
	return fmt.Sprintf("tp:%d:%s.%s", b, fnName(v.Parent()), v.Name())
}

// storedTo: where v has been stored.
func storedTo(v ssa.Value) []*ssa.Store {
	var r []*ssa.Store
	if v.Referrers() == nil {
		return nil
	}
	for _, q := range *v.Referrers() {
		if s, ok := q.(*ssa.Store); ok && s.Val == v {
			r = append(r, s)
		}
	}
	return r
}

func (l *topkPlugin) Return(e *Eng, fr *Frame, st *State, res []*Abs) {
	for k := range st.prop {
		if strings.HasPrefix(k, "tp:") && strings.Contains(k, ":"+fnName(fr.fn)+".") {
			delete(st.prop, k)
		}
	}
}

func (l *topkPlugin) Edge(e *Eng, st *State, from, to *ssa.BasicBlock) {
	if st.prop["nothr"] != "" {
		for k := range st.prop {
			if strings.HasPrefix(k, "th:") || strings.HasPrefix(k, "tp:") {
				delete(st.prop, k)
			}
		}
	}
	for k := range st.prop {
		if !strings.HasPrefix(k, "tp:") {
			continue
		}
		var i int
		rest := k[3:]
		if n := strings.Index(rest, ":"); n > 0 {
			fmt.Sscan(rest[:n], &i)
			if strings.HasPrefix(rest[n+1:], fnName(to.Parent())+".") && i < len(to.Parent().Blocks) && !to.Parent().Blocks[i].Dominates(to) {
				delete(st.prop, k)
			}
		}
	}
	l.stopped(e, st, from, to)
	for _, x := range l.exchanges(e, from.Parent()) {
		if x.in[from] && !x.in[to] {
			for _, id := range tagsWith(e.eval(st, x.slice).Tags, "sl:") {
				st.prop["ord:"+id] = x.verdict
				delete(st.prop, "src:"+id)
			}
		}
	}
}

// stopped: a loop that collects scored elements stops, or skips the rest, at the limit.
func (l *topkPlugin) stopped(e *Eng, st *State, from, to *ssa.BasicBlock) {
	if !l.judgeCut || approximate(from.Parent()) {
		return
	}
	t, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	c, ok := t.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y, op := c.X, c.Y, c.Op
	if lenOf(x) == nil {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	s := lenOf(x)
	if s == nil || !ranked(s.Type()) {
		return
	}
	full := -1 // the side on which the list is full
	switch op {
	case token.GTR, token.GEQ, token.EQL:
		full = 0
	case token.LSS, token.LEQ, token.NEQ:
		full = 1
	}
	if full < 0 || from.Succs[full] != to || from.Succs[0] == from.Succs[1] {
		return
	}
	b := e.eval(st, y)
	if !tagHas(b.Tags, "lim") && !tagHas(b.Tags, "limx") {
		return
	}
	var loop map[*ssa.BasicBlock]bool
	var head *ssa.BasicBlock
	heads := e.loopHeads(from.Parent())
	for h := from; h != nil; h = h.Idom() {
		if heads[h] && loopOf(h)[from] {
			loop, head = loopOf(h), h
			break
		}
	}
	if loop == nil {
		return
	}
	grows := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch z := in.(type) {
			case *ssa.Call:
				if bi, ok := z.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && types.Identical(z.Type(), s.Type()) {
					return true
				}
			case *ssa.Store:
				if ia, ok := z.Addr.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type(), s.Type()) {
					return true
				}
			case *ssa.Slice:
				if types.Identical(z.Type(), s.Type()) {
					return true
				}
			}
		}
		return false
	}
	some := false
	for b := range loop {
		some = some || grows(b)
	}
	if !some {
		return
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{to}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || !loop[b] || b == head {
			continue
		}
		seen[b] = true
		if grows(b) {
			return // a better element still gets in
		}
		work = append(work, b.Succs...)
	}
	for _, id := range tagsWith(e.eval(st, s).Tags, "sl:") {
		if o := st.prop["ord:"+id]; o == "" || o == "bad" {
			k := "cut-unranked|" + fnName(from.Parent())
			if l.findings[k] == nil {
				l.findings[k] = &Finding{Rule: "cut-unranked", Construct: fnName(from.Parent()), Pos: l.p.pos(c.Pos()), Msg: "candidates are no longer taken once the limit is reached although they are not ranked", Chain: fnName(from.Parent())}
			}
		}
	}
}

// approximate: part of an index that explores a graph of vectors and stops early by design.
func approximate(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return pkgName(fn) == "index" || fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), "HNSW") && pkgName(fn) == "graph"
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

func (l *topkPlugin) fresh(st *State, id, n string) {
	st.prop["ord:"+id] = "1"
	delete(st.prop, "th:"+id)
	delete(st.prop, "src:"+id)
	delete(st.prop, "n:"+id)
	if n != "" {
		st.prop["n:"+id] = n
	}
}

func (l *topkPlugin) setIDs(e *Eng, st *State, v ssa.Value, ids ...string) {
	a := e.eval(st, v).clone()
	a.Tags = dropTags(a.Tags, "sl:", "el:", "eu:", "len:", "lim", "thr", "tp", "rl")
	for _, id := range ids {
		a.Tags = tagUnion(a.Tags, "sl:"+id)
	}
	a.k = ""
	st.env[v] = a
}

func (l *topkPlugin) id(v ssa.Value) string {
	return strings.NewReplacer(";", "_", ":", "_").Replace(fnName(v.Parent()) + "." + v.Name())
}

// put records that an element is added to (or stored in) dst.
func (l *topkPlugin) put(st *State, dst string, src []string, passed, count, counted bool) {
	ord := "ord:" + dst
	k := "src:" + dst
	from := "-"
	if len(src) == 1 && src[0][3:] != dst && src[0][:3] == "el:" {
		from = src[0][3:]
	}
	// not below the threshold
	inherited := len(src) > 0
	for _, s := range src {
		if st.prop["th:"+s[3:]] == "0" {
			inherited = false
		}
	}
	if !passed && !inherited {
		st.prop["th:"+dst] = "0"
	}
	if cur := st.prop[k]; cur == "" || cur == from {
		st.prop[k] = from
	} else {
		st.prop[k] = "-"
		from = "-"
	}
	if from != "-" {
		if o := st.prop["ord:"+from]; o != st.prop[ord] {
			if o == "" {
				delete(st.prop, ord)
			} else if st.prop[ord] != "" {
				st.prop[ord] = o
			}
		}
	} else if st.prop["row"] != "" && strings.Contains(st.prop["row"], "ro") && len(src) == 0 && st.prop[ord] != "" {
		st.prop[ord] = "?" // in the order of the rows
	} else {
		delete(st.prop, ord)
	}
	if !count {
		return
	}
	n := st.prop["n:"+dst]
	switch {
	case from != "-" && st.prop["n:"+from] != "" && n != "":
		st.prop["n:"+dst] = "le"
	case n != "" && (strings.Contains(st.prop["row"], "rl") || counted):
		st.prop["n:"+dst] = "le"
	case n == "lt":
		st.prop["n:"+dst] = "le"
	default:
		delete(st.prop, "n:"+dst)
	}
}

func (l *topkPlugin) After(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
	v, isVal := in.(ssa.Value)
	if isVal {
		if _, ok := st.env[v]; !ok {
			isVal = false
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		l.stored(e, st, x)
		return
	case *ssa.BinOp:
		if a := st.env[v]; a != nil && a.Tags != "" {
			b := a.clone()
			b.Tags = dropTags(a.Tags, "lim", "thr", "tp", "el:", "eu:", "len:", "sl:")
			if tagHas(a.Tags, "lim") || tagHas(a.Tags, "limx") {
				b.Tags = tagUnion(b.Tags, "limx")
			}
			b.k = ""
			st.env[v] = b
		}
		return
	case *ssa.UnOp:
		if x.Op != token.MUL || !isVal {
			return
		}
		if l.tracked(x.Type()) {
			return
		}
		a := st.env[v]
		t := dropTags(a.Tags, "sl:")
		if src := l.srcIDs(e, st, x.X); len(src) > 0 {
			t = dropTags(t, "el:", "eu:", "tp")
			for _, s := range src {
				t = tagUnion(t, s)
			}
		}
		if t != a.Tags {
			a = a.clone()
			a.Tags, a.k = t, ""
			st.env[v] = a
		}
	case *ssa.Field:
		if a := e.eval(st, x.X); len(elemTags(a.Tags)) > 0 || tagHas(a.Tags, "tp") {
			r := st.env[v].clone()
			if tagHas(a.Tags, "tp") && isScoreField(x.X.Type(), fieldName(x.X.Type(), x.Field)) {
				r.Tags = tagUnion(r.Tags, "tp")
			}
			for _, s := range elemTags(a.Tags) {
				r.Tags = tagUnion(r.Tags, s)
			}
			r.k = ""
			st.env[v] = r
		}
	case *ssa.IndexAddr:
		if !l.judgeCut || approximate(fr.fn) || !ranked(x.X.Type()) || counter(x.Index) == nil || !l.limited(e, st, x.Block(), counter(x.Index)) {
			return
		}
		l.cuts[x] = true
		for _, id := range tagsWith(e.eval(st, x.X).Tags, "sl:") {
			if st.prop["n:"+id] != "" {
				continue
			}
			switch st.prop["ord:"+id] {
			case "":
				l.report("cut-unranked", fr, x, "only as many candidates as the limit allows are taken from a list that is not ranked")
			case "bad":
				l.report("cut-unranked", fr, x, "only as many candidates as the limit allows are taken from a list ranked worst first")
			}
		}
	case *ssa.MakeSlice:
		if !l.tracked(x.Type()) {
			return
		}
		id := l.id(v)
		n := e.eval(st, x.Len)
		switch {
		case n.N != nil && *n.N == 0:
			l.fresh(st, id, "lt")
		case tagHas(n.Tags, "lim"):
			l.fresh(st, id, "le")
		default:
			l.fresh(st, id, "")
			for _, s := range tagsWith(n.Tags, "len:") {
				if st.prop["n:"+s] != "" {
					st.prop["n:"+id] = "le"
				}
			}
		}
		l.setIDs(e, st, v, id)
	case *ssa.Slice:
		if !l.tracked(x.Type()) {
			return
		}
		l.sliced(e, fr, st, x)
	case *ssa.Call:
		l.called(e, fr, st, x)
	}
}

func (l *topkPlugin) sliced(e *Eng, fr *Frame, st *State, x *ssa.Slice) {
	if _, arr := derefT(x.X.Type()).Underlying().(*types.Array); arr { // a literal
		if a := derefT(x.X.Type()).Underlying().(*types.Array); a.Len() == 0 {
			id := l.id(x)
			l.fresh(st, id, "lt")
			l.setIDs(e, st, x, id)
			return
		}
		l.setIDs(e, st, x)
		return
	}
	ids := tagsWith(e.eval(st, x.X).Tags, "sl:")
	if x.High == nil {
		l.setIDs(e, st, x, ids...)
		return
	}
	h := e.eval(st, x.High)
	if c, ok := x.High.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
		id := l.id(x)
		l.fresh(st, id, "lt")
		l.setIDs(e, st, x, id)
		return
	}
	l.setIDs(e, st, x, ids...)
	if l.zero && tagHas(h.Tags, "lim") && h.N != nil && *h.N <= 0 {
		l.report("limit-zero", fr, x, "with a limit of zero (left out) all results are cut off")
	}
	if !tagHas(h.Tags, "lim") && !tagHas(h.Tags, "limx") && st.prop["nolim"] == "" {
		return
	}
	l.cuts[x] = true
	for _, id := range ids {
		if st.prop["n:"+id] == "" && st.prop["ord:"+id] == "" && l.judgeCut && ranked(x.Type()) {
			l.report("cut-unranked", fr, x, "results are cut off at the limit before they are ranked")
		}
		if tagHas(h.Tags, "lim") {
			st.prop["n:"+id] = "le"
		}
	}
}

func ranked(t types.Type) bool { _, ok := rankedSlice(t); return ok }

func (l *topkPlugin) report(rule string, fr *Frame, in ssa.Instruction, msg string) {
	pos := l.p.pos(in.Pos())
	k := rule + "|" + fnName(in.Parent())
	if l.findings[k] == nil {
		l.findings[k] = &Finding{Rule: rule, Construct: fnName(in.Parent()), Pos: pos, Msg: msg, Chain: fr.chain()}
	}
}

// scoreTags: what is known of the score of an element.
func (l *topkPlugin) scoreTags(e *Eng, st *State, el *Abs, et types.Type) (src []string, passed bool) {
	fs := scoreFields(et)
	t := ""
	if el != nil {
		t = el.Tags
		_, ptr := et.Underlying().(*types.Pointer)
		if fs[0] != "" && el.Path != "" && !(ptr && len(elemTags(t)) > 0) {
			own, some := "", false
			for _, f := range fs {
				h := st.heap[el.Path+"."+f]
				if h == nil {
					for k, x := range st.heap { // of an embedded struct
						if hasPathPrefix(k, el.Path) && strings.HasSuffix(k, "."+f) {
							h = x
						}
					}
				}
				if h == nil {
					continue
				}
				if l.dump {
					fmt.Fprintf(os.Stderr, "   score %s.%s = %s\n", el.Path, f, h.key())
				}
				own, some = tagUnion(own, h.Tags), true
			}
			if some {
				t = own
			}
		}
	}
	return elemTags(t), tagHas(t, "tp")
}

func (l *topkPlugin) called(e *Eng, fr *Frame, st *State, x *ssa.Call) {
	b, ok := x.Call.Value.(*ssa.Builtin)
	if !ok {
		l.answered(e, fr, st, x)
		return
	}
	switch b.Name() {
	case "len":
		if a := e.eval(st, x.Call.Args[0]); len(tagsWith(a.Tags, "sl:")) > 0 {
			r := e.eval(st, x).clone()
			for _, id := range tagsWith(a.Tags, "sl:") {
				r.Tags = tagUnion(r.Tags, "len:"+id)
			}
			r.k = ""
			st.env[x] = r
		}
	case "min":
		for _, a := range x.Call.Args {
			if tagHas(e.eval(st, a).Tags, "lim") {
				r := e.eval(st, x).clone()
				r.Tags, r.k = tagUnion(r.Tags, "lim"), ""
				st.env[x] = r
			}
		}
	case "copy":
		if !l.tracked(x.Call.Args[0].Type()) {
			return
		}
		d, s := tagsWith(e.eval(st, x.Call.Args[0]).Tags, "sl:"), tagsWith(e.eval(st, x.Call.Args[1]).Tags, "sl:")
		for _, id := range d {
			l.put(st, id, wholeOf(s), st.prop["nothr"] != "", false, false)
		}
	case "append":
		if !l.tracked(x.Type()) || len(x.Call.Args) < 2 {
			return
		}
		l.appends[x] = true
		a := e.eval(st, x.Call.Args[0])
		ids := tagsWith(a.Tags, "sl:")
		if len(ids) == 0 || a.Nil == Yes {
			id := l.id(x)
			l.fresh(st, id, "lt")
			if !(a.Nil == Yes || a.Emp == Yes || isNilConst(x.Call.Args[0])) {
				delete(st.prop, "n:"+id)
				delete(st.prop, "ord:"+id)
				st.prop["th:"+id], st.prop["src:"+id] = "0", "-"
			}
			ids = []string{id}
		}
		l.setIDs(e, st, x, ids...)
		et := x.Type().Underlying().(*types.Slice).Elem()
		bb := e.eval(st, x.Call.Args[1])
		if arr := varargs(x.Call.Args[1]); arr != nil {
			el := e.lookup(st, bb.Path+"[]")
			if el == nil {
				el = &Abs{}
			}
			if el.Path == "" {
				el = el.withPath(bb.Path + "[]")
			}
			src, passed := l.scoreTags(e, st, el, et)
			passed = passed || st.prop["nothr"] != ""
			counted := l.counted(e, st, x.Block())
			for _, id := range ids {
				for i := int64(0); i < arr.Len(); i++ {
					l.put(st, id, src, passed, true, counted && arr.Len() == 1)
				}
			}
			if l.dump {
				fmt.Fprintf(os.Stderr, "append %s %v src=%v passed=%v n=%s ord=%s\n", l.p.pos(x.Pos()), ids, src, passed, st.prop["n:"+ids[0]], st.prop["ord:"+ids[0]])
			}
			return
		}
		src := tagsWith(bb.Tags, "sl:")
		for _, id := range ids {
			n := st.prop["n:"+id]
			l.put(st, id, wholeOf(src), st.prop["nothr"] != "", false, false)
			if n != "lt" || len(src) != 1 || st.prop["n:"+src[0]] == "" || st.prop["src:"+id] == "-" {
				delete(st.prop, "n:"+id)
			} else {
				st.prop["n:"+id] = "le"
			}
		}
	}
}

// answered: from here on, the slices a call answers with are known by the call.
func (l *topkPlugin) answered(e *Eng, fr *Frame, st *State, x *ssa.Call) {
	a := st.env[x]
	if a == nil {
		return
	}
	rename := func(a *Abs, i int) *Abs {
		ids := tagsWith(a.Tags, "sl:")
		id := fmt.Sprintf("%s_%d", l.id(x), i)
		if len(ids) == 0 && (a.Nil == Yes || a.Emp == Yes) {
			l.fresh(st, id, "lt")
			b := a.clone()
			b.Tags, b.k = tagUnion(b.Tags, "sl:"+id), ""
			return b
		}
		if len(ids) == 0 {
			return a
		}
		n, ord, th := "lt", "1", ""
		for _, o := range ids {
			switch st.prop["n:"+o] {
			case "":
				n = ""
			case "le":
				if n != "" {
					n = "le"
				}
			}
			switch y := st.prop["ord:"+o]; {
			case y == "" || ord == "":
				ord = ""
			case y == "bad" || ord == "bad":
				ord = "bad"
			case y == "?":
				ord = "?"
			}
			if st.prop["th:"+o] == "0" {
				th = "0"
			}
		}
		l.fresh(st, id, n)
		delete(st.prop, "ord:"+id)
		if ord != "" {
			st.prop["ord:"+id] = ord
		}
		if th != "" {
			st.prop["th:"+id] = th
		}
		st.prop["src:"+id] = "-"
		b := a.clone()
		b.Tags, b.k = tagUnion(dropTags(b.Tags, "sl:"), "sl:"+id), ""
		return b
	}
	if a.Tup != nil {
		b := a.clone()
		b.Tup = append([]*Abs{}, a.Tup...)
		res := x.Call.Signature().Results()
		for i := range b.Tup {
			if i < res.Len() && l.tracked(res.At(i).Type()) && b.Tup[i] != nil {
				b.Tup[i] = rename(b.Tup[i], i)
			}
		}
		b.k = ""
		st.env[x] = b
	} else if l.tracked(x.Type()) {
		st.env[x] = rename(a, 0)
	}
	// what the callee knew of its own slices is of no use any more
	for k := range st.prop {
		i := strings.IndexByte(k, ':')
		if i < 0 {
			continue
		}
		live := false
		for f := fr; f != nil; f = f.up {
			if strings.HasPrefix(k[i+1:], strings.NewReplacer(";", "_", ":", "_").Replace(fnName(f.fn))+".") {
				live = true
			}
		}
		if !live {
			delete(st.prop, k)
		}
	}
}

func wholeOf(ids []string) []string {
	var r []string
	for _, id := range ids {
		r = append(r, "el:"+id)
	}
	return r
}

// varargs: the array behind the elements listed in a call of append.
func varargs(v ssa.Value) *types.Array {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, _ := derefT(a.Type()).Underlying().(*types.Array)
	return arr
}

// stored: an element, or its score, is replaced.
func (l *topkPlugin) stored(e *Eng, st *State, x *ssa.Store) {
	if vt := x.Val.Type(); isStruct(vt) {
		// a copy of an element has its score
		if f := scoreFields(vt); f[0] != "" {
			v := e.eval(st, x.Val)
			to := e.eval(st, x.Addr).Path
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if p := e.eval(st, ia.X).Path; p != "" {
					to = p + "[]"
				}
			}
			t := tagFilter(v.Tags, func(t string) bool { return t == "tp" || strings.HasPrefix(t, "el:") || strings.HasPrefix(t, "eu:") })
			for _, n := range f {
				if s := st.heap[v.Path+"."+n]; v.Path != "" && s != nil && len(elemTags(v.Tags)) == 0 {
					st.heap[to+"."+n] = s
				} else if to != "" {
					st.heap[to+"."+n] = &Abs{Tags: t}
				}
			}
		}
	}
	switch a := x.Addr.(type) {
	case *ssa.IndexAddr:
		if !l.tracked(a.X.Type()) {
			return
		}
		ids := tagsWith(e.eval(st, a.X).Tags, "sl:")
		val := e.eval(st, x.Val)
		src, passed := l.scoreTags(e, st, val, x.Val.Type())
		for _, id := range ids {
			if len(src) == 1 && src[0][3:] == id { // elements change places
				continue
			}
			l.put(st, id, src, passed || st.prop["nothr"] != "", false, false)
		}
	case *ssa.FieldAddr:
		if !isScoreField(a.X.Type(), fieldName(derefT(a.X.Type()), a.Field)) {
			return
		}
		for _, id := range l.srcIDs(e, st, a) {
			id = id[3:]
			delete(st.prop, "ord:"+id)
			st.prop["src:"+id] = "-"
			if !tagHas(e.eval(st, x.Val).Tags, "tp") {
				st.prop["th:"+id] = "0"
			}
		}
	}
}

func (l *topkPlugin) Rel(e *Eng, fr *Frame, st *State, op token.Token, x, y ssa.Value) {
	a, b := e.eval(st, x), e.eval(st, y)
	less := func(a, b *Abs, strict bool, bv ssa.Value) { // a < b or a <= b
		if tagHas(a.Tags, "lim") && isConstLE(bv, 0, strict) {
			st.prop["nolim"] = "1"
		}
		if tagHas(a.Tags, "thr") && isConstLE(bv, 0, strict) {
			st.prop["nothr"] = "1"
		}
		if isConstLE(bv, 1, strict) { // one element is in order
			for _, id := range tagsWith(a.Tags, "len:") {
				st.prop["ord:"+id] = "1"
			}
		}
		if tagHas(b.Tags, "lim") {
			for _, id := range tagsWith(a.Tags, "len:") {
				if strict {
					st.prop["n:"+id] = "lt"
				} else if st.prop["n:"+id] == "" {
					st.prop["n:"+id] = "le"
				}
			}
		}
	}
	switch op {
	case token.LSS:
		less(a, b, true, y)
	case token.LEQ:
		less(a, b, false, y)
	case token.GTR:
		less(b, a, true, x)
	case token.GEQ:
		less(b, a, false, x)
	}
	// score >= threshold
	pass := func(score ssa.Value) {
		if score.Parent() == fr.fn {
			st.prop[passKey(score)] = "1"
		}
		for _, s := range storedTo(score) {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !isScoreField(fa.X.Type(), fieldName(derefT(fa.X.Type()), fa.Field)) {
				continue
			}
			if base := e.eval(st, fa.X); base.Path != "" {
				e.setFact(st, base.Path+"."+fieldName(derefT(fa.X.Type()), fa.Field), func(a *Abs) *Abs {
					b := a.clone()
					b.Tags, b.k = tagUnion(b.Tags, "tp"), ""
					return b
				})
			}
		}
		e.setVal(st, score, func(a *Abs) *Abs {
			b := a.clone()
			b.Tags, b.k = tagUnion(b.Tags, "tp"), ""
			return b
		})
		if c, ok := score.(*ssa.Convert); ok {
			score = c.X
		}
		if f, ok := score.(*ssa.Field); ok && isScoreField(f.X.Type(), fieldName(f.X.Type(), f.Field)) {
			b := e.eval(st, f.X).clone()
			b.Tags, b.k = tagUnion(b.Tags, "tp"), ""
			st.env[f.X] = b
		}
		if u, ok := score.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				// an element reached through a pointer or a copy of it
				base := e.eval(st, fa.X)
				if base.Path != "" {
					e.setFact(st, base.Path+"."+fieldName(derefT(fa.X.Type()), fa.Field), func(a *Abs) *Abs {
						b := a.clone()
						b.Tags, b.k = tagUnion(b.Tags, "tp"), ""
						return b
					})
				}
			}
		}
	}
	if op == token.GEQ && tagHas(b.Tags, "thr") {
		pass(x)
	}
	if op == token.LEQ && tagHas(a.Tags, "thr") {
		pass(y)
	}
}

func isConstLE(v ssa.Value, n int64, strict bool) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	f, _ := constant.Float64Val(constant.ToFloat(c.Value))
	return f <= float64(n) || strict && f <= float64(n)+1 && constant.ToInt(c.Value).Kind() == constant.Int && f == float64(n)+1
}

func (l *topkPlugin) Compare(e *Eng, fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	if !eq {
		return true
	}
	if isConstLE(x, 0, false) {
		x, y = y, x
	}
	a := e.eval(st, x)
	if isConstLE(y, 0, false) {
		if tagHas(a.Tags, "lim") {
			st.prop["nolim"] = "1"
		}
		if tagHas(a.Tags, "thr") {
			st.prop["nothr"] = "1"
		}
		return true
	}
	b := e.eval(st, y)
	if tagHas(a.Tags, "lim") {
		a, b = b, a
	}
	if tagHas(b.Tags, "lim") {
		for _, id := range tagsWith(a.Tags, "len:") {
			if st.prop["n:"+id] == "" {
				st.prop["n:"+id] = "le"
			}
		}
	}
	return true
}

func (l *topkPlugin) Call(e *Eng, fr *Frame, st *State, c *CallSite) (bool, []Outcome) {
	if strings.HasPrefix(c.Name, "(*database/sql.") {
		m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
		switch {
		case m == "Next":
			t := tagFilter(c.Args[0].Tags, func(t string) bool { return t == "rl" || t == "ro" })
			no := st.clone()
			delete(no.prop, "row")
			delete(st.prop, "row")
			if t != "" {
				st.prop["row"] = t
			}
			return true, []Outcome{{st: st, res: &Abs{B: Yes}}, {st: no, res: &Abs{B: No}}}
		case strings.HasPrefix(m, "Query") && !strings.HasPrefix(m, "QueryRow"):
			row := &Abs{Nil: No, Tags: l.rowTags(e, st, c)}
			return true, []Outcome{{st: st, res: &Abs{Tup: []*Abs{row, {Nil: Yes}}}}, {st: st.clone(), res: &Abs{Tup: []*Abs{{Nil: Yes}, {Nil: No}}}}}
		}
		return false, nil
	}
	switch c.Name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		l.sorted(e, fr, st, c, c.ArgVals[0], c.Args[0], funcOf(c.Args[1]))
		return true, []Outcome{{st: st, res: absUnk}}
	case "sort.Sort", "sort.Stable":
		l.sorted(e, fr, st, c, c.ArgVals[0], c.Args[0], lessMethod(l.p, c.ArgVals[0]))
		return true, []Outcome{{st: st, res: absUnk}}
	}
	return false, nil
}

var limitEnd = regexp.MustCompile(`(?is)\blimit\s+\?\s*;?\s*$`)

// rowTags: rl: the statement answers with no more rows than the limit, ro: with rows in an order of its own.
func (l *topkPlugin) rowTags(e *Eng, st *State, c *CallSite) string {
	q := sqlArg(c)
	if q == nil || q.Str == nil || q.Str.top || len(q.Str.alts) == 0 {
		return ""
	}
	limited, ordered := true, true
	for _, s := range q.Str.alts {
		text := ""
		for _, p := range s {
			if p.K == pLit {
				text += p.S
			} else {
				text += " {} "
			}
		}
		if !limitEnd.MatchString(text) {
			limited = false
		}
		if !strings.Contains(strings.ToLower(text), "order by") {
			ordered = false
		}
	}
	t := ""
	if limited {
		al := e.listOf(st, c.Args[len(c.Args)-1])
		if l.dump {
			fmt.Fprintf(os.Stderr, "limit args %v\n", al)
		}
		limited = al != nil && !al.top && len(al.alts) > 0
		if limited {
			for _, s := range al.alts {
				for len(s) > 0 && s[len(s)-1].K == pEnd {
					s = s[:len(s)-1]
				}
				if len(s) == 0 || s[len(s)-1].K != pHole || s[len(s)-1].S != "lim" {
					limited = false
				}
			}
		}
	}
	if limited {
		t = tagUnion(t, "rl")
	}
	if ordered {
		t = tagUnion(t, "ro")
	}
	return t
}

func funcOf(a *Abs) *ssa.Function {
	if a == nil {
		return nil
	}
	return a.Fn
}

func lessMethod(p *Prog, v ssa.Value) *ssa.Function {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	sel := p.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Less")
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (l *topkPlugin) sorted(e *Eng, fr *Frame, st *State, c *CallSite, v ssa.Value, a *Abs, less *ssa.Function) {
	ids := tagsWith(a.Tags, "sl:")
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	_, ok := rankedSlice(v.Type())
	if len(ids) == 0 || !ok {
		return
	}
	l.sorts[c.Instr] = true
	et := v.Type().Underlying().(*types.Slice).Elem()
	_, up := scoreField(et)
	if l.nearest {
		up = false
	}
	res := ""
	main := mainScores(c.Instr.Parent(), et)
	for _, f := range scoreFields(et) {
		ok := false
		for _, m := range main {
			ok = ok || m == f || sameScore(c.Instr.Parent(), et, f, m)
		}
		if !ok {
			continue
		}
		if x := ranksBy(less, f, up); res == "" || x == "1" || x == "?" && res != "1" {
			res = x
		}
	}
	if l.dump {
		fmt.Fprintf(os.Stderr, "sort %s %v = %s\n", l.p.pos(c.Pos()), ids, res)
	}
	for _, id := range ids {
		st.prop["ord:"+id] = res
		delete(st.prop, "src:"+id)
	}
}

// ranksBy decides whether a comparison function puts the better score first: on every path,
// the outcome must be right whenever the two scores differ.
func ranksBy(less *ssa.Function, field string, up bool) string {
	if less == nil || len(less.Blocks) == 0 {
		return "?"
	}
	np := len(less.Params)
	if np < 2 {
		return "?"
	}
	var side func(v ssa.Value, scored bool) int
	side = func(v ssa.Value, scored bool) int {
		switch x := v.(type) {
		case *ssa.Parameter:
			if scored {
				for i := 0; i < 2; i++ {
					if less.Params[np-2+i] == x {
						return i
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return side(x.X, scored)
			}
		case *ssa.IndexAddr:
			return side(x.Index, scored)
		case *ssa.Index:
			return side(x.Index, scored)
		case *ssa.FieldAddr:
			n := fieldName(derefT(x.X.Type()), x.Field)
			if n == field {
				return side(x.X, true)
			}
			if scored {
				return side(x.X, true)
			}
		case *ssa.Field:
			n := fieldName(x.X.Type(), x.Field)
			if n == field || scored {
				return side(x.X, true)
			}
		case *ssa.Convert:
			return side(x.X, scored)
		case *ssa.Alloc:
			var val ssa.Value
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					if val != nil {
						return -1
					}
					val = s.Val
				}
			}
			if val != nil {
				return side(val, scored)
			}
		}
		return -1
	}
	const lt, eq, gt = 1, 2, 4 // score of the first argument against the second's
	rel := func(op token.Token) int {
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return lt | eq
		case token.GTR:
			return gt
		case token.GEQ:
			return gt | eq
		case token.EQL:
			return eq
		case token.NEQ:
			return lt | gt
		}
		return 0
	}
	cmp := func(v ssa.Value) int { // relations under which a comparison of the scores holds, 0: none
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return 0
		}
		x, y := side(b.X, false), side(b.Y, false)
		if x == 0 && y == 1 {
			return rel(b.Op)
		}
		if x == 1 && y == 0 {
			r := rel(b.Op)
			return r&eq | (r&lt)<<2 | (r&gt)>>2
		}
		return 0
	}
	first, second := gt, lt // the first goes first exactly if its score is higher
	if !up {
		first, second = lt, gt
	}
	verdict := "1"
	bad := func(r int, before bool) {
		if before && r&second != 0 || !before && r&first != 0 {
			verdict = "bad"
		}
	}
	steps := 0
	var walk func(b, pred *ssa.BasicBlock, r int, env map[ssa.Value]ssa.Value)
	walk = func(b, pred *ssa.BasicBlock, r int, env map[ssa.Value]ssa.Value) {
		if steps++; steps > 2000 || r == 0 {
			return
		}
		env2 := map[ssa.Value]ssa.Value{}
		for k, v := range env {
			env2[k] = v
		}
		res := func(v ssa.Value) ssa.Value {
			for i := 0; i < 8; i++ {
				if w, ok := env2[v]; ok {
					v = w
				}
			}
			return v
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == pred {
						env2[x] = res(x.Edges[i])
					}
				}
			case *ssa.If:
				c := res(x.Cond)
				neg := false
				for {
					u, ok := c.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					c, neg = res(u.X), !neg
				}
				if k, ok := c.(*ssa.Const); ok && k.Value != nil {
					i := 1
					if constant.BoolVal(k.Value) != neg {
						i = 0
					}
					walk(b.Succs[i], b, r, env2)
					return
				}
				m := cmp(c)
				t, f := r, r
				if m != 0 {
					t, f = r&m, r&^m
				}
				if neg {
					t, f = f, t
				}
				walk(b.Succs[0], b, t, env2)
				walk(b.Succs[1], b, f, env2)
				return
			case *ssa.Jump:
				walk(b.Succs[0], b, r, env2)
				return
			case *ssa.Return:
				if len(x.Results) != 1 {
					verdict = "?"
					return
				}
				v := res(x.Results[0])
				neg := false
				for {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.NOT && u.Op != token.SUB {
						break
					}
					v, neg = res(u.X), !neg
				}
				switch y := v.(type) {
				case *ssa.Const:
					if y.Value == nil {
						return
					}
					if y.Value.Kind() == constant.Bool {
						bad(r, constant.BoolVal(y.Value) != neg)
					} else if s := constant.Sign(y.Value); s != 0 {
						bad(r, (s < 0) != neg)
					} else {
						bad(r, true)
						bad(r, false)
					}
				case *ssa.BinOp:
					m := cmp(y)
					if m == 0 { // by something else: only if the scores are equal
						if r&^eq != 0 && verdict == "1" {
							verdict = "bad"
						}
						return
					}
					if neg {
						m = (lt | eq | gt) &^ m
					}
					if m == lt|gt {
						verdict = "bad"
					}
					bad(r&m, true)
					bad(r&^m, false)
				case *ssa.Call:
					if n := callName(&y.Call); n == "cmp.Compare" && len(y.Call.Args) == 2 {
						i, j := side(y.Call.Args[0], false), side(y.Call.Args[1], false)
						if i == j || i < 0 || j < 0 {
							verdict = "?"
							return
						}
						// negative: first argument of Compare lower
						lowerFirst := i == 0
						if neg {
							lowerFirst = !lowerFirst
						}
						if lowerFirst == up {
							verdict = "bad"
						}
						return
					}
					if verdict == "1" {
						verdict = "?"
					}
				default:
					if verdict == "1" {
						verdict = "?"
					}
				}
				return
			}
		}
	}
	walk(less.Blocks[0], nil, lt|eq|gt, nil)
	if steps > 2000 {
		return "?"
	}
	return verdict
}

// ---------- roots ----------

type topkRoot struct {
	fn       *ssa.Function
	lim, thr []string
}

// topkOwnOrder: operations whose purpose is an order other than by score.
var topkOwnOrder = map[string]bool{
	"(*core.SQLiteStore).SearchWithDiversity": true,
	"(*core.SQLiteStore).SearchWithReranker":  true, // the reranker is the caller's
}

// topkNearest: the score of a result is its distance.
var topkNearest = map[string]bool{
	"(*core.SQLiteStore).RangeSearch":      true,
	"(*core.SQLiteStore).BatchRangeSearch": true,
}

// topkNoThreshold: the scores answered are not similarities a threshold could be compared with.
var topkNoThreshold = map[string]bool{
	"(*core.SQLiteStore).HybridSearch":      true, // fused ranks; the threshold selects the vector matches
	"(*core.SQLiteStore).FindAnomalies":     true, // distances
	"(*core.SQLiteStore).RangeSearch":       true, // distances
	"(*core.SQLiteStore).SearchMultiVector": true, // aggregates; the threshold applies per field
	"(*graph.GraphStore).HybridSearch":      true, // weighted; the threshold selects the vector matches
	"(*graph.GraphStore).HNSWHybridSearch":  true,
}

func limitName(n string) bool {
	switch strings.ToLower(n) {
	case "topk", "k", "limit", "maxresults":
		return true
	}
	return false
}

func topkSources(path string, t types.Type, depth int) (lim, thr []string) {
	s, ok := derefT(t).Underlying().(*types.Struct)
	if !ok || depth > 2 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		b, _ := f.Type().Underlying().(*types.Basic)
		switch {
		case b != nil && b.Info()&types.IsInteger != 0 && limitName(f.Name()):
			lim = append(lim, path+"."+f.Name())
		case b != nil && b.Info()&types.IsFloat != 0 && (f.Name() == "Threshold" || f.Name() == "MinScore"):
			thr = append(thr, path+"."+f.Name())
		case f.Embedded():
			a, c := topkSources(path+"."+f.Name(), f.Type(), depth+1)
			lim, thr = append(lim, a...), append(thr, c...)
		}
	}
	return
}

func init() {
	register("Q01", func(p *Prog) *Result {
		r := &Result{Counts: map[string]int{}, Minimums: map[string]int{"roots": 10, "rankings": 5, "cuts": 5}}
		findings := map[string]*Finding{}
		sorts, cuts, appends := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
		visited := map[*ssa.Function]bool{}
		roots := p.exportedRoots("core", "graph", "cortexdb", "hindsight", "geo", "index")
		isRoot := map[*ssa.Function]bool{}
		for _, fn := range roots {
			isRoot[fn] = true
		}
		for _, fn := range p.allFuncs { // what the composite operations are made of
			if k := pkgName(fn); k == "cortexdb" && !isRoot[fn] && fn.Parent() == nil && fn.Signature.Recv() != nil && len(fn.Blocks) > 0 {
				roots = append(roots, fn)
			}
		}
		for _, fn := range roots {
			if only := os.Getenv("SCOPE_ONLY"); only != "" && fnName(fn) != only {
				continue
			}
			out, scored := -1, false
			rows := map[string]bool{}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				t := fn.Signature.Results().At(i).Type()
				et, ok := rankedSlice(t)
				if ok {
					out, scored = i, true
				} else if et != nil && isStruct(derefT(et)) && out < 0 {
					out = i
					rows[et.String()], rows["string"] = true, true
				}
			}
			if out < 0 {
				continue
			}
			var lim, thr []string
			over := map[int]*Abs{}
			heap := map[string]*Abs{}
			for i, prm := range fn.Params {
				if i == 0 && fn.Signature.Recv() != nil {
					continue
				}
				path := fmt.Sprintf("p%d_%s", i, pathSafe(prm.Type()))
				if b, ok := prm.Type().Underlying().(*types.Basic); ok {
					if b.Info()&types.IsInteger != 0 && limitName(prm.Name()) {
						over[i] = &Abs{Tags: "lim", Str: &Tmpl{alts: []Seq{{{K: pHole, S: "lim"}}}}}
						lim = append(lim, path)
					}
					if b.Info()&types.IsFloat != 0 && strings.EqualFold(prm.Name(), "threshold") {
						over[i] = &Abs{Tags: "thr"}
						thr = append(thr, path)
					}
					continue
				}
				a, c := topkSources(path, prm.Type(), 0)
				lim, thr = append(lim, a...), append(thr, c...)
			}
			if topkNoThreshold[fnName(fn)] || !scored {
				thr = nil
			}
			if len(lim) == 0 && len(thr) == 0 {
				continue
			}
			for _, x := range lim {
				heap[x] = &Abs{Tags: "lim", Str: &Tmpl{alts: []Seq{{{K: pHole, S: "lim"}}}}}
			}
			for _, x := range thr {
				heap[x] = &Abs{Tags: "thr"}
			}
			r.Counts["roots"]++
			l := &topkPlugin{p: p, findings: findings, sorts: sorts, cuts: cuts, appends: appends, judgeCut: !topkOwnOrder[fnName(fn)], nearest: topkNearest[fnName(fn)], dump: os.Getenv("SCOPE_DUMP") != "", rows: rows}
			e := NewEng(p, l)
			e.deep, e.keepStr, e.anonHoles, e.splitBool = true, true, true, true
			e.argOver = over
			exits := e.RunRoot(fn, nil, heap)
			for f := range e.visited {
				visited[f] = true
			}
			var zeros map[string]*Abs
			for _, x := range lim {
				if h := heap[x]; h != nil && strings.Contains(x, ".") {
					if zeros == nil {
						zeros = map[string]*Abs{}
						for k, v := range heap {
							zeros[k] = v
						}
					}
					z, n := h.clone(), int64(0)
					z.N, z.k = &n, ""
					zeros[x] = z
				}
			}
			if zeros != nil {
				r.Counts["zero_limit_roots"]++
				lz := &topkPlugin{p: p, findings: map[string]*Finding{}, sorts: sorts, cuts: cuts, appends: appends, nearest: l.nearest, rows: rows, zero: true}
				ez := NewEng(p, lz)
				ez.deep, ez.keepStr, ez.anonHoles, ez.splitBool = true, true, true, true
				ez.argOver = over
				ez.RunRoot(fn, nil, zeros)
				for k, f := range lz.findings {
					if f.Rule == "limit-zero" && findings[k] == nil {
						findings[k] = f
					}
				}
			}
			ei := errIndex(fn.Signature)
			add := func(rule, msg string) {
				k := rule + "|" + fnName(fn)
				if findings[k] == nil {
					findings[k] = &Finding{Rule: rule, Construct: fnName(fn), Pos: p.pos(fn.Pos()), Msg: msg, Chain: fnName(fn)}
				}
			}
			for _, x := range exits {
				if ei >= 0 && x.res[ei].Nil == No {
					continue
				}
				a := x.res[out]
				if a.Nil == Yes || a.Emp == Yes {
					continue
				}
				ids := tagsWith(a.Tags, "sl:")
				if l.dump {
					fmt.Fprintf(os.Stderr, "exit %s ids=%v prop=%v\n", fnName(fn), ids, x.prop)
				}
				if len(ids) == 0 {
					r.Counts["not_followed"]++
					continue
				}
				for _, id := range ids {
					if len(lim) > 0 && x.prop["nolim"] == "" && x.prop["n:"+id] == "" {
						add("over-limit", fmt.Sprintf("%s may answer with more results than %s asks for", fnName(fn), strings.Join(lim, ", ")))
					}
					if scored && !topkOwnOrder[fnName(fn)] {
						switch x.prop["ord:"+id] {
						case "":
							add("unranked", fmt.Sprintf("%s may answer with results that are not ranked by score", fnName(fn)))
						case "bad":
							add("misranked", fmt.Sprintf("%s ranks worse results before better ones", fnName(fn)))
						}
					}
					if len(thr) > 0 && x.prop["nothr"] == "" && x.prop["th:"+id] == "0" {
						add("below-threshold", fmt.Sprintf("%s may answer with results that were not compared with %s", fnName(fn), strings.Join(thr, ", ")))
					}
				}
			}
			for _, k := range sortedKeys(e.overflow) {
				r.add(&Finding{Rule: "undecided", Construct: k, Pos: "-", Msg: "state space overflow"})
			}
		}
		r.Counts["rankings"], r.Counts["cuts"], r.Counts["appends"], r.Counts["functions"] = len(sorts), len(cuts), len(appends), len(visited)
		keys := sortedKeys(findings)
		sort.Strings(keys)
		r.Counts["relevance_scores"] = relevance(p, func(construct, pos, msg string) {
			r.add(&Finding{Rule: "relevance", Construct: construct, Pos: pos, Msg: msg})
		})
		for _, k := range keys {
			r.add(findings[k])
		}
		return r
	})
}
