package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Tmpl is a finite set of string templates. A template is a sequence of parts;
// list-valued templates (slices of strings) terminate each element with an End part.
type partKind int8

const (
	pLit  partKind = iota
	pHole          // unknown text; S names where it came from
	pStar          // zero or more repetitions of Sub
	pEnd           // end of a list element
)

type Part struct {
	K   partKind
	S   string
	Sub []Seq // alternatives of one repetition
}

type Seq []Part

type Tmpl struct {
	alts []Seq
	top  bool
	k    string
}

const maxAlts = 40

func (p Part) key() string {
	switch p.K {
	case pLit:
		return p.S
	case pHole:
		return "\x0e" + p.S + "\x0f"
	case pStar:
		l := make([]string, len(p.Sub))
		for i, a := range p.Sub {
			l[i] = a.key()
		}
		sort.Strings(l)
		return "\x10" + strings.Join(l, "\x14") + "\x11"
	}
	return "\x12"
}
func (s Seq) key() string {
	var sb strings.Builder
	for _, p := range s {
		sb.WriteString(p.key())
	}
	return sb.String()
}
func (t *Tmpl) key() string {
	if t == nil {
		return "nil"
	}
	if t.k == "" {
		if t.top {
			t.k = "TOP"
		} else {
			l := make([]string, len(t.alts))
			for i, a := range t.alts {
				l[i] = a.key()
			}
			sort.Strings(l)
			t.k = strings.Join(l, "\x13")
		}
	}
	return t.k
}

func litTmpl(s string) *Tmpl {
	if s == "" {
		return &Tmpl{alts: []Seq{{}}}
	}
	return &Tmpl{alts: []Seq{{{K: pLit, S: s}}}}
}
func holeTmpl(a *Abs) *Tmpl {
	n := "?"
	if a != nil && a.Path != "" {
		n = a.Path
	}
	return &Tmpl{alts: []Seq{{{K: pHole, S: n}}}}
}
func emptyList() *Tmpl { return &Tmpl{alts: []Seq{{}}} }

var topTmpl = &Tmpl{top: true}

func normSeq(s Seq) Seq {
	var r Seq
	for _, p := range s {
		if p.K == pLit {
			if p.S == "" {
				continue
			}
			if n := len(r); n > 0 && r[n-1].K == pLit {
				r[n-1] = Part{K: pLit, S: r[n-1].S + p.S}
				continue
			}
		}
		if p.K == pStar {
			if len(p.Sub) == 0 {
				continue
			}
			if n := len(r); n > 0 && r[n-1].K == pStar {
				r[n-1] = Part{K: pStar, Sub: unionSubs(r[n-1].Sub, p.Sub)}
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

func mkTmpl(alts []Seq) *Tmpl {
	seen := map[string]bool{}
	var r []Seq
	for _, a := range alts {
		a = normSeq(a)
		k := a.key()
		if !seen[k] {
			seen[k] = true
			r = append(r, a)
		}
		if len(k) > 20000 {
			return topTmpl
		}
	}
	if len(r) > maxAlts {
		return topTmpl
	}
	return &Tmpl{alts: r}
}

func concatTmpl(a, b *Tmpl) *Tmpl {
	if a.top || b.top {
		return topTmpl
	}
	if len(a.alts)*len(b.alts) > 4*maxAlts {
		return topTmpl
	}
	var out []Seq
	for _, x := range a.alts {
		for _, y := range b.alts {
			s := append(append(Seq{}, x...), y...)
			out = append(out, s)
		}
	}
	return mkTmpl(out)
}

// joinTmpl unions; an alternative that extends another one by a suffix (a loop) is
// widened to prefix + Star(suffix).
func joinTmpl(a, b *Tmpl) *Tmpl {
	if a.top || b.top {
		return topTmpl
	}
	if a.key() == b.key() {
		return a
	}
	alts := append(append([]Seq{}, a.alts...), b.alts...)
	parts := 0
	for _, x := range alts {
		parts += len(x)
	}
	if parts > 400 {
		return topTmpl
	}
	alts = collapseAlts(widenAlts(alts))
	return mkTmpl(alts)
}

// collapseAlts: the many ways round a loop that strings a few fragments together (a hand-written
// Join) are covered by any sequence of the fragments.
func collapseAlts(alts []Seq) []Seq {
	if len(alts) < 4 {
		return alts
	}
	seen := map[string]Part{}
	var keys []string
	stars := 0
	var walk func(s Seq) bool
	walk = func(s Seq) bool {
		for _, p := range s {
			switch p.K {
			case pEnd:
				return false // lists keep their elements apart
			case pStar:
				stars++
				for _, x := range p.Sub {
					if !walk(x) {
						return false
					}
				}
			default:
				if p.K == pLit {
					for _, w := range strings.Fields(strings.ToLower(p.S)) {
						switch strings.TrimLeft(w, "(") {
						case "select", "insert", "update", "delete", "where", "from":
							return false
						}
					}
				}
				k := (Seq{p}).key()
				if _, ok := seen[k]; !ok {
					seen[k] = p
					keys = append(keys, k)
				}
			}
		}
		return true
	}
	for _, a := range alts {
		if !walk(a) {
			return alts
		}
	}
	if stars < 2 || len(keys) > 8 {
		return alts
	}
	sort.Strings(keys)
	var subs []Seq
	for _, k := range keys {
		subs = append(subs, Seq{seen[k]})
	}
	return []Seq{{{K: pStar, Sub: subs}}}
}

func unionSubs(a, b []Seq) []Seq {
	seen := map[string]bool{}
	var r []Seq
	for _, x := range append(append([]Seq{}, a...), b...) {
		if len(x) == 0 {
			continue
		}
		if k := x.key(); !seen[k] {
			seen[k] = true
			r = append(r, x)
		}
	}
	return r
}

// decomposes reports whether k is a concatenation of repetitions of subs.
func decomposes(k string, subs []Seq) bool {
	if k == "" {
		return true
	}
	for _, s := range subs {
		if sk := s.key(); sk != "" && strings.HasPrefix(k, sk) && decomposes(k[len(sk):], subs) {
			return true
		}
	}
	// a Star over a subset of the same repetitions
	return false
}

func widenAlts(alts []Seq) []Seq {
	for i := range alts {
		alts[i] = normSeq(alts[i])
	}
	for round := 0; round < 40; round++ {
		changed := false
	outer:
		for i := range alts {
			for j := range alts {
				if i == j {
					continue
				}
				if w, ok := widenPair(alts[i], alts[j], len(alts) > 3); ok {
					var n []Seq
					for k := range alts {
						if k != i && k != j {
							n = append(n, alts[k])
						}
					}
					alts = append(n, normSeq(w))
					changed = true
					break outer
				}
			}
		}
		if !changed {
			return alts
		}
	}
	return alts
}

// widenPair: if y extends x by a suffix that x shows to be repeating, one template
// x Star(suffix) covers both. force widens any prefix pair.
func widenPair(x, y Seq, force bool) (Seq, bool) {
	if x.key() == y.key() {
		return x, true
	}
	suf, ok := stripPrefix(y, x)
	if !ok || len(suf) == 0 {
		if n := len(x); force && n > 1 && x[n-1].K == pStar {
			// another way round the same loop
			if rest, ok := stripPrefix(y, x[:n-1]); ok && len(rest) > 0 {
				subs := append([]Seq{}, x[n-1].Sub...)
				var plain Seq
				for _, p := range rest {
					if p.K == pStar {
						subs = append(subs, p.Sub...)
					} else {
						plain = append(plain, p)
					}
				}
				subs = unionSubs(subs, []Seq{normSeq(plain)})
				if len(subs) <= 12 {
					return append(append(Seq{}, x[:n-1]...), Part{K: pStar, Sub: subs}), true
				}
			}
		}
		return nil, false
	}
	if len(suf) == 1 && suf[0].K == pStar {
		return y, true // zero repetitions of y
	}
	sk := suf.key()
	if n := len(x); n > 0 && x[n-1].K == pStar {
		if decomposes(sk, x[n-1].Sub) {
			return x, true // absorbed
		}
		if !hasStar(suf) {
			r := append(Seq{}, x[:n-1]...)
			return append(r, Part{K: pStar, Sub: unionSubs(x[n-1].Sub, []Seq{suf})}), true
		}
	}
	if z, ok := stripSuffix(x, suf); ok && !hasStar(suf) {
		r := append(append(Seq{}, z...), suf...)
		return append(r, Part{K: pStar, Sub: []Seq{suf}}), true
	}
	if force {
		subs := []Seq{}
		var plain Seq
		for _, p := range suf {
			if p.K == pStar {
				subs = append(subs, p.Sub...)
			} else {
				plain = append(plain, p)
			}
		}
		subs = unionSubs(subs, []Seq{normSeq(plain)})
		return append(append(Seq{}, x...), Part{K: pStar, Sub: subs}), true
	}
	return nil, false
}

func hasStar(s Seq) bool {
	for _, p := range s {
		if p.K == pStar {
			return true
		}
	}
	return false
}

func stripPrefix(y, x Seq) (Seq, bool) {
	i := 0
	for i < len(x) {
		if i >= len(y) {
			return nil, false
		}
		if x[i].key() == y[i].key() && x[i].K == y[i].K {
			i++
			continue
		}
		if i == len(x)-1 && x[i].K == pLit && y[i].K == pLit && strings.HasPrefix(y[i].S, x[i].S) {
			r := append(Seq{{K: pLit, S: y[i].S[len(x[i].S):]}}, y[i+1:]...)
			return normSeq(r), true
		}
		return nil, false
	}
	return append(Seq{}, y[i:]...), true
}

func stripSuffix(y, s Seq) (Seq, bool) {
	i, j := len(y)-1, len(s)-1
	for j >= 0 {
		if i < 0 {
			return nil, false
		}
		if y[i].K == s[j].K && y[i].key() == s[j].key() {
			i--
			j--
			continue
		}
		if j == 0 && y[i].K == pLit && s[j].K == pLit && strings.HasSuffix(y[i].S, s[j].S) {
			r := append(Seq{}, y[:i]...)
			return append(r, Part{K: pLit, S: y[i].S[:len(y[i].S)-len(s[j].S)]}), true
		}
		return nil, false
	}
	return append(Seq{}, y[:i+1]...), true
}

// elems splits a list alternative into elements.
type elemT struct {
	s    Seq
	star bool
}

func listElems(a Seq) ([]elemT, bool) {
	var r []elemT
	var cur Seq
	for _, p := range a {
		switch p.K {
		case pEnd:
			r = append(r, elemT{s: cur})
			cur = nil
		case pStar:
			if len(cur) == 0 {
				all := true
				var add []elemT
				for _, alt := range p.Sub {
					sub, ok := listElems(alt)
					if !ok {
						all = false
						break
					}
					for _, x := range sub {
						add = append(add, elemT{s: x.s, star: true})
					}
				}
				if all {
					r = append(r, add...)
					continue
				}
			}
			cur = append(cur, p)
		default:
			cur = append(cur, p)
		}
	}
	return r, len(cur) == 0
}

// elem is the template of one element (index known or not).
func (t *Tmpl) elem(n *int64) *Tmpl {
	if t.top {
		return topTmpl
	}
	var out []Seq
	for _, a := range t.alts {
		es, ok := listElems(a)
		if !ok {
			return topTmpl
		}
		for i, x := range es {
			if n != nil {
				exact := true
				for _, y := range es[:min(i+1, len(es))] {
					if y.star {
						exact = false
					}
				}
				if exact && int64(i) != *n {
					continue
				}
				if exact && int64(i) == *n {
					out = append(out, x.s)
					break
				}
			}
			out = append(out, x.s)
		}
	}
	if len(out) == 0 {
		return topTmpl
	}
	return mkTmpl(out)
}

// textTmpl replaces a completely unknown text by a hole, so that what surrounds it stays known.
func textTmpl(t *Tmpl) *Tmpl {
	if t.top {
		return &Tmpl{alts: []Seq{{{K: pHole, S: "*"}}}}
	}
	return t
}

func listElem(t *Tmpl) *Tmpl {
	return concatTmpl(textTmpl(t), &Tmpl{alts: []Seq{{{K: pEnd}}}})
}

func joinList(t *Tmpl, sep *Tmpl) *Tmpl {
	if t.top || sep.top || len(sep.alts) != 1 {
		return topTmpl
	}
	sp := sep.alts[0]
	var out []Seq
	for _, a := range t.alts {
		es, ok := listElems(a)
		if !ok {
			return topTmpl
		}
		var rec func(i int, first bool, acc Seq)
		rec = func(i int, first bool, acc Seq) {
			if len(out) > maxAlts {
				return
			}
			if i == len(es) {
				out = append(out, acc)
				return
			}
			x := es[i]
			if !x.star {
				n := append(Seq{}, acc...)
				if !first {
					n = append(n, sp...)
				}
				n = append(n, x.s...)
				rec(i+1, false, n)
				return
			}
			unit := append(append(Seq{}, sp...), x.s...)
			if !first {
				n := append(append(Seq{}, acc...), Part{K: pStar, Sub: []Seq{unit}})
				rec(i+1, false, n)
				return
			}
			rec(i+1, true, acc)
			n := append(append(append(Seq{}, acc...), x.s...), Part{K: pStar, Sub: []Seq{unit}})
			rec(i+1, false, n)
		}
		rec(0, true, Seq{})
	}
	return mkTmpl(out)
}

// arrayTmpl builds the list template of a literal array (variadic or composite literal).
func (e *Eng) arrayTmpl(st *State, v *ssa.Slice, a *Abs) *Tmpl {
	arr, ok := derefT(v.X.Type()).Underlying().(*types.Array)
	if !ok || a.Path == "" || arr.Len() > 64 {
		return nil
	}
	r := emptyList()
	for i := int64(0); i < arr.Len(); i++ {
		x := st.heap[fmt.Sprintf("%s[%d]", a.Path, i)]
		if x == nil {
			x = absUnk
		}
		t := e.strOf(x)
		if t.top && e.anonHoles {
			t = holeTmpl(nil) // unknown text in a known place
		}
		r = concatTmpl(r, listElem(t))
	}
	return r
}

func (e *Eng) stringFuncs(st *State, c *CallSite) (*Abs, bool) {
	switch c.Name {
	case "fmt.Sprintf":
		f := c.Args[0].Str
		l := c.Args[1].Str
		tags := tagUnion(c.Args[0].Tags, e.contentTags(st, c.Args[1]))
		if f == nil || f.top || len(f.alts) != 1 {
			return &Abs{Str: topTmpl, Tags: tags}, true
		}
		if l == nil {
			if c.Args[1].Nil == Yes {
				l = emptyList()
			} else {
				return &Abs{Str: topTmpl, Tags: tags}, true
			}
		}
		return &Abs{Str: sprintfTmpl(f.alts[0], l), Tags: tags, Emp: No}, true
	case "strings.Join":
		l := e.listOf(st, c.Args[0])
		tags := tagUnion(c.Args[0].Tags, e.contentTags(st, c.Args[0]))
		if l == nil {
			return &Abs{Str: topTmpl, Tags: tags}, true
		}
		return &Abs{Str: joinList(l, e.strOf(c.Args[1])), Tags: tags}, true
	case "strings.Repeat":
		return &Abs{Str: starOf(e.strOf(c.Args[0])), Tags: c.Args[0].Tags}, true
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimRight", "strings.TrimLeft":
		t := e.strOf(c.Args[0])
		// Repeat("?,", n) trimmed of ",": ? (, ?)*
		if s, ok := c.ArgVals[1].(*ssa.Const); ok && s.Value != nil && !t.top {
			sep := constant.StringVal(s.Value)
			var out []Seq
			for _, a := range t.alts {
				n := normSeq(a)
				if len(n) > 0 && n[len(n)-1].K == pStar {
					sub := Seq{}
					if len(n[len(n)-1].Sub) == 1 {
						sub = n[len(n)-1].Sub[0]
					}
					if strings.HasSuffix(c.Name, "Suffix") || strings.HasSuffix(c.Name, "Right") {
						if body, ok := stripSuffix(sub, Seq{{K: pLit, S: sep}}); ok {
							unit := append(Seq{{K: pLit, S: sep}}, body...)
							pre := append(Seq{}, n[:len(n)-1]...)
							out = append(out, append(append(append(Seq{}, pre...), body...), Part{K: pStar, Sub: []Seq{unit}}))
							continue
						}
					}
				}
				out = append(out, n)
			}
			t = mkTmpl(out)
		}
		return &Abs{Str: t, Tags: c.Args[0].Tags, Path: c.Args[0].Path}, true
	case "strings.TrimSpace":
		return &Abs{Str: c.Args[0].Str, Tags: c.Args[0].Tags, Path: c.Args[0].Path}, true
	case "strconv.Itoa", "strconv.FormatInt":
		return &Abs{Str: &Tmpl{alts: []Seq{{{K: pHole, S: "#int"}}}}, Emp: No}, true
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		if p := c.Args[0].Path; p != "" {
			cur := st.heap[p+".$sb"]
			ct := litTmpl("")
			tags := ""
			if cur != nil && cur.Str != nil {
				ct = cur.Str
				tags = cur.Tags
			}
			add := e.strOf(c.Args[1])
			if c.Name != "(*strings.Builder).WriteString" {
				if c.Args[1].N != nil {
					add = litTmpl(string(rune(*c.Args[1].N)))
				} else {
					add = &Tmpl{alts: []Seq{{{K: pHole, S: "#char"}}}}
				}
			}
			st.heap[p+".$sb"] = &Abs{Str: concatTmpl(textTmpl(ct), textTmpl(add)), Tags: tagUnion(tags, c.Args[1].Tags)}
		}
		return &Abs{Tup: []*Abs{absUnk, {Nil: Yes}}}, true
	case "(*strings.Builder).String":
		if p := c.Args[0].Path; p != "" {
			if cur := st.heap[p+".$sb"]; cur != nil {
				return cur, true
			}
			return &Abs{Str: litTmpl("")}, true
		}
	}
	return nil, false
}

func starOf(t *Tmpl) *Tmpl {
	if t.top {
		return topTmpl
	}
	var out []Seq
	for _, a := range t.alts {
		out = append(out, Seq{{K: pStar, Sub: []Seq{a}}})
	}
	return mkTmpl(out)
}

// sprintfTmpl substitutes list elements into the verbs of a literal format.
func sprintfTmpl(f Seq, l *Tmpl) *Tmpl {
	if l.top {
		return topTmpl
	}
	var out []Seq
	for _, la := range l.alts {
		es, ok := listElems(la)
		if !ok {
			return topTmpl
		}
		var r Seq
		ei := 0
		for _, p := range f {
			if p.K != pLit {
				r = append(r, p)
				continue
			}
			s := p.S
			for {
				i := strings.IndexByte(s, '%')
				if i < 0 || i == len(s)-1 {
					r = append(r, Part{K: pLit, S: s})
					break
				}
				r = append(r, Part{K: pLit, S: s[:i]})
				j := i + 1
				for j < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[j]) >= 0 {
					j++
				}
				if j >= len(s) {
					break
				}
				verb := s[j]
				s = s[j+1:]
				if verb == '%' {
					r = append(r, Part{K: pLit, S: "%"})
					continue
				}
				if ei < len(es) && !es[ei].star {
					switch verb {
					case 'd', 'f', 'g', 't', 'x', 'e':
						r = append(r, Part{K: pHole, S: "#int"})
					case 'q':
						r = append(r, Part{K: pLit, S: "\""})
						r = append(r, es[ei].s...)
						r = append(r, Part{K: pLit, S: "\""})
					default:
						r = append(r, es[ei].s...)
					}
					ei++
				} else {
					r = append(r, Part{K: pHole, S: "?"})
				}
			}
		}
		out = append(out, r)
	}
	return mkTmpl(out)
}

func (s Seq) String() string {
	var sb strings.Builder
	for _, p := range s {
		switch p.K {
		case pLit:
			sb.WriteString(p.S)
		case pHole:
			sb.WriteString("⟨" + p.S + "⟩")
		case pStar:
			sb.WriteString("{")
			for i, a := range p.Sub {
				if i > 0 {
					sb.WriteString("|")
				}
				sb.WriteString(a.String())
			}
			sb.WriteString("}*")
		case pEnd:
			sb.WriteString("␞")
		}
	}
	return sb.String()
}
