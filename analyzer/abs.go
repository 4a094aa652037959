package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tri is a three-valued fact.
type Tri int8

const (
	Unk Tri = iota
	No
	Yes
)

func triOf(b bool) Tri {
	if b {
		return Yes
	}
	return No
}
func (t Tri) neg() Tri {
	switch t {
	case No:
		return Yes
	case Yes:
		return No
	}
	return Unk
}

// Abs is an immutable abstract value.
type Abs struct {
	Path  string        // identity: the location the value was read from, or of the object pointed to
	Nil   Tri           // Yes: known nil; No: known non-nil
	B     Tri           // boolean value
	Emp   Tri           // Yes: empty string/slice/map; No: non-empty
	N     *int64        // integer constant
	Str   *Tmpl         // string template / slice-of-string template / argument list
	Fn    *ssa.Function // known function value
	Binds []*Abs
	Tup   []*Abs
	Dyn   types.Type
	Alias ssa.Value // boolean phi: the underlying condition
	Tags  string    // sorted, ";"-separated tag set (may-set)
	k     string
}

var absUnk = &Abs{}

func (a *Abs) key() string {
	if a == nil {
		return "_"
	}
	if a.k != "" {
		return a.k
	}
	var sb strings.Builder
	sb.WriteString(a.Path)
	sb.WriteByte('|')
	sb.WriteByte('0' + byte(a.Nil))
	sb.WriteByte('0' + byte(a.B))
	sb.WriteByte('0' + byte(a.Emp))
	if a.N != nil {
		fmt.Fprintf(&sb, "N%d", *a.N)
	}
	if a.Str != nil {
		sb.WriteString("S" + a.Str.key())
	}
	if a.Fn != nil {
		fmt.Fprintf(&sb, "F%p(", a.Fn)
		for _, b := range a.Binds {
			sb.WriteString(b.key() + ",")
		}
		sb.WriteByte(')')
	}
	if a.Tup != nil {
		sb.WriteString("T(")
		for _, b := range a.Tup {
			sb.WriteString(b.key() + ",")
		}
		sb.WriteByte(')')
	}
	if a.Dyn != nil {
		sb.WriteString("D" + a.Dyn.String())
	}
	if a.Alias != nil {
		fmt.Fprintf(&sb, "A%p", a.Alias)
	}
	if a.Tags != "" {
		sb.WriteString("#" + a.Tags)
	}
	a.k = sb.String()
	return a.k
}

func (a *Abs) clone() *Abs {
	if a == nil {
		return &Abs{}
	}
	b := *a
	b.k = ""
	return &b
}
func (a *Abs) isUnk() bool { return a == nil || a.key() == absUnk.key() }

func (a *Abs) withNil(t Tri) *Abs {
	if a != nil && a.Nil == t {
		return a
	}
	b := a.clone()
	b.Nil = t
	return b
}
func (a *Abs) withB(t Tri) *Abs {
	if a != nil && a.B == t {
		return a
	}
	b := a.clone()
	b.B = t
	return b
}
func (a *Abs) withEmp(t Tri) *Abs {
	if a != nil && a.Emp == t {
		return a
	}
	b := a.clone()
	b.Emp = t
	return b
}
func (a *Abs) withPath(p string) *Abs {
	if a != nil && a.Path == p {
		return a
	}
	b := a.clone()
	b.Path = p
	return b
}
func (a *Abs) withTags(t string) *Abs {
	if a != nil && a.Tags == t {
		return a
	}
	b := a.clone()
	b.Tags = t
	return b
}
func (a *Abs) addTags(t string) *Abs {
	if t == "" {
		return a
	}
	cur := ""
	if a != nil {
		cur = a.Tags
	}
	return a.withTags(tagUnion(cur, t))
}
func (a *Abs) hasTag(t string) bool {
	if a == nil {
		return false
	}
	return tagHas(a.Tags, t)
}
func tagHas(tags, t string) bool {
	if tags == "" {
		return false
	}
	for _, x := range strings.Split(tags, ";") {
		if x == t {
			return true
		}
	}
	return false
}
func tagUnion(a, b string) string {
	if a == b || b == "" {
		return a
	}
	if a == "" {
		return b
	}
	m := map[string]bool{}
	for _, x := range strings.Split(a, ";") {
		m[x] = true
	}
	for _, x := range strings.Split(b, ";") {
		m[x] = true
	}
	return joinSet(m)
}
func tagFilter(tags string, keep func(string) bool) string {
	if tags == "" {
		return ""
	}
	m := map[string]bool{}
	for _, x := range strings.Split(tags, ";") {
		if keep(x) {
			m[x] = true
		}
	}
	return joinSet(m)
}
func joinSet(m map[string]bool) string {
	l := make([]string, 0, len(m))
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func joinTri(a, b Tri) Tri {
	if a == b {
		return a
	}
	return Unk
}

func joinAbs(a, b *Abs) *Abs {
	if a == b {
		return a
	}
	if a == nil {
		a = absUnk
	}
	if b == nil {
		b = absUnk
	}
	if a.key() == b.key() {
		return a
	}
	r := &Abs{Nil: joinTri(a.Nil, b.Nil), B: joinTri(a.B, b.B), Emp: joinTri(a.Emp, b.Emp), Tags: tagUnion(a.Tags, b.Tags)}
	if a.Path == b.Path {
		r.Path = a.Path
	} else if a.Nil == Yes && b.Nil != Yes {
		r.Path = b.Path
	} else if b.Nil == Yes && a.Nil != Yes {
		r.Path = a.Path
	}
	if a.N != nil && b.N != nil && *a.N == *b.N {
		r.N = a.N
	}
	if a.Str != nil && b.Str != nil {
		r.Str = joinTmpl(a.Str, b.Str)
	}
	if a.Fn != nil && a.Fn == b.Fn && len(a.Binds) == len(b.Binds) {
		r.Fn = a.Fn
		r.Binds = make([]*Abs, len(a.Binds))
		for i := range a.Binds {
			r.Binds[i] = joinAbs(a.Binds[i], b.Binds[i])
		}
	}
	if len(a.Tup) > 0 && len(a.Tup) == len(b.Tup) {
		r.Tup = make([]*Abs, len(a.Tup))
		for i := range a.Tup {
			r.Tup[i] = joinAbs(a.Tup[i], b.Tup[i])
		}
	}
	if a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn) {
		r.Dyn = a.Dyn
	} else if a.Dyn != nil && b.Nil == Yes {
		r.Dyn = a.Dyn
	} else if b.Dyn != nil && a.Nil == Yes {
		r.Dyn = b.Dyn
	}
	if a.Alias == b.Alias {
		r.Alias = a.Alias
	}
	return r
}

// State is one disjunct.
type State struct {
	prop map[string]string
	heap map[string]*Abs
	env  map[ssa.Value]*Abs
	defs []deferred
	loop map[*ssa.BasicBlock]bool // loop headers already entered through a back edge
}

type deferred struct {
	instr *ssa.Defer
	fn    *Abs
	args  []*Abs
}

func (s *State) clone() *State {
	n := &State{prop: make(map[string]string, len(s.prop)), heap: make(map[string]*Abs, len(s.heap)), env: make(map[ssa.Value]*Abs, len(s.env)+4)}
	for k, v := range s.prop {
		n.prop[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defs = append([]deferred(nil), s.defs...)
	if s.loop != nil {
		n.loop = make(map[*ssa.BasicBlock]bool, len(s.loop))
		for k := range s.loop {
			n.loop[k] = true
		}
	}
	return n
}

func propKey(p map[string]string) string {
	if len(p) == 0 {
		return ""
	}
	l := make([]string, 0, len(p))
	for k, v := range p {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\x00")
}

func heapKey(h map[string]*Abs) string {
	if len(h) == 0 {
		return ""
	}
	l := make([]string, 0, len(h))
	for k, v := range h {
		l = append(l, k+"="+v.key())
	}
	sort.Strings(l)
	return strings.Join(l, "\x00")
}

func (s *State) mergeKey() string {
	var sb strings.Builder
	sb.WriteString(propKey(s.prop))
	for _, d := range s.defs {
		fmt.Fprintf(&sb, "@%p", d.instr)
	}
	if len(s.loop) > 0 {
		var l []int
		for b := range s.loop {
			l = append(l, b.Index)
		}
		sort.Ints(l)
		fmt.Fprintf(&sb, "L%v", l)
	}
	return sb.String()
}

// mergeInto joins src into dst; reports whether dst changed.
func mergeInto(dst, src *State) bool {
	ch := false
	for k, v := range dst.env {
		w, ok := src.env[k]
		if !ok {
			continue // not defined on that path: not live there
		}
		j := joinAbs(v, w)
		if j != v && j.key() != v.key() {
			dst.env[k] = j
			ch = true
		}
	}
	for k, w := range src.env {
		if _, ok := dst.env[k]; !ok {
			dst.env[k] = w
			ch = true
		}
	}
	for k, v := range dst.heap {
		w, ok := src.heap[k]
		if !ok {
			if hp := weakKeep(k, v); hp != nil {
				if hp.key() != v.key() {
					dst.heap[k] = hp
					ch = true
				}
				continue
			}
			delete(dst.heap, k)
			ch = true
			continue
		}
		j := joinAbs(v, w)
		if j != v && j.key() != v.key() {
			if j.isUnk() {
				delete(dst.heap, k)
			} else {
				dst.heap[k] = j
			}
			ch = true
		}
	}
	for k, w := range src.heap {
		if _, ok := dst.heap[k]; !ok {
			if hp := weakKeep(k, w); hp != nil {
				dst.heap[k] = hp
				ch = true
			}
		}
	}
	for i := range dst.defs {
		if i < len(src.defs) {
			for j := range dst.defs[i].args {
				if j < len(src.defs[i].args) {
					dst.defs[i].args[j] = joinAbs(dst.defs[i].args[j], src.defs[i].args[j])
				}
			}
			dst.defs[i].fn = joinAbs(dst.defs[i].fn, src.defs[i].fn)
		}
	}
	return ch
}

// weakKeep: facts about the content of local containers, and may-tags, survive a
// join with a path on which the location was not written.
func weakKeep(k string, v *Abs) *Abs {
	if strings.HasPrefix(k, "new:") && strings.HasSuffix(k, "[]") {
		return v
	}
	if v.Tags != "" {
		return &Abs{Tags: v.Tags}
	}
	return nil
}
