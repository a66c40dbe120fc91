package main

// Abstract values and memory of the gated SSA evaluator.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	typ types.Type
	f   []Val
}
type TupleV []Val

// PtrV points to obj[idx...].path; null is the condition under which it is nil.
type PtrV struct {
	obj  *Obj
	idx  []*Term
	path string
	null *Term
}

// SliceV is obj[idx..., off : off+len] (elements along the last dimension of obj).
type SliceV struct {
	obj *Obj
	idx []*Term
	off *Term
	len *Term
}
type IfaceV struct {
	typ types.Type
	v   Val
}
type FuncV struct {
	fn   *ssa.Function
	free []Val
}
type MapV struct {
	obj *Obj
	idx []*Term
}
type CondV struct {
	c    *Term
	a, b Val
}
type BadV struct{ why string }

var tNil = mkStr("nil")

// Obj is an allocation site instance family: dims integer indices select an element.
type Obj struct {
	id    int
	key   string
	name  string
	typ   types.Type // element type
	dims  int
	input bool
	glob  bool
	site  ssa.Instruction
	loops []*Loop // enclosing loops at allocation (leading dims)
	leafs map[string]*Leaf
	data  *Obj // values sent to a channel
}

type Leaf struct {
	obj  *Obj
	path string
	typ  types.Type
	id   int
	in   *inputC
}

type Mem map[*Leaf]Content

func (m Mem) clone() Mem {
	r := make(Mem, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

type Content interface {
	read(ev *Ev, f *Facts, idx []*Term) Val
}

type memoKey struct {
	f   *Facts
	idx string
}

// ---- leaf types

const modPath = "github.com/idoall/stockindicator"

func structOf(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil || !strings.HasPrefix(p.Path(), modPath) {
			return nil
		}
		if p.Path() == modPath+"/container/bst" {
			return nil
		}
	}
	return st
}

func isBstTree(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/container/bst" && n.Obj().Name() == "Tree"
}

// isTime: time.Time is the number of nanoseconds since the zero time.
func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func sortOf(t types.Type) Sort {
	if isTime(t) {
		return SInt
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool
		case b.Info()&types.IsInteger != 0:
			return SInt
		case b.Info()&types.IsFloat != 0:
			return SReal
		}
	}
	return SOther
}

func isScalar(t types.Type) bool {
	if structOf(t) != nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Array, *types.Tuple, *types.Chan:
		return false
	}
	return true
}

func zeroVal(t types.Type) Val {
	if isTime(t) {
		return t0
	}
	if st := structOf(t); st != nil {
		s := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			s.f = append(s.f, zeroVal(st.Field(i).Type()))
		}
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan:
		return &PtrV{null: tTrue}
	case *types.Slice:
		return &SliceV{off: t0, len: t0}
	case *types.Interface, *types.Map, *types.Signature:
		return tNil
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.Invalid:
			return &BadV{"zero"}
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return t0
		case u.Info()&types.IsString != 0:
			return mkStr(`""`)
		}
		return tNil
	case *types.Array:
		return &BadV{"array value"}
	}
	if isBstTree(t) {
		return mkStr("bag.empty")
	}
	return mkStr("zero:" + types.TypeString(t, nil))
}

// ---- merging

func isBad(v Val) bool { _, ok := v.(*BadV); return ok }

func mergeVal(c *Term, a, b Val) Val {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if sameVal(a, b) {
		return a
	}
	if x, ok := a.(*BadV); ok {
		return x
	}
	if x, ok := b.(*BadV); ok {
		return x
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return mkIte(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := &StructV{typ: x.typ}
			for i := range x.f {
				r.f = append(r.f, mergeVal(c, x.f[i], y.f[i]))
			}
			return r
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			var r TupleV
			for i := range x {
				r = append(r, mergeVal(c, x[i], y[i]))
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			switch {
			case x.obj == nil:
				return &PtrV{obj: y.obj, idx: y.idx, path: y.path, null: mkIte(c, x.null, y.null)}
			case y.obj == nil:
				return &PtrV{obj: x.obj, idx: x.idx, path: x.path, null: mkIte(c, x.null, y.null)}
			case x.obj == y.obj && x.path == y.path && len(x.idx) == len(y.idx):
				return &PtrV{obj: x.obj, idx: mergeIdx(c, x.idx, y.idx), path: x.path, null: mkIte(c, x.null, y.null)}
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			switch {
			case x.obj == nil:
				return &SliceV{obj: y.obj, idx: y.idx, off: y.off, len: mkIte(c, t0, y.len)}
			case y.obj == nil:
				return &SliceV{obj: x.obj, idx: x.idx, off: x.off, len: mkIte(c, x.len, t0)}
			case x.obj == y.obj && len(x.idx) == len(y.idx):
				return &SliceV{obj: x.obj, idx: mergeIdx(c, x.idx, y.idx), off: mkIte(c, x.off, y.off), len: mkIte(c, x.len, y.len)}
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && types.Identical(x.typ, y.typ) {
			m := mergeVal(c, x.v, y.v)
			if !isBad(m) {
				return &IfaceV{x.typ, m}
			}
		}
	}
	return &CondV{c, a, b}
}

func mergeIdx(c *Term, a, b []*Term) []*Term {
	r := make([]*Term, len(a))
	for i := range a {
		r[i] = mkIte(c, a[i], b[i])
	}
	return r
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		return a == b
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.obj == y.obj && x.path == y.path && x.null == y.null && sameTerms(x.idx, y.idx)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len && sameTerms(x.idx, y.idx)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !sameVal(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.typ, y.typ) && sameVal(x.v, y.v)
	case *CondV:
		y, ok := b.(*CondV)
		return ok && x.c == y.c && sameVal(x.a, y.a) && sameVal(x.b, y.b)
	}
	return a == b
}

// mapVal applies a term transformation to all scalar components.
func mapVal(v Val, fn func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return fn(x)
	case *StructV:
		r := &StructV{typ: x.typ, f: make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = mapVal(x.f[i], fn)
		}
		return r
	case TupleV:
		r := make(TupleV, len(x))
		for i := range x {
			r[i] = mapVal(x[i], fn)
		}
		return r
	case *PtrV:
		r := &PtrV{obj: x.obj, path: x.path, null: fn(x.null)}
		for _, i := range x.idx {
			r.idx = append(r.idx, fn(i))
		}
		return r
	case *SliceV:
		r := &SliceV{obj: x.obj, off: fn(x.off), len: fn(x.len)}
		for _, i := range x.idx {
			r.idx = append(r.idx, fn(i))
		}
		return r
	case *MapV:
		r := &MapV{obj: x.obj}
		for _, i := range x.idx {
			r.idx = append(r.idx, fn(i))
		}
		return r
	case *IfaceV:
		return &IfaceV{x.typ, mapVal(x.v, fn)}
	case *FuncV:
		r := &FuncV{fn: x.fn}
		for _, y := range x.free {
			r.free = append(r.free, mapVal(y, fn))
		}
		return r
	case *CondV:
		return mergeVal(fn(x.c), mapVal(x.a, fn), mapVal(x.b, fn))
	}
	return v
}

func valString(v Val) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *StructV:
		var s []string
		for _, f := range x.f {
			s = append(s, valString(f))
		}
		return "{" + strings.Join(s, "; ") + "}"
	case TupleV:
		var s []string
		for _, f := range x {
			s = append(s, valString(f))
		}
		return "(" + strings.Join(s, "; ") + ")"
	case *PtrV:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%s%v%s(null=%v)", x.obj.name, x.idx, x.path, x.null)
	case *SliceV:
		if x.obj == nil {
			return "nil[]"
		}
		return fmt.Sprintf("%s%v[%v+:%v]", x.obj.name, x.idx, x.off, x.len)
	case *IfaceV:
		return "iface(" + valString(x.v) + ")"
	case *CondV:
		return "cond(" + x.c.String() + " ? " + valString(x.a) + " : " + valString(x.b) + ")"
	case *BadV:
		return "BAD(" + x.why + ")"
	case *FuncV:
		return "func " + x.fn.String()
	}
	return fmt.Sprintf("%T", v)
}

// ---- shapes: a value split into scalar components

type shape struct {
	kind byte // t term, p ptr, s slice, S struct, i iface, b bad
	sort Sort
	obj  *Obj
	path string
	n    int
	sub  []*shape
	typ  types.Type
}

func shapeOf(v Val) *shape {
	switch x := v.(type) {
	case *shaped:
		return x.s
	case *Term:
		return &shape{kind: 't', sort: x.sort}
	case *PtrV:
		return &shape{kind: 'p', obj: x.obj, path: x.path, n: len(x.idx)}
	case *SliceV:
		return &shape{kind: 's', obj: x.obj, n: len(x.idx)}
	case *StructV:
		s := &shape{kind: 'S', typ: x.typ}
		for _, f := range x.f {
			s.sub = append(s.sub, shapeOf(f))
		}
		return s
	case *IfaceV:
		return &shape{kind: 'i', typ: x.typ, sub: []*shape{shapeOf(x.v)}}
	}
	return &shape{kind: 'b'}
}

// altShape: the variable holds one of two different objects.
func altShape(a, b *shape) *shape {
	if a.kind == 'u' && a.depth() > 4 {
		return &shape{kind: 'b'}
	}
	return &shape{kind: 'u', sub: []*shape{a, b}}
}

func (s *shape) depth() int {
	if s.kind != 'u' {
		return 0
	}
	return 1 + max(s.sub[0].depth(), s.sub[1].depth())
}

func unifyAlt(a, b *shape) *shape {
	if b.kind == 'u' {
		return unifyAlt(unifyAlt(a, b.sub[0]), b.sub[1])
	}
	if b.kind == 'b' {
		return b
	}
	for i, x := range a.sub {
		var r *shape
		if x.kind == 'u' {
			if r = unifyAlt(x, b); r.kind == 'u' && r.sub[0] == x {
				continue
			}
		} else {
			r = unifyShape(x, b)
		}
		if r.kind == x.kind && (r.kind != 'u') {
			c := *a
			c.sub = append([]*shape{}, a.sub...)
			c.sub[i] = r
			return &c
		}
		if x.kind == 'u' && r.kind == 'u' && r.depth() == x.depth() {
			c := *a
			c.sub = append([]*shape{}, a.sub...)
			c.sub[i] = r
			return &c
		}
	}
	return altShape(a, b)
}

func unifyShape(a, b *shape) *shape {
	if a.kind == 'u' {
		return unifyAlt(a, b)
	}
	if b.kind == 'u' {
		return unifyAlt(b, a)
	}
	if a.kind == 'b' || b.kind == 'b' || a.kind != b.kind {
		return &shape{kind: 'b'}
	}
	switch a.kind {
	case 't':
		s := a.sort
		if b.sort != s {
			if (s == SInt || s == SReal) && (b.sort == SInt || b.sort == SReal) {
				s = SReal
			} else {
				return &shape{kind: 'b'}
			}
		}
		return &shape{kind: 't', sort: s}
	case 'p':
		if a.obj == nil {
			return b
		}
		if b.obj == nil || (a.obj == b.obj && a.path == b.path) {
			return a
		}
		return altShape(a, b)
	case 's':
		if a.obj == nil {
			return b
		}
		if b.obj == nil || a.obj == b.obj {
			return a
		}
		return altShape(a, b)
	case 'S':
		if len(a.sub) == len(b.sub) {
			r := &shape{kind: 'S', typ: a.typ}
			for i := range a.sub {
				r.sub = append(r.sub, unifyShape(a.sub[i], b.sub[i]))
			}
			return r
		}
	case 'i':
		if types.Identical(a.typ, b.typ) {
			return &shape{kind: 'i', typ: a.typ, sub: []*shape{unifyShape(a.sub[0], b.sub[0])}}
		}
	}
	return &shape{kind: 'b'}
}

func (s *shape) eq(t *shape) bool {
	if s.kind != t.kind || s.obj != t.obj || s.path != t.path || s.n != t.n || s.sort != t.sort || len(s.sub) != len(t.sub) {
		return false
	}
	for i := range s.sub {
		if !s.sub[i].eq(t.sub[i]) {
			return false
		}
	}
	return true
}

func (s *shape) bad() bool {
	if s.kind == 'b' {
		return true
	}
	for _, x := range s.sub {
		if x.bad() {
			return true
		}
	}
	return false
}

// sorts of the components, in order.
func (s *shape) sorts() []Sort {
	switch s.kind {
	case 't':
		return []Sort{s.sort}
	case 'p':
		r := []Sort{SBool}
		for i := 0; i < s.n; i++ {
			r = append(r, SInt)
		}
		return r
	case 's':
		r := []Sort{SInt, SInt}
		for i := 0; i < s.n; i++ {
			r = append(r, SInt)
		}
		return r
	}
	var r []Sort
	if s.kind == 'u' {
		r = append(r, SBool)
	}
	for _, x := range s.sub {
		r = append(r, x.sorts()...)
	}
	return r
}

// split v according to the shape; nil entries mean "don't care" (nil pointer or slice).
func (s *shape) split(v Val) ([]*Term, bool) {
	switch s.kind {
	case 'u':
		a, ok := s.sub[0].split(v)
		b := make([]*Term, len(s.sub[1].sorts()))
		tag := tTrue
		if !ok {
			a = make([]*Term, len(s.sub[0].sorts()))
			if b, ok = s.sub[1].split(v); !ok {
				return nil, false
			}
			tag = tFalse
		}
		return append(append([]*Term{tag}, a...), b...), true
	case 't':
		t, ok := v.(*Term)
		return []*Term{t}, ok
	case 'p':
		p, ok := v.(*PtrV)
		if !ok {
			return nil, false
		}
		r := []*Term{p.null}
		if p.obj == nil {
			for i := 0; i < s.n; i++ {
				r = append(r, nil)
			}
			return r, true
		}
		return append(r, p.idx...), p.obj == s.obj
	case 's':
		p, ok := v.(*SliceV)
		if !ok {
			return nil, false
		}
		r := []*Term{p.off, p.len}
		if p.obj == nil {
			if s.obj != nil {
				r[0] = nil
			}
			for i := 0; i < s.n; i++ {
				r = append(r, nil)
			}
			return r, true
		}
		return append(r, p.idx...), p.obj == s.obj
	case 'S':
		x, ok := v.(*StructV)
		if !ok {
			return nil, false
		}
		var r []*Term
		for i := range s.sub {
			c, ok := s.sub[i].split(x.f[i])
			if !ok {
				return nil, false
			}
			r = append(r, c...)
		}
		return r, true
	case 'i':
		x, ok := v.(*IfaceV)
		if !ok {
			return nil, false
		}
		return s.sub[0].split(x.v)
	}
	return nil, false
}

func (s *shape) join(c []*Term) Val {
	v, _ := s.join1(c)
	return v
}
func (s *shape) join1(c []*Term) (Val, []*Term) {
	switch s.kind {
	case 'u':
		tag := c[0]
		a, rest := s.sub[0].join1(c[1:])
		b, rest := s.sub[1].join1(rest)
		if tag == tTrue {
			return a, rest
		}
		if tag == tFalse {
			return b, rest
		}
		return &CondV{tag, a, b}, rest
	case 't':
		return c[0], c[1:]
	case 'p':
		p := &PtrV{obj: s.obj, path: s.path, null: c[0]}
		p.idx = append(p.idx, c[1:1+s.n]...)
		if s.obj == nil {
			p.idx = nil
		}
		return p, c[1+s.n:]
	case 's':
		p := &SliceV{obj: s.obj, off: c[0], len: c[1]}
		p.idx = append(p.idx, c[2:2+s.n]...)
		return p, c[2+s.n:]
	case 'S':
		r := &StructV{typ: s.typ}
		for _, x := range s.sub {
			var v Val
			v, c = x.join1(c)
			r.f = append(r.f, v)
		}
		return r, c
	case 'i':
		v, rest := s.sub[0].join1(c)
		return &IfaceV{s.typ, v}, rest
	}
	return &BadV{"shape"}, c
}
