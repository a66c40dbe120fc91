package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is one evaluation (one driver function).
type Ev struct {
	prog       *Program
	objs       map[string]*Obj
	objCtr     int
	leafCtr    int
	loops      []*Loop // active loops, outermost first
	allLoop    map[string]*Loop
	stack      []*ssa.Function
	obls       []*Oblig
	effects    map[string]*Effect
	rawInserts bool // interpret Tree.Inserts from its source (C17)
	bads       map[string]int
	steps      int
	calls      map[string]bool // functions evaluated
	sites      int
	assume     *Facts
	loopN      int
	trace      bool
	doms       map[*ssa.Function]*funcInfo
	// shallow: loops are skipped, forgetting all memory
	shallow, havocked bool
	goDepth           int
}

// Oblig is a safety obligation: under the facts, cond must hold.
type Oblig struct {
	kind  string // index, slice, nil, panic, div, domain, convert
	instr ssa.Instruction
	fn    *ssa.Function
	what  string
	facts []lit
	cond  *Term // must be true; nil for "never reached"
	loops []*Loop
	extra *Term
	chain string
	dead  bool
}

type Effect struct {
	kind  string // write-input, write-global, channel...
	fn    *ssa.Function
	instr ssa.Instruction
	what  string
	chain string
}

func newEv(p *Program) *Ev {
	return &Ev{prog: p, objs: map[string]*Obj{}, allLoop: map[string]*Loop{}, effects: map[string]*Effect{}, bads: map[string]int{}, calls: map[string]bool{}, assume: newFacts(), doms: map[*ssa.Function]*funcInfo{}}
}

func (ev *Ev) bad(why string) *BadV {
	ev.bads[why]++
	return &BadV{why}
}

func (ev *Ev) obj(key, name string, t types.Type, dims int, loops []*Loop) *Obj {
	if o, ok := ev.objs[key]; ok {
		return o
	}
	ev.objCtr++
	o := &Obj{id: ev.objCtr, key: key, name: name, typ: t, dims: dims, leafs: map[string]*Leaf{}, loops: append([]*Loop{}, loops...)}
	ev.objs[key] = o
	return o
}

func (ev *Ev) leaf(o *Obj, path string, t types.Type) *Leaf {
	if l, ok := o.leafs[path]; ok {
		return l
	}
	ev.leafCtr++
	l := &Leaf{obj: o, path: path, typ: t, id: ev.leafCtr}
	o.leafs[path] = l
	return l
}

func (l *Leaf) String() string { return l.obj.name + l.path }

func (ev *Ev) content(m Mem, l *Leaf) Content {
	if c, ok := m[l]; ok {
		return c
	}
	if l.obj.input {
		if l.in == nil {
			l.in = &inputC{leaf: l}
		}
		return l.in
	}
	return zeroC{l.typ}
}

// ---- content nodes

type zeroC struct{ t types.Type }

func (z zeroC) read(ev *Ev, f *Facts, idx []*Term) Val { return zeroVal(z.t) }

type inputC struct{ leaf *Leaf }

func (c *inputC) read(ev *Ev, f *Facts, idx []*Term) Val {
	return ev.inputVal(c.leaf.obj.name+c.leaf.path, c.leaf.typ, idx, c.leaf.obj.glob)
}

// inputVal lazily builds the unknown value of an input location.
func (ev *Ev) inputVal(name string, t types.Type, idx []*Term, glob bool) Val {
	if st := structOf(t); st != nil {
		r := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			r.f = append(r.f, ev.inputVal(name+"."+st.Field(i).Name(), st.Field(i).Type(), idx, glob))
		}
		return r
	}
	scalar := func(n string, s Sort) *Term {
		if len(idx) == 0 {
			return mkSym(n, s)
		}
		return mkApp(n, s, idx...)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o := ev.obj("in:"+name+"*", name, u.Elem(), len(idx), nil)
		o.input = true
		o.glob = glob
		return &PtrV{obj: o, idx: idx, null: tFalse}
	case *types.Slice:
		o := ev.obj("in:"+name+"[]", name+"[]", u.Elem(), len(idx)+1, nil)
		o.input = true
		o.glob = glob
		return &SliceV{obj: o, idx: idx, off: t0, len: scalar("len("+name+")", SInt)}
	case *types.Array, *types.Map, *types.Chan, *types.Signature:
		return ev.bad("input of type " + t.String())
	}
	return scalar(name, sortOf(t))
}

type storeC struct {
	prev Content
	idx  []*Term
	val  Val
	memo map[memoKey]Val
}

func idxKey(idx []*Term) string { return ids(idx) }

func (c *storeC) read(ev *Ev, f *Facts, idx []*Term) Val {
	if len(idx) == 0 {
		return c.val
	}
	k := memoKey{f, idxKey(idx)}
	if v, ok := c.memo[k]; ok {
		return v
	}
	cond := tTrue
	for i := range idx {
		e := f.simp(mkEq(idx[i], c.idx[i]))
		cond = mkAnd(cond, e)
		if cond == tFalse {
			break
		}
	}
	var v Val
	switch cond {
	case tTrue:
		v = c.val
	case tFalse:
		v = c.prev.read(ev, f, idx)
	default:
		v = mergeVal(cond, c.val, c.prev.read(ev, f.with(cond, false), idx))
	}
	if c.memo == nil {
		c.memo = map[memoKey]Val{}
	}
	c.memo[k] = v
	return v
}

type mergeC struct {
	cond *Term
	a, b Content
	memo map[memoKey]Val
}

func (c *mergeC) read(ev *Ev, f *Facts, idx []*Term) Val {
	k := memoKey{f, idxKey(idx)}
	if v, ok := c.memo[k]; ok {
		return v
	}
	cond := f.simp(c.cond)
	var v Val
	switch cond {
	case tTrue:
		v = c.a.read(ev, f, idx)
	case tFalse:
		v = c.b.read(ev, f, idx)
	default:
		v = mergeVal(cond, c.a.read(ev, f.with(cond, true), idx), c.b.read(ev, f.with(cond, false), idx))
	}
	if c.memo == nil {
		c.memo = map[memoKey]Val{}
	}
	c.memo[k] = v
	return v
}

// copyC overrides [lo, lo+n) of the last dimension (at the given prefix) with elements of src.
type copyC struct {
	prev   Content
	prefix []*Term
	lo, n  *Term
	src    func(f *Facts, j *Term) Val // element j of the source, 0 <= j < n
}

func (c *copyC) read(ev *Ev, f *Facts, idx []*Term) Val {
	cond := tTrue
	for i := range c.prefix {
		cond = mkAnd(cond, f.simp(mkEq(idx[i], c.prefix[i])))
	}
	last := idx[len(idx)-1]
	j := mkSub(last, c.lo)
	cond = mkAnd(cond, f.simp(mkNot(mkLt0(j))))
	if cond == tFalse {
		return c.prev.read(ev, f, idx)
	}
	cond = mkAnd(cond, f.simp(mkLt(j, c.n)))
	switch cond {
	case tTrue:
		return c.src(f, j)
	case tFalse:
		return c.prev.read(ev, f, idx)
	}
	return mergeVal(cond, c.src(f.with(cond, true), j), c.prev.read(ev, f.with(cond, false), idx))
}

// badC: unknown content
type badC struct{ why string }

func (c badC) read(ev *Ev, f *Facts, idx []*Term) Val { return ev.bad(c.why) }

// ---- load and store

func (ev *Ev) readLeaf(m Mem, f *Facts, o *Obj, path string, t types.Type, idx []*Term) Val {
	if st := structOf(t); st != nil {
		r := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			r.f = append(r.f, ev.readLeaf(m, f, o, path+"."+st.Field(i).Name(), st.Field(i).Type(), idx))
		}
		return r
	}
	if len(idx) != o.dims {
		return ev.bad("dims mismatch")
	}
	l := ev.leaf(o, path, t)
	return ev.content(m, l).read(ev, f, idx)
}

func (ev *Ev) writeLeaf(m Mem, o *Obj, path string, t types.Type, idx []*Term, v Val) {
	if st := structOf(t); st != nil {
		sv, ok := v.(*StructV)
		for i := 0; i < st.NumFields(); i++ {
			var x Val
			if ok && i < len(sv.f) {
				x = sv.f[i]
			} else if cv, isC := v.(*CondV); isC {
				x = onCond(cv, func(y Val) Val {
					if s, ok := y.(*StructV); ok {
						return s.f[i]
					}
					return ev.bad("struct store")
				})
			} else {
				x = ev.bad("struct store")
			}
			ev.writeLeaf(m, o, path+"."+st.Field(i).Name(), st.Field(i).Type(), idx, x)
		}
		return
	}
	if len(idx) != o.dims {
		ev.bad("lost: store dims mismatch")
		return
	}
	l := ev.leaf(o, path, t)
	m[l] = &storeC{prev: ev.content(m, l), idx: idx, val: v}
}

func onCond(v Val, fn func(Val) Val) Val {
	if c, ok := v.(*CondV); ok {
		return mergeVal(c.c, onCond(c.a, fn), onCond(c.b, fn))
	}
	return fn(v)
}

func (ev *Ev) load(m Mem, f *Facts, p Val, t types.Type) Val {
	if ev.havocked {
		return ev.bad("after a skipped loop")
	}
	switch x := p.(type) {
	case *PtrV:
		if x.obj == nil {
			return ev.bad("nil load")
		}
		return ev.readLeaf(m, f, x.obj, x.path, t, x.idx)
	case *CondV:
		c := f.simp(x.c)
		if c == tTrue || isNilVal(x.b) {
			return ev.load(m, f, x.a, t)
		}
		if c == tFalse || isNilVal(x.a) {
			return ev.load(m, f, x.b, t)
		}
		return mergeVal(c, ev.load(m, f.with(c, true), x.a, t), ev.load(m, f.with(c, false), x.b, t))
	}
	return ev.bad("load through " + fmt.Sprintf("%T", p))
}

func isNilVal(v Val) bool {
	switch x := v.(type) {
	case *PtrV:
		return x.null == tTrue
	case *Term:
		return x == tNil
	}
	return false
}

func (ev *Ev) store(m Mem, p Val, t types.Type, v Val) {
	switch x := p.(type) {
	case *PtrV:
		if x.obj == nil {
			return
		}
		ev.writeLeaf(m, x.obj, x.path, t, x.idx, v)
		return
	case *CondV:
		if isNilVal(x.a) {
			ev.store(m, x.b, t, v)
			return
		}
		if isNilVal(x.b) {
			ev.store(m, x.a, t, v)
			return
		}
		ma, mb := m.clone(), m.clone()
		ev.store(ma, x.a, t, v)
		ev.store(mb, x.b, t, v)
		ev.mergeMem(m, []*Term{x.c, mkNot(x.c)}, []Mem{ma, mb})
		return
	}
	ev.bad("lost: store through " + fmt.Sprintf("%T", p))
}

// mergeMem writes into dst the merge of ms under the (disjoint, exhaustive) conditions.
func (ev *Ev) mergeMem(dst Mem, conds []*Term, ms []Mem) {
	keys := map[*Leaf]bool{}
	for _, m := range ms {
		for l := range m {
			keys[l] = true
		}
	}
	var ls []*Leaf
	for l := range keys {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		last := len(ms) - 1
		c := ev.content(ms[last], l)
		same := true
		for i := last - 1; i >= 0; i-- {
			x := ev.content(ms[i], l)
			if x != c {
				if zx, ok := x.(zeroC); ok {
					if zc, ok2 := c.(zeroC); ok2 && zx.t == zc.t {
						continue
					}
				}
				same = false
			}
		}
		if same {
			dst[l] = c
			continue
		}
		for i := last - 1; i >= 0; i-- {
			c = mkMergeC(conds[i], ev.content(ms[i], l), c)
		}
		dst[l] = c
	}
}

func mkMergeC(cond *Term, a, b Content) Content {
	if a == b || cond == tTrue {
		return a
	}
	if cond == tFalse {
		return b
	}
	// common single store at the same index on both sides keeps the chain shallow
	if x, ok := a.(*storeC); ok {
		if y, ok := b.(*storeC); ok && x.prev == y.prev && sameTerms(x.idx, y.idx) {
			return &storeC{prev: x.prev, idx: x.idx, val: mergeVal(cond, x.val, y.val)}
		}
	}
	return &mergeC{cond: cond, a: a, b: b}
}

func rootName(o *Obj) string {
	n := o.name
	if i := strings.IndexAny(n, ".["); i > 0 {
		n = n[:i]
	}
	return n
}
