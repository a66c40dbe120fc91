package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shape analysis of the containers (C16, C17). An operation is interpreted over an abstract heap
// that stands for every container at once: a tree is an in-order word of atoms, where an atom is
// one value or a whole unexplored segment; a subtree is unfolded when a field of it is read, and
// what no live variable points at is folded back at every loop head, so a loop reaches a fixpoint
// over finitely many shapes. Each atom carries the relations to the operation's argument the
// comparisons on the way have established. The ghost word w0 is the container's content before
// the operation in terms of the same atoms; the required outcome is a statement about w0 and the
// word of the heap at the return. Whatever is not modelled makes the operation unmodelled (quiet).

const (
	relLT  = 1 // element < argument
	relEQ  = 2
	relGT  = 4
	relAny = 7
)

type shAtom struct {
	seg      bool
	nonEmpty bool
	mask     int
	name     string
}

type shKind int

const (
	shReal shKind = iota
	shSub
	shCtx
	shTree
	shLocal
	shStale
)

type shCell struct {
	kind     shKind
	f        []shv // real, tree, local: one per field
	seg      int   // sub
	nonEmpty bool
	pre, suf int // ctx
	child    int
	strict   bool // ctx: stands for one node or more
	typ      types.Type
}

// abstract values
type shv interface{}
type (
	shPtr   struct{ c int } // 0 is nil
	shAdr   struct{ c, f int }
	shVal   struct{ a int } // an atom
	shK     struct{ v constant.Value }
	shTup   struct{ v []shv }
	shUnk   struct{}
	shSlice struct{ w int } // a word register: content of words[w]
	shElem  struct{ a int } // list element holding atom a
	shLen   struct{ w int }
	shNilIf struct{}
	shWAdr  struct{ w, i int } // address of element i of a word
	shList  struct{ w int }
)

type shFrame struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	pc   int
	regs map[ssa.Value]shv
}

type shState struct {
	frames []*shFrame
	cells  map[int]*shCell
	atoms  map[int]*shAtom
	words  map[int][]int
	next   int
	w0     []int
	root   int // tree cell (0: none)
	weak   string
	events int
	last   map[string]string
	trail  []string
	log    []int
	plain  bool // the content is a plain sequence, not sorted
}

type shOut struct {
	st    *shState
	ret   []shv
	panic string
	where string
	key   int
}

type shp struct {
	p       *Program
	node    *types.Named // the tree's node type
	nf      int
	vf      int
	lf, rf  int
	elemT   types.Type
	logIns  *ssa.Function
	steps   int
	seen    map[string]bool
	outs    []shOut
	why     string
	compare func(*ssa.Function) bool
	fns     map[string]bool
	key     int
	verdict func(shOut) (string, string)
	stop    bool
}

func (st *shState) clone() *shState {
	n := *st
	n.frames = make([]*shFrame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]shv, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		n.frames[i] = &g
	}
	n.cells = make(map[int]*shCell, len(st.cells))
	for k, c := range st.cells {
		d := *c
		d.f = append([]shv{}, c.f...)
		n.cells[k] = &d
	}
	n.atoms = make(map[int]*shAtom, len(st.atoms))
	for k, a := range st.atoms {
		b := *a
		n.atoms[k] = &b
	}
	n.words = make(map[int][]int, len(st.words))
	for k, w := range st.words {
		n.words[k] = append([]int{}, w...)
	}
	n.w0 = append([]int{}, st.w0...)
	n.last = make(map[string]string, len(st.last))
	for k, v := range st.last {
		n.last[k] = v
	}
	n.trail = append([]string{}, st.trail...)
	n.log = append([]int{}, st.log...)
	return &n
}

func newShState() *shState {
	return &shState{cells: map[int]*shCell{}, atoms: map[int]*shAtom{}, words: map[int][]int{}, last: map[string]string{}, next: 1}
}

func (st *shState) id() int { st.next++; return st.next }

func (st *shState) atom(seg bool, mask int) int {
	i := st.id()
	st.atoms[i] = &shAtom{seg: seg, mask: mask}
	return i
}

// subst replaces atom a by the given sequence in every word.
func (st *shState) subst(a int, by ...int) {
	f := func(w []int) []int {
		var r []int
		for _, x := range w {
			if x == a {
				r = append(r, by...)
			} else {
				r = append(r, x)
			}
		}
		return r
	}
	st.w0 = f(st.w0)
	for k := range st.words {
		st.words[k] = f(st.words[k])
	}
	st.events++
}

// order: propagate the relation masks along the sorted word w0. False: the state is impossible.
func (st *shState) order() bool {
	if st.plain {
		return true
	}
	lim := relAny // what later bounds allow, going right to left
	for i := len(st.w0) - 1; i >= 0; i-- {
		a := st.atoms[st.w0[i]]
		a.mask &= lim
		if a.mask == 0 {
			if !a.seg || a.nonEmpty {
				return false
			}
			continue
		}
		if !a.seg || a.nonEmpty {
			switch {
			case a.mask&relGT != 0:
			case a.mask&relEQ != 0:
				lim &= relLT | relEQ
			default:
				lim &= relLT
			}
		}
	}
	lim = relAny
	for _, x := range st.w0 {
		a := st.atoms[x]
		a.mask &= lim
		if a.mask == 0 {
			if !a.seg || a.nonEmpty {
				return false
			}
			continue
		}
		if !a.seg || a.nonEmpty {
			switch {
			case a.mask&relLT != 0:
			case a.mask&relEQ != 0:
				lim &= relGT | relEQ
			default:
				lim &= relGT
			}
		}
	}
	return true
}

// word is the in-order content under cell c; ok is false on a cycle or a non-tree.
func (sh *shp) word(st *shState, c int, on map[int]bool) ([]int, bool) {
	if c == 0 {
		return nil, true
	}
	if on[c] {
		return nil, false
	}
	on[c] = true
	x := st.cells[c]
	switch x.kind {
	case shSub:
		return []int{x.seg}, true
	case shCtx:
		w, ok := sh.word(st, x.child, on)
		var r []int
		if x.pre != 0 {
			r = append(r, x.pre)
		}
		r = append(r, w...)
		if x.suf != 0 {
			r = append(r, x.suf)
		}
		return r, ok
	case shReal:
		l, ok1 := x.f[sh.lf].(shPtr)
		r, ok2 := x.f[sh.rf].(shPtr)
		if !ok1 || !ok2 {
			return nil, false
		}
		wl, k1 := sh.word(st, l.c, on)
		wr, k2 := sh.word(st, r.c, on)
		v := -1
		if a, ok := x.f[sh.vf].(shVal); ok {
			v = a.a
		}
		return append(append(append([]int{}, wl...), v), wr...), k1 && k2
	}
	return nil, false
}

func (st *shState) treeRoot() (int, bool) {
	for _, v := range st.cells[st.root].f {
		if p, ok := v.(shPtr); ok {
			return p.c, true
		}
	}
	return 0, false
}

// replaceCell points every reference to cell a at cell b.
func (st *shState) replaceCell(a, b int) {
	fix := func(v shv) shv {
		if p, ok := v.(shPtr); ok && p.c == a {
			return shPtr{b}
		}
		return v
	}
	for _, c := range st.cells {
		for i := range c.f {
			c.f[i] = fix(c.f[i])
		}
		if c.kind == shCtx && c.child == a {
			c.child = b
		}
	}
	for _, f := range st.frames {
		for k, v := range f.regs {
			if t, ok := v.(shTup); ok {
				n := append([]shv{}, t.v...)
				for i := range n {
					n[i] = fix(n[i])
				}
				f.regs[k] = shTup{n}
				continue
			}
			f.regs[k] = fix(v)
		}
	}
}

// materialise turns sub cell c, known to be a node, into a real node with two subtrees.
func (sh *shp) materialise(st *shState, c int) {
	x := st.cells[c]
	m := st.atoms[x.seg].mask
	a, l, r := st.atom(false, m), st.atom(true, m), st.atom(true, m)
	cl, cr := st.id(), st.id()
	st.cells[cl] = &shCell{kind: shSub, seg: l}
	st.cells[cr] = &shCell{kind: shSub, seg: r}
	st.subst(x.seg, l, a, r)
	f := make([]shv, sh.nf)
	for i := range f {
		f[i] = shUnk{}
	}
	f[sh.vf], f[sh.lf], f[sh.rf] = shVal{a}, shPtr{cl}, shPtr{cr}
	st.cells[c] = &shCell{kind: shReal, f: f, typ: sh.node}
}

// ---- folding

func (sh *shp) liveRegs(st *shState) (ptrs map[int]bool, vals map[int]bool, list []string, regs []shv) {
	ptrs, vals = map[int]bool{}, map[int]bool{}
	var add func(v shv)
	add = func(v shv) {
		switch x := v.(type) {
		case shPtr:
			ptrs[x.c] = true
		case shAdr:
			ptrs[x.c] = true
		case shVal:
			vals[x.a] = true
		case shElem:
			vals[x.a] = true
		case shTup:
			for _, e := range x.v {
				add(e)
			}
		}
	}
	for i, f := range st.frames {
		var ks []ssa.Value
		for k := range f.regs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].Name() < ks[b].Name() })
		for _, k := range ks {
			if !shLive(f.fn, f.blk, k) {
				delete(f.regs, k)
				continue
			}
			add(f.regs[k])
			list = append(list, fmt.Sprintf("%d.%s", i, k.Name()))
			regs = append(regs, f.regs[k])
		}
	}
	return
}

var shReach = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func shReachable(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m := shReach[b]; m != nil {
		return m
	}
	m := map[*ssa.BasicBlock]bool{b: true}
	w := []*ssa.BasicBlock{b}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		for _, s := range x.Succs {
			if !m[s] {
				m[s] = true
				w = append(w, s)
			}
		}
	}
	shReach[b] = m
	return m
}

// shLive: v may be used at or after block b.
func shLive(fn *ssa.Function, b *ssa.BasicBlock, v ssa.Value) bool {
	m := shReachable(b)
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		if ph, ok := r.(*ssa.Phi); ok {
			for i, e := range ph.Edges {
				if e == v && m[r.Block().Preds[i]] {
					return true
				}
			}
			continue
		}
		if m[r.Block()] {
			return true
		}
	}
	return false
}

func (sh *shp) fold(st *shState) string {
	ptrs, vals, names, regs := sh.liveRegs(st)
	bad := ""
	// collapse replaces the contiguous sequence w of the ghost word by one segment.
	collapse := func(w []int) (int, bool) {
		if len(w) == 0 {
			return 0, true
		}
		if len(w) == 1 && st.atoms[w[0]].seg {
			return w[0], true
		}
		m, ne := 0, false
		for _, a := range w {
			if a < 0 || vals[a] {
				return 0, false
			}
			m |= st.atoms[a].mask
			ne = ne || !st.atoms[a].seg || st.atoms[a].nonEmpty
		}
		for i := 0; i+len(w) <= len(st.w0); i++ {
			ok := true
			for j := range w {
				ok = ok && st.w0[i+j] == w[j]
			}
			if ok {
				s := st.atom(true, m)
				st.atoms[s].nonEmpty = ne
				st.w0 = append(append(append([]int{}, st.w0[:i]...), s), st.w0[i+len(w):]...)
				return s, true
			}
		}
		return 0, false
	}
	var liveUnder func(c int, on map[int]bool) bool
	liveUnder = func(c int, on map[int]bool) bool {
		if c == 0 {
			return false
		}
		if on[c] {
			bad = "shared node"
			return true
		}
		on[c] = true
		if ptrs[c] {
			return true
		}
		x := st.cells[c]
		switch x.kind {
		case shCtx:
			return liveUnder(x.child, on)
		case shReal:
			if a, ok := x.f[sh.vf].(shVal); !ok || vals[a.a] {
				return true
			}
			r := false
			for _, i := range []int{sh.lf, sh.rf} {
				p, ok := x.f[i].(shPtr)
				if !ok {
					return true
				}
				if liveUnder(p.c, on) {
					r = true
				}
			}
			return r
		}
		return false
	}
	var rec func(c int) int
	rec = func(c int) int {
		if c == 0 || bad != "" {
			return c
		}
		x := st.cells[c]
		if !liveUnder(c, map[int]bool{}) {
			if x.kind == shSub {
				return c
			}
			w, ok := sh.word(st, c, map[int]bool{})
			if !ok {
				bad = "not a tree"
				return c
			}
			s, ok := collapse(w)
			if !ok {
				return sh.keep(st, c, rec)
			}
			n := st.id()
			st.cells[n] = &shCell{kind: shSub, seg: s, nonEmpty: true}
			st.atoms[s].nonEmpty = true
			return n
		}
		if ptrs[c] || x.kind == shSub {
			return sh.keep(st, c, rec)
		}
		if x.kind == shCtx {
			x.child = rec(x.child)
			return c
		}
		if a, ok := x.f[sh.vf].(shVal); !ok || vals[a.a] {
			return sh.keep(st, c, rec)
		}
		l, ok1 := x.f[sh.lf].(shPtr)
		r, ok2 := x.f[sh.rf].(shPtr)
		if !ok1 || !ok2 {
			return sh.keep(st, c, rec)
		}
		ll, rl := liveUnder(l.c, map[int]bool{}), liveUnder(r.c, map[int]bool{})
		if ll == rl {
			return sh.keep(st, c, rec)
		}
		// absorb into a context
		v := x.f[sh.vf].(shVal).a
		n := &shCell{kind: shCtx, strict: true}
		if ll {
			w, ok := sh.word(st, r.c, map[int]bool{})
			s, ok2 := 0, false
			if ok {
				s, ok2 = collapse(append([]int{v}, w...))
			}
			if !ok2 {
				return sh.keep(st, c, rec)
			}
			n.suf, n.child = s, rec(l.c)
		} else {
			w, ok := sh.word(st, l.c, map[int]bool{})
			s, ok2 := 0, false
			if ok {
				s, ok2 = collapse(append(append([]int{}, w...), v))
			}
			if !ok2 {
				return sh.keep(st, c, rec)
			}
			n.pre, n.child = s, rec(r.c)
		}
		id := st.id()
		st.cells[id] = n
		return id
	}
	var merge func(c int) int
	merge = func(c int) int {
		if c == 0 {
			return 0
		}
		x := st.cells[c]
		switch x.kind {
		case shReal:
			for _, i := range []int{sh.lf, sh.rf} {
				if p, ok := x.f[i].(shPtr); ok {
					x.f[i] = shPtr{merge(p.c)}
				}
			}
		case shCtx:
			x.child = merge(x.child)
			if x.child == 0 {
				return c
			}
			y := st.cells[x.child]
			if y.kind == shCtx && !ptrs[x.child] {
				cat := func(a, b int) (int, bool) {
					if a == 0 {
						return b, true
					}
					if b == 0 {
						return a, true
					}
					return collapse([]int{a, b})
				}
				p, ok1 := cat(x.pre, y.pre)
				s, ok2 := cat(y.suf, x.suf)
				if ok1 && ok2 {
					id := st.id()
					st.cells[id] = &shCell{kind: shCtx, strict: true, pre: p, suf: s, child: y.child}
					return id
				}
				bad = "context"
			}
		}
		return c
	}
	if st.root != 0 {
		t := st.cells[st.root]
		for i, v := range t.f {
			if p, ok := v.(shPtr); ok {
				if p.c != 0 && ptrs[p.c] && st.cells[p.c].kind == shCtx {
					return "pointer into a context"
				}
				t.f[i] = shPtr{merge(rec(p.c))}
			}
		}
	}
	if bad != "" {
		return bad
	}
	// what is not reachable from the tree: live detached cells keep values, not links into it
	in := map[int]bool{}
	var mark func(c int)
	mark = func(c int) {
		if c == 0 || in[c] {
			return
		}
		in[c] = true
		x := st.cells[c]
		if x.kind == shCtx {
			mark(x.child)
		}
		for _, v := range x.f {
			if p, ok := v.(shPtr); ok {
				mark(p.c)
			}
		}
	}
	if st.root != 0 {
		mark(st.root)
	}
	attached := map[int]bool{}
	for c := range in {
		attached[c] = true
	}
	for _, v := range regs {
		switch x := v.(type) {
		case shPtr:
			mark(x.c)
		case shAdr:
			mark(x.c)
		}
	}
	for c, x := range st.cells {
		if !in[c] {
			delete(st.cells, c)
			continue
		}
		if !attached[c] && x.kind == shReal {
			for _, i := range []int{sh.lf, sh.rf} {
				if p, ok := x.f[i].(shPtr); ok && p.c != 0 && !ptrs[p.c] {
					x.f[i] = shUnk{}
				}
			}
		}
	}
	for c := range st.cells {
		_ = c
	}
	// prune atoms nobody mentions
	used := map[int]bool{sh.key: true}
	for _, a := range st.w0 {
		used[a] = true
	}
	for _, w := range st.words {
		for _, a := range w {
			used[a] = true
		}
	}
	for _, x := range st.cells {
		used[x.seg], used[x.pre], used[x.suf] = true, true, true
		for _, v := range x.f {
			if a, ok := v.(shVal); ok {
				used[a.a] = true
			}
		}
	}
	for a := range vals {
		used[a] = true
	}
	for a := range st.atoms {
		if !used[a] {
			delete(st.atoms, a)
		}
	}
	return sh.stateKey(st, names, regs)
}

func (sh *shp) keep(st *shState, c int, rec func(int) int) int {
	x := st.cells[c]
	if x.kind == shReal {
		for _, i := range []int{sh.lf, sh.rf} {
			if p, ok := x.f[i].(shPtr); ok {
				x.f[i] = shPtr{rec(p.c)}
			}
		}
	} else if x.kind == shCtx {
		x.child = rec(x.child)
	}
	return c
}

// stateKey is a canonical rendering of the state.
func (sh *shp) stateKey(st *shState, names []string, regs []shv) string {
	var b strings.Builder
	an := map[int]int{}
	a := func(i int) string {
		if i <= 0 {
			return "-"
		}
		if i == sh.key {
			return "K"
		}
		n, ok := an[i]
		if !ok {
			n = len(an)
			an[i] = n
		}
		at := st.atoms[i]
		if at == nil {
			return fmt.Sprintf("?%d", n)
		}
		return fmt.Sprintf("%v%d:%d%v", at.seg, n, at.mask, at.nonEmpty)
	}
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%s/%d/%d ", f.fn.Name(), f.blk.Index, f.pc)
	}
	b.WriteString("w0[")
	for _, x := range st.w0 {
		b.WriteString(a(x) + " ")
	}
	b.WriteString("] ")
	cn := map[int]int{}
	var cell func(c int)
	var val func(v shv)
	val = func(v shv) {
		switch x := v.(type) {
		case shPtr:
			cell(x.c)
		case shAdr:
			cell(x.c)
			fmt.Fprintf(&b, ".%d", x.f)
		case shVal:
			b.WriteString(a(x.a))
		case shElem:
			b.WriteString("e" + a(x.a))
		case shK:
			b.WriteString(x.v.ExactString())
		case shTup:
			for _, e := range x.v {
				val(e)
			}
		case shSlice, shList, shLen:
			var w int
			switch y := x.(type) {
			case shSlice:
				w = y.w
			case shList:
				w = y.w
			case shLen:
				w = y.w
			}
			b.WriteString("[")
			for _, q := range st.words[w] {
				b.WriteString(a(q) + " ")
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%T", v)
		}
	}
	cell = func(c int) {
		if c == 0 {
			b.WriteString("nil")
			return
		}
		if n, ok := cn[c]; ok {
			fmt.Fprintf(&b, "@%d", n)
			return
		}
		cn[c] = len(cn)
		x := st.cells[c]
		if x == nil {
			b.WriteString("gone")
			return
		}
		fmt.Fprintf(&b, "@%d=%d%v(", cn[c], x.kind, x.nonEmpty)
		switch x.kind {
		case shSub:
			b.WriteString(a(x.seg))
		case shCtx:
			b.WriteString(a(x.pre) + "," + a(x.suf) + ",")
			cell(x.child)
		default:
			for _, v := range x.f {
				val(v)
				b.WriteString(",")
			}
		}
		b.WriteString(")")
	}
	if st.root != 0 {
		cell(st.root)
	}
	for i, v := range regs {
		fmt.Fprintf(&b, " %s=", names[i])
		val(v)
	}
	fmt.Fprintf(&b, " weak=%v log=%v", st.weak != "", len(st.log))
	return b.String()
}

// ---- interpreter

func (sh *shp) fail(why string) { // unmodelled
	if sh.why == "" {
		sh.why = why
	}
}

func (sh *shp) explore(st *shState) {
	work := []*shState{st}
	for len(work) > 0 && sh.why == "" && !sh.stop {
		s := work[0]
		work = work[1:]
		sh.steps++
		if sh.steps > 200000 {
			sh.fail("too many states")
			return
		}
		work = append(work, sh.step(s)...)
	}
}

func (sh *shp) get(st *shState, f *shFrame, v ssa.Value) shv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Pointer:
				return shPtr{0}
			case *types.Slice:
				w := st.id()
				st.words[w] = nil
				return shSlice{w}
			}
			return shNilIf{}
		}
		return shK{x.Value}
	}
	if r, ok := f.regs[v]; ok {
		return r
	}
	return shUnk{}
}

// forkRel yields one state per relation of atom a to atom b that the state allows.
func (sh *shp) forkRel(st *shState, a, b int) (sts []*shState, rels []int) {
	if a == b {
		return []*shState{st}, []int{relEQ}
	}
	flip := false
	if a == sh.key {
		a, b, flip = b, a, true
	}
	try := func(rel int, apply bool) {
		s := st.clone()
		if apply {
			s.atoms[a].mask &= rel
			s.events++
			if s.atoms[a].mask == 0 || !s.order() {
				return
			}
		}
		r := rel
		if flip {
			r = map[int]int{relLT: relGT, relEQ: relEQ, relGT: relLT}[rel]
		}
		sts, rels = append(sts, s), append(rels, r)
	}
	if b == sh.key {
		for _, r := range []int{relLT, relEQ, relGT} {
			if st.atoms[a].mask&r != 0 {
				try(r, true)
			}
		}
		return
	}
	pos := func(x int) int {
		for i, y := range st.w0 {
			if y == x {
				return i
			}
		}
		return -1
	}
	pa, pb := pos(a), pos(b)
	ma, mb := st.atoms[a].mask, st.atoms[b].mask
	allow := relAny
	if pa >= 0 && pb >= 0 {
		if pa < pb {
			allow = relLT | relEQ
		} else {
			allow = relGT | relEQ
		}
	}
	if ma&mb == 0 {
		allow &^= relEQ
	}
	if ma == relEQ && mb == relEQ {
		allow = relEQ
	}
	n := 0
	for _, r := range []int{relLT, relEQ, relGT} {
		if allow&r != 0 {
			try(r, false)
			n++
		}
	}
	if n > 1 {
		for _, s := range sts {
			s.weak = "two stored values compared"
		}
	}
	return
}

// isNilFork decides whether value v (pointer) is nil, forking when open.
func (sh *shp) isNilFork(st *shState, v shv) (yes, no *shState, ok bool) {
	switch x := v.(type) {
	case shPtr:
		if x.c == 0 {
			return st, nil, true
		}
		c := st.cells[x.c]
		if c == nil {
			return nil, nil, false
		}
		if c.kind != shSub || c.nonEmpty {
			return nil, st, true
		}
		n := st.clone()
		n.cells[x.c].nonEmpty = true
		n.atoms[c.seg].nonEmpty = true
		n.events++
		y := st
		y.subst(c.seg)
		y.replaceCell(x.c, 0)
		if !n.order() {
			n = nil
		}
		if y != nil && !y.order() {
			y = nil
		}
		return y, n, true
	case shNilIf:
		return st, nil, true
	case shElem, shAdr, shVal, shList:
		return nil, st, true
	case shSlice:
		if len(st.words[x.w]) == 0 {
			return nil, nil, false
		}
		return nil, nil, false
	}
	return nil, nil, false
}

// headFork splits word w into its empty and non-empty readings; in the second the first (or last)
// item is a single atom.
func (sh *shp) headFork(st *shState, w int, front bool) (empty *shState, has *shState) {
	ws := st.words[w]
	if len(ws) == 0 {
		return st, nil
	}
	i := 0
	if !front {
		i = len(ws) - 1
	}
	a := st.atoms[ws[i]]
	if !a.seg {
		return nil, st
	}
	h := st.clone()
	x, rest := h.atom(false, relAny), h.atom(true, relAny)
	if front {
		h.subst(ws[i], x, rest)
	} else {
		h.subst(ws[i], rest, x)
	}
	if a.nonEmpty {
		return nil, h
	}
	st.subst(ws[i])
	e, h2 := sh.headFork(st, w, front)
	if h2 != nil {
		// both readings are non-empty in their own way: only one segment is ever possible here
		sh.fail("two segments")
		return nil, h
	}
	return e, h
}

func (sh *shp) pos(in ssa.Instruction) string { return sh.p.pos(in.Pos()) }

func (sh *shp) finish(st *shState, ret []shv, pan string, in ssa.Instruction) {
	w := ""
	if in != nil {
		w = sh.pos(in)
	}
	o := shOut{st: st, ret: ret, panic: pan, where: w}
	sh.outs = append(sh.outs, o)
	if why, open := sh.verdict(o); why != "" && open == "" && st.weak == "" {
		sh.stop = true
	}
}

func (sh *shp) jump(st *shState, f *shFrame, to *ssa.BasicBlock) []*shState {
	from := f.blk
	var vs []shv
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from {
				phis = append(phis, ph)
				vs = append(vs, sh.get(st, f, ph.Edges[i]))
				break
			}
		}
	}
	for i, ph := range phis {
		f.regs[ph] = vs[i]
	}
	f.prev, f.blk, f.pc = from, to, len(phis)
	if !reachesB(to, to) {
		return []*shState{st}
	}
	head := false
	for _, p := range to.Preds {
		if to.Dominates(p) {
			head = true
		}
	}
	if !head {
		return []*shState{st}
	}
	ev := st.events
	key := sh.fold(st)
	if !strings.Contains(key, "/") {
		sh.fail("fold: " + key)
		return nil
	}
	hk := fmt.Sprintf("%d/%p", len(st.frames), to)
	if prev, ok := st.last[hk]; ok && prev == fmt.Sprintf("%d|%s", ev, key) && to.Dominates(from) {
		sh.finish(st, nil, "never ends", to.Instrs[len(to.Instrs)-1])
		return nil
	}
	if sh.seen[key] {
		return nil
	}
	sh.seen[key] = true
	st.last[hk] = fmt.Sprintf("%d|%s", ev, key)
	st.events = ev
	return []*shState{st}
}

func (sh *shp) nodeStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && sh.node != nil && n.Obj() == sh.node.Obj()
}

func (sh *shp) step(st *shState) []*shState {
	f := st.frames[len(st.frames)-1]
	in := f.blk.Instrs[f.pc]
	f.pc++
	one := []*shState{st}
	set := func(v ssa.Value, x shv) []*shState { f.regs[v] = x; return one }
	get := func(v ssa.Value) shv { return sh.get(st, f, v) }
	// onAll continues each forked state with its own value for v
	onAll := func(v ssa.Value, sts []*shState, xs []shv) []*shState {
		var r []*shState
		for i, s := range sts {
			if s == nil {
				continue
			}
			s.frames[len(s.frames)-1].regs[v] = xs[i]
			r = append(r, s)
		}
		return r
	}
	boolK := func(b bool) shv { return shK{constant.MakeBool(b)} }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		c := st.id()
		cell := &shCell{kind: shLocal, typ: t}
		if s, ok := t.Underlying().(*types.Struct); ok {
			cell.f = make([]shv, s.NumFields())
			for i := range cell.f {
				cell.f[i] = sh.zero(st, s.Field(i).Type())
			}
			if sh.nodeStruct(t) {
				cell.kind = shReal
			}
		} else if ar, ok := t.Underlying().(*types.Array); ok {
			cell.f = make([]shv, ar.Len())
			for i := range cell.f {
				cell.f[i] = sh.zero(st, ar.Elem())
			}
		} else {
			cell.f = []shv{sh.zero(st, t)}
		}
		st.cells[c] = cell
		st.events++
		return set(x, shPtr{c})
	case *ssa.FieldAddr:
		p, ok := get(x.X).(shPtr)
		if !ok {
			if e, ok := get(x.X).(shElem); ok {
				return set(x, shWAdr{-1, e.a}) // element's Value field
			}
			if _, ok := get(x.X).(shNilIf); ok {
				sh.finish(st, nil, "nil dereference", in)
				return nil
			}
			sh.fail("field of " + fmt.Sprintf("%T", get(x.X)))
			return nil
		}
		y, n, ok := sh.isNilFork(st, p)
		if !ok {
			sh.fail("nil test")
			return nil
		}
		if y != nil {
			sh.finish(y, nil, "nil dereference", in)
		}
		if n == nil {
			return nil
		}
		if n.cells[p.c].kind == shSub {
			sh.materialise(n, p.c)
			if !n.order() {
				return nil
			}
		}
		if k := n.cells[p.c].kind; k == shCtx || k == shStale {
			sh.fail("field of a folded node")
			return nil
		}
		n.frames[len(n.frames)-1].regs[x] = shAdr{p.c, x.Field}
		return []*shState{n}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			switch a := get(x.X).(type) {
			case shAdr:
				return set(x, st.cells[a.c].f[a.f])
			case shPtr:
				if a.c == 0 {
					sh.finish(st, nil, "nil dereference", in)
					return nil
				}
				c := st.cells[a.c]
				if c.kind == shLocal && len(c.f) == 1 {
					if _, ok := c.typ.Underlying().(*types.Struct); !ok {
						return set(x, c.f[0])
					}
				}
			case shWAdr:
				if a.w == -1 {
					return set(x, shVal{a.i})
				}
				return set(x, shVal{st.words[a.w][a.i]})
			case shUnk:
				return set(x, shUnk{})
			}
			sh.fail("load")
			return nil
		case token.NOT:
			if k, ok := get(x.X).(shK); ok {
				return set(x, boolK(!constant.BoolVal(k.v)))
			}
			return set(x, shUnk{})
		case token.SUB:
			if k, ok := get(x.X).(shK); ok {
				return set(x, shK{constant.UnaryOp(token.SUB, k.v, 0)})
			}
			return set(x, shUnk{})
		}
		return set(x, shUnk{})
	case *ssa.Store:
		v := get(x.Val)
		switch a := get(x.Addr).(type) {
		case shAdr:
			st.cells[a.c].f[a.f] = v
			st.events++
			return one
		case shPtr:
			if a.c != 0 {
				c := st.cells[a.c]
				if c.kind == shLocal && len(c.f) == 1 {
					c.f[0] = v
					st.events++
					return one
				}
			}
		}
		sh.fail("store " + sh.pos(in))
		return nil
	case *ssa.MakeInterface:
		v := get(x.X)
		return set(x, v)
	case *ssa.ChangeType:
		return set(x, get(x.X))
	case *ssa.ChangeInterface:
		return set(x, get(x.X))
	case *ssa.TypeAssert:
		v := get(x.X)
		if _, ok := v.(shVal); ok && !x.CommaOk {
			return set(x, v)
		}
		if ok := x.CommaOk; ok {
			return set(x, shTup{[]shv{v, shUnk{}}})
		}
		return set(x, shUnk{})
	case *ssa.Extract:
		if t, ok := get(x.Tuple).(shTup); ok {
			return set(x, t.v[x.Index])
		}
		return set(x, shUnk{})
	case *ssa.BinOp:
		return sh.binop(st, f, x, onAll)
	case *ssa.Jump:
		return sh.jump(st, f, f.blk.Succs[0])
	case *ssa.If:
		k, ok := get(x.Cond).(shK)
		if ok {
			if constant.BoolVal(k.v) {
				return sh.jump(st, f, f.blk.Succs[0])
			}
			return sh.jump(st, f, f.blk.Succs[1])
		}
		s2 := st.clone()
		st.weak, s2.weak = "open condition", "open condition"
		r := sh.jump(s2, s2.frames[len(s2.frames)-1], f.blk.Succs[1])
		return append(r, sh.jump(st, f, f.blk.Succs[0])...)
	case *ssa.Return:
		var rs []shv
		for _, r := range x.Results {
			rs = append(rs, get(r))
		}
		if len(st.frames) == 1 {
			sh.finish(st, rs, "", in)
			return nil
		}
		st.frames = st.frames[:len(st.frames)-1]
		g := st.frames[len(st.frames)-1]
		call := g.blk.Instrs[g.pc-1].(ssa.Value)
		switch len(rs) {
		case 0:
		case 1:
			g.regs[call] = rs[0]
		default:
			g.regs[call] = shTup{rs}
		}
		return one
	case *ssa.Panic:
		sh.finish(st, nil, "panic", in)
		return nil
	case *ssa.Call:
		return sh.call(st, f, x, onAll)
	case *ssa.IndexAddr:
		w, ok := get(x.X).(shSlice)
		if p, isP := get(x.X).(shPtr); isP && p.c != 0 && st.cells[p.c].kind == shLocal {
			if k, isK := get(x.Index).(shK); isK {
				if n, _ := constant.Int64Val(k.v); n >= 0 && int(n) < len(st.cells[p.c].f) {
					return set(x, shAdr{p.c, int(n)})
				}
			}
		}
		if !ok {
			sh.fail("index")
			return nil
		}
		switch k := get(x.Index).(type) {
		case shK:
			n, _ := constant.Int64Val(k.v)
			if n != 0 {
				all := true
				for _, a := range st.words[w.w] {
					all = all && !st.atoms[a].seg
				}
				if !all {
					sh.fail("index not 0")
					return nil
				}
				if int(n) >= len(st.words[w.w]) || n < 0 {
					sh.finish(st, nil, "index out of range", in)
					return nil
				}
				return set(x, shWAdr{w.w, int(n)})
			}
			e, h := sh.headFork(st, w.w, true)
			if e != nil {
				sh.finish(e, nil, "index out of range", in)
			}
			if h == nil {
				return nil
			}
			h.frames[len(h.frames)-1].regs[x] = shWAdr{w.w, 0}
			return []*shState{h}
		}
		sh.fail("index value")
		return nil
	case *ssa.Slice:
		w, ok := get(x.X).(shSlice)
		if !ok {
			if p, ok := get(x.X).(shPtr); ok && p.c != 0 && st.cells[p.c].kind == shLocal && x.Low == nil && x.High == nil {
				var ws []int
				for _, v := range st.cells[p.c].f {
					a, ok := v.(shVal)
					if !ok {
						sh.fail("array of non-values")
						return nil
					}
					ws = append(ws, a.a)
				}
				nw := st.id()
				st.words[nw] = ws
				return set(x, shSlice{nw})
			}
			sh.fail("slice")
			return nil
		}
		if x.High != nil || x.Max != nil {
			sh.fail("slice high")
			return nil
		}
		if x.Low == nil {
			return set(x, w)
		}
		k, ok := get(x.Low).(shK)
		if !ok {
			sh.fail("slice low")
			return nil
		}
		n, _ := constant.Int64Val(k.v)
		if n == 0 {
			return set(x, w)
		}
		if n != 1 {
			sh.fail("slice low")
			return nil
		}
		e, h := sh.headFork(st, w.w, true)
		if e != nil {
			sh.finish(e, nil, "slice out of range", in)
		}
		if h == nil {
			return nil
		}
		nw := h.id()
		h.words[nw] = append([]int{}, h.words[w.w][1:]...)
		h.frames[len(h.frames)-1].regs[x] = shSlice{nw}
		return []*shState{h}
	case *ssa.Phi:
		return one
	}
	sh.fail(fmt.Sprintf("%T at %s", in, sh.pos(in)))
	return nil
}

func (sh *shp) zero(st *shState, t types.Type) shv {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return shPtr{0}
	case *types.Interface:
		return shNilIf{}
	case *types.Slice:
		w := st.id()
		st.words[w] = nil
		return shSlice{w}
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return shK{constant.MakeInt64(0)}
		case u.Info()&types.IsBoolean != 0:
			return shK{constant.MakeBool(false)}
		}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "container/list" && n.Obj().Name() == "List" {
			w := st.id()
			st.words[w] = nil
			return shList{w}
		}
	}
	return shUnk{}
}

func (sh *shp) binop(st *shState, f *shFrame, x *ssa.BinOp, onAll func(ssa.Value, []*shState, []shv) []*shState) []*shState {
	one := []*shState{st}
	a, b := sh.get(st, f, x.X), sh.get(st, f, x.Y)
	boolK := func(b bool) shv { return shK{constant.MakeBool(b)} }
	set := func(v shv) []*shState { f.regs[x] = v; return one }
	// constants
	if ka, ok := a.(shK); ok {
		if kb, ok := b.(shK); ok {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return set(boolK(constant.Compare(ka.v, x.Op, kb.v)))
			case token.ADD, token.SUB, token.MUL:
				return set(shK{constant.BinaryOp(ka.v, x.Op, kb.v)})
			}
			return set(shUnk{})
		}
	}
	// length against a constant
	op := x.Op
	if _, ok := b.(shLen); ok {
		a, b = b, a
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	if l, ok := a.(shLen); ok {
		if k, ok := b.(shK); ok {
			n, _ := constant.Int64Val(k.v)
			var sts []*shState
			var vs []shv
			sh.lenCmp(st, l.w, op, n, 0, func(s *shState, v shv) { sts, vs = append(sts, s), append(vs, v) })
			return onAll(x, sts, vs)
		}
		return set(shUnk{})
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		eq := x.Op == token.EQL
		isNil := func(v shv) bool {
			switch p := v.(type) {
			case shPtr:
				return p.c == 0
			case shNilIf:
				return true
			}
			return false
		}
		if isNil(a) || isNil(b) {
			o := a
			if isNil(a) {
				o = b
			}
			if _, unk := o.(shUnk); unk {
				return set(shUnk{})
			}
			y, n, ok := sh.isNilFork(st, o)
			if !ok {
				return set(shUnk{})
			}
			return onAll(x, []*shState{y, n}, []shv{boolK(eq), boolK(!eq)})
		}
		pa, ok1 := a.(shPtr)
		pb, ok2 := b.(shPtr)
		if ok1 && ok2 {
			if pa.c == pb.c {
				// both may be nil or the same node
				return set(boolK(eq))
			}
			ca, cb := st.cells[pa.c], st.cells[pb.c]
			// two distinct cells: equal only when both are nil, which needs both open
			if ca.kind == shSub && !ca.nonEmpty && cb.kind == shSub && !cb.nonEmpty {
				return set(shUnk{})
			}
			if ca.kind == shCtx && !ca.strict || cb.kind == shCtx && !cb.strict {
				return set(shUnk{})
			}
			return set(boolK(!eq))
		}
		aa, ok1 := a.(shAdr)
		ab, ok2 := b.(shAdr)
		if ok1 && ok2 {
			return set(boolK((aa == ab) == eq))
		}
		ea, ok1 := a.(shElem)
		eb, ok2 := b.(shElem)
		if ok1 && ok2 {
			return set(boolK((ea == eb) == eq))
		}
	}
	va, ok1 := a.(shVal)
	vb, ok2 := b.(shVal)
	if ok1 && ok2 {
		sts, rels := sh.forkRel(st, va.a, vb.a)
		var vs []shv
		for _, r := range rels {
			i := map[int]int64{relLT: -1, relEQ: 0, relGT: 1}[r]
			vs = append(vs, boolK(constant.Compare(constant.MakeInt64(i), x.Op, constant.MakeInt64(0))))
		}
		return onAll(x, sts, vs)
	}
	return set(shUnk{})
}

// lenCmp compares the length of word w with n, splitting the word as far as needed.
func (sh *shp) lenCmp(st *shState, w int, op token.Token, n int64, depth int, yield func(*shState, shv)) {
	min, open := int64(0), -1
	for i, at := range st.words[w] {
		a := st.atoms[at]
		if a.seg {
			open = i
			if a.nonEmpty {
				min++
			}
		} else {
			min++
		}
	}
	cmp := func(l int64) bool { return constant.Compare(constant.MakeInt64(l), op, constant.MakeInt64(n)) }
	if open < 0 {
		yield(st, shK{constant.MakeBool(cmp(min))})
		return
	}
	if min > n || (op == token.LSS || op == token.GEQ) && min >= n {
		yield(st, shK{constant.MakeBool(cmp(min + 1))})
		return
	}
	if depth > 4 {
		yield(st, shUnk{})
		return
	}
	seg := st.words[w][open]
	h := st.clone()
	x, rest := h.atom(false, st.atoms[seg].mask), h.atom(true, st.atoms[seg].mask)
	ne := st.atoms[seg].nonEmpty
	h.subst(seg, x, rest)
	sh.lenCmp(h, w, op, n, depth+1, yield)
	if !ne {
		st.subst(seg)
		sh.lenCmp(st, w, op, n, depth+1, yield)
	}
}

func (sh *shp) call(st *shState, f *shFrame, x *ssa.Call, onAll func(ssa.Value, []*shState, []shv) []*shState) []*shState {
	one := []*shState{st}
	var args []shv
	for _, a := range x.Call.Args {
		args = append(args, sh.get(st, f, a))
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if w, ok := args[0].(shSlice); ok {
				all := true
				for _, a := range st.words[w.w] {
					all = all && !st.atoms[a].seg
				}
				if all {
					f.regs[x] = shK{constant.MakeInt64(int64(len(st.words[w.w])))}
				} else {
					f.regs[x] = shLen{w.w}
				}
				return one
			}
		case "append":
			w, ok := args[0].(shSlice)
			u, ok2 := args[1].(shSlice)
			if ok && ok2 {
				nw := st.id()
				st.words[nw] = append(append([]int{}, st.words[w.w]...), st.words[u.w]...)
				f.regs[x] = shSlice{nw}
				return one
			}
		}
		sh.fail("builtin " + b.Name())
		return nil
	}
	fn := x.Call.StaticCallee()
	if fn == nil {
		sh.fail("dynamic call at " + sh.pos(x))
		return nil
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "container/list" {
		return sh.listCall(st, f, x, fn, args, onAll)
	}
	if sh.logIns != nil && fn == sh.logIns {
		if p, ok := args[0].(shPtr); ok && p.c == st.root {
			if v, ok := args[1].(shVal); ok {
				st.log = append(st.log, v.a)
				return one
			}
		}
		sh.fail("insert argument")
		return nil
	}
	if sh.compare(fn) && len(args) == 2 {
		va, ok1 := args[0].(shVal)
		vb, ok2 := args[1].(shVal)
		if !ok1 || !ok2 {
			sh.fail("compare of non-values")
			return nil
		}
		sts, rels := sh.forkRel(st, va.a, vb.a)
		var vs []shv
		for i, r := range rels {
			c := map[int]int64{relLT: -1, relEQ: 0, relGT: 1}[r]
			vs = append(vs, shK{constant.MakeInt64(c)})
			sts[i].trail = append(sts[i].trail, fmt.Sprintf("%s: comparison is %d", sh.pos(x), c))
			if len(sts[i].trail) > 6 {
				sts[i].trail = sts[i].trail[1:]
			}
		}
		return onAll(x, sts, vs)
	}
	if !inModule(fn) || len(fn.Blocks) == 0 {
		sh.fail("external call " + fn.String())
		return nil
	}
	if len(st.frames) > 5 {
		sh.fail("recursion")
		return nil
	}
	sh.push(st, fn, args)
	return one
}

func (sh *shp) push(st *shState, fn *ssa.Function, args []shv) {
	sh.fns[shortFn(fn)] = true
	g := &shFrame{fn: fn, blk: fn.Blocks[0], regs: map[ssa.Value]shv{}}
	for i, p := range fn.Params {
		g.regs[p] = args[i]
	}
	st.frames = append(st.frames, g)
}

// listCall models container/list: a list is a word, an element is one of its atoms.
func (sh *shp) listCall(st *shState, f *shFrame, x *ssa.Call, fn *ssa.Function, args []shv, onAll func(ssa.Value, []*shState, []shv) []*shState) []*shState {
	one := []*shState{st}
	if fn.Name() == "New" && fn.Signature.Recv() == nil {
		w := st.id()
		st.words[w] = nil
		f.regs[x] = shList{w}
		return one
	}
	if len(args) == 0 {
		sh.fail("list call")
		return nil
	}
	l, ok := args[0].(shList)
	if !ok {
		if p, isP := args[0].(shPtr); isP && p.c == 0 {
			sh.finish(st, nil, "nil dereference", x)
			return nil
		}
		if ad, isA := args[0].(shAdr); isA {
			l, ok = st.cells[ad.c].f[ad.f].(shList)
		}
	}
	if !ok {
		sh.fail("list value")
		return nil
	}
	switch fn.Name() {
	case "PushBack", "PushFront":
		v, ok := args[1].(shVal)
		if !ok {
			sh.fail("pushed value")
			return nil
		}
		st.events++
		if fn.Name() == "PushBack" {
			st.words[l.w] = append(append([]int{}, st.words[l.w]...), v.a)
		} else {
			st.words[l.w] = append([]int{v.a}, st.words[l.w]...)
		}
		f.regs[x] = shElem{v.a}
		return one
	case "Init":
		st.words[l.w] = nil
		st.events++
		f.regs[x] = l
		return one
	case "Len":
		f.regs[x] = shLen{l.w}
		return one
	case "Front", "Back":
		front := fn.Name() == "Front"
		e, h := sh.headFork(st, l.w, front)
		var sts []*shState
		var vs []shv
		if e != nil {
			sts, vs = append(sts, e), append(vs, shPtr{0})
		}
		if h != nil {
			ws := h.words[l.w]
			a := ws[0]
			if !front {
				a = ws[len(ws)-1]
			}
			sts, vs = append(sts, h), append(vs, shElem{a})
		}
		return onAll(x, sts, vs)
	case "Remove":
		e, ok := args[1].(shElem)
		if !ok {
			if p, isP := args[1].(shPtr); isP && p.c == 0 {
				sh.finish(st, nil, "nil dereference", x)
				return nil
			}
			sh.fail("removed element")
			return nil
		}
		var r []int
		for _, a := range st.words[l.w] {
			if a != e.a {
				r = append(r, a)
			}
		}
		st.words[l.w] = r
		st.events++
		f.regs[x] = shVal{e.a}
		return one
	}
	sh.fail("list." + fn.Name())
	return nil
}

// ---- operations and their required outcomes

// shapeOp decides one container operation.
func (res *FnRes) shapeOp(p *Program, fn *ssa.Function) {
	parts := strings.SplitN(fn.Name(), "_", 3)
	op := parts[2]
	pkg := "/container/bst"
	if parts[0] == "C16" {
		pkg = "/container/queue"
	}
	sh := &shp{p: p, seen: map[string]bool{}, fns: map[string]bool{}}
	sh.compare = func(f *ssa.Function) bool { return f.String() == modPath+"/container.Compare" }
	undecided := func(why string) {
		res.Pairs = append(res.Pairs, PairRes{Name: op, Where: op, Verdict: "unmodelled", Detail: why})
		res.Bads["shape: "+why]++
	}
	sp := p.ssa[modPath+pkg]
	if sp == nil {
		undecided("package " + pkg + " not found")
		return
	}
	typ := map[string]string{"/container/bst": "Tree", "/container/queue": "Queue"}[pkg]
	tn, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		undecided("type " + typ + " not found")
		return
	}
	named := tn.Type().(*types.Named)
	str, ok := named.Underlying().(*types.Struct)
	if !ok {
		undecided(typ + " is not a struct")
		return
	}
	method := func(name string) *ssa.Function {
		if name == "New" {
			return sp.Func("New")
		}
		return p.prog.LookupMethod(types.NewPointer(named), sp.Pkg, name)
	}
	st := newShState()
	st.root = 0
	ct := st.id()
	cell := &shCell{kind: shTree, typ: named}
	cell.f = make([]shv, str.NumFields())
	content := -1
	for i := range cell.f {
		cell.f[i] = shUnk{}
		t := str.Field(i).Type()
		is := false
		if pkg == "/container/bst" {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() == sp.Pkg {
					if ns, ok := n.Underlying().(*types.Struct); ok && sh.nodeFields(n, ns) {
						is = true
					}
				}
			}
		} else {
			if pt, ok := t.Underlying().(*types.Pointer); ok && isListT(pt.Elem()) || isListT(t) {
				is = true
			}
			if sl, ok := t.Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
				is = true
			}
		}
		if is {
			if content >= 0 {
				undecided("two content fields")
				return
			}
			content = i
		}
	}
	if content < 0 {
		undecided("no content field of a modelled kind")
		return
	}
	sh.key = st.atom(false, relAny)
	seg := st.atom(true, relAny)
	st.w0 = []int{seg}
	if pkg == "/container/bst" {
		if op == "New" || op == "first" {
			st.w0 = nil
		}
		c := st.id()
		st.cells[c] = &shCell{kind: shSub, seg: seg}
		cell.f[content] = shPtr{c}
		st.root = ct
	} else {
		w := st.id()
		st.words[w] = []int{seg}
		if sl, ok := str.Field(content).Type().Underlying().(*types.Slice); ok {
			_ = sl
			cell.f[content] = shSlice{w}
		} else {
			cell.f[content] = shList{w}
		}
	}
	st.cells[ct] = cell
	m := method(op)
	if m == nil {
		undecided("no operation " + op)
		return
	}
	var args []shv
	if op != "New" {
		args = append(args, shPtr{ct})
	} else {
		delete(st.cells, ct)
		st.root, st.w0 = 0, nil
	}
	if len(m.Params) > len(args) {
		args = append(args, shVal{sh.key})
	}
	if len(args) != len(m.Params) {
		undecided("parameters of " + op)
		return
	}
	sh.verdict = func(o shOut) (string, string) { return sh.judge(op, pkg, content, o) }
	st.plain = pkg == "/container/queue"
	sh.push(st, m, args)
	sh.explore(st)
	for n := range sh.fns {
		res.Calls = append(res.Calls, n)
	}
	sort.Strings(res.Calls)
	res.Sites = sh.steps
	res.Obls = len(sh.outs)
	if sh.why != "" && !sh.stop {
		undecided(sh.why)
		return
	}
	if len(sh.outs) == 0 {
		undecided("no outcome")
		return
	}
	weak, bad := 0, 0
	for _, o := range sh.outs {
		why, open := sh.judge(op, pkg, content, o)
		switch {
		case open != "" || why != "" && o.st.weak != "":
			weak++
			res.Bads["shape: "+open+o.st.weak]++
		case why != "":
			bad++
			if bad == 1 {
				d := why + " (at " + o.where + ")"
				for _, t := range o.st.trail {
					d += "\n             " + t
				}
				res.Pairs = append(res.Pairs, PairRes{Name: op, Where: typ + "." + op, Verdict: "differs", Detail: d})
			}
		}
	}
	switch {
	case bad > 0:
	case weak > 0:
		res.Pairs = append(res.Pairs, PairRes{Name: op, Verdict: "undecided", Detail: fmt.Sprintf("%d of %d outcomes open", weak, len(sh.outs))})
	default:
		res.Pairs = append(res.Pairs, PairRes{Name: op, Verdict: "equal", How: fmt.Sprintf("shape fixpoint, %d states, %d outcomes", len(sh.seen), len(sh.outs))})
	}
}

func isListT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "container/list" && n.Obj().Name() == "List"
}

// nodeFields recognises a tree node: one value field and two links to its own type.
func (sh *shp) nodeFields(n *types.Named, s *types.Struct) bool {
	var links []int
	v := -1
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if pt, ok := t.(*types.Pointer); ok && types.Identical(pt.Elem(), n) {
			links = append(links, i)
			continue
		}
		if types.IsInterface(t) {
			if v >= 0 {
				return false
			}
			v = i
			continue
		}
		return false
	}
	if len(links) != 2 || v < 0 {
		return false
	}
	sh.node, sh.nf, sh.vf, sh.lf, sh.rf = n, s.NumFields(), v, links[0], links[1]
	if nm := strings.ToLower(s.Field(links[0]).Name()); strings.HasPrefix(nm, "r") || strings.HasPrefix(nm, "gt") || strings.HasPrefix(nm, "hi") {
		sh.lf, sh.rf = links[1], links[0]
	}
	return true
}

func (sh *shp) show(st *shState, w []int) string {
	s := "["
	for i, a := range w {
		if i > 0 {
			s += " "
		}
		switch {
		case a == sh.key:
			s += "arg"
		case a < 0:
			s += "nil"
		case st.atoms[a] == nil:
			s += "?"
		default:
			n := "v"
			if st.atoms[a].seg {
				n = "seg"
			}
			rel := ""
			for _, r := range []struct {
				m int
				s string
			}{{relLT, "<"}, {relEQ, "="}, {relGT, ">"}} {
				if st.atoms[a].mask&r.m != 0 {
					rel += r.s
				}
			}
			s += fmt.Sprintf("%s%d", n, a)
			if rel != "<=>" {
				s += "(" + rel + "arg)"
			}
		}
	}
	return s + "]"
}

// judge compares one outcome with the requirement; why is a violation, open an obligation the
// analysis cannot decide.
func (sh *shp) judge(op, pkg string, content int, o shOut) (why, open string) {
	st := o.st
	eq := func(a, b []int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	// current content of the container
	cur := func(c int) ([]int, string) {
		x := st.cells[c]
		if x == nil {
			return nil, "container lost"
		}
		switch v := x.f[content].(type) {
		case shPtr:
			if pkg != "/container/bst" {
				if v.c == 0 {
					return nil, "nil list"
				}
				return nil, "list"
			}
			w, ok := sh.word(st, v.c, map[int]bool{})
			if !ok {
				return nil, "malformed"
			}
			return w, ""
		case shList:
			return st.words[v.w], ""
		case shSlice:
			return st.words[v.w], ""
		}
		return nil, "content"
	}
	if op == "New" {
		if o.panic != "" {
			return "New: " + o.panic, ""
		}
		p, ok := o.ret[0].(shPtr)
		if !ok || p.c == 0 {
			return "", "result of New"
		}
		w, e := cur(p.c)
		if e == "nil list" {
			return "New returns a queue without a list", ""
		}
		if e != "" {
			return "", e
		}
		if len(w) != 0 {
			return "New returns a container that is not empty", ""
		}
		return "", ""
	}
	ct := 0
	if st.root != 0 {
		ct = st.root
	} else {
		for c, x := range st.cells {
			if x.kind == shTree {
				ct = c
			}
		}
	}
	if o.panic != "" {
		if op == "Dequeue" && len(st.w0) == 0 && o.panic != "never ends" {
			return "", ""
		}
		if op == "Dequeue" && o.panic != "never ends" {
			ne := false
			for _, a := range st.w0 {
				ne = ne || !st.atoms[a].seg || st.atoms[a].nonEmpty
			}
			if !ne {
				return "", "panic on a queue that may be empty"
			}
		}
		return fmt.Sprintf("%s: %s on a container holding %s", op, o.panic, sh.show(st, st.w0)), ""
	}
	w, e := cur(ct)
	if e == "malformed" {
		return op + ": leaves a structure that is not a tree (a node linked twice or in a cycle)", ""
	}
	if e != "" {
		return "", e
	}
	before := st.w0
	unchanged := func() string {
		if !eq(w, before) {
			return fmt.Sprintf("%s: changes the content from %s to %s", op, sh.show(st, before), sh.show(st, w))
		}
		return ""
	}
	nonEmpty := func(ws []int) (yes, known bool) {
		if len(ws) == 0 {
			return false, true
		}
		for _, a := range ws {
			if !st.atoms[a].seg || st.atoms[a].nonEmpty {
				return true, true
			}
		}
		return true, false
	}
	retBool := func() (bool, bool) {
		if len(o.ret) == 1 {
			if k, ok := o.ret[0].(shK); ok && k.v.Kind() == constant.Bool {
				return constant.BoolVal(k.v), true
			}
		}
		return false, false
	}
	switch op {
	case "Insert":
		for i, a := range w {
			if a != sh.key {
				continue
			}
			rest := append(append([]int{}, w[:i]...), w[i+1:]...)
			if !eq(rest, before) {
				break
			}
			for j, b := range w {
				if j < i && st.atoms[b].mask&relGT != 0 {
					return fmt.Sprintf("Insert: the argument is placed after a larger value: %s", sh.show(st, w)), ""
				}
				if j > i && st.atoms[b].mask&relLT != 0 {
					return fmt.Sprintf("Insert: the argument is placed before a smaller value: %s", sh.show(st, w)), ""
				}
			}
			return "", ""
		}
		return fmt.Sprintf("Insert: content %s becomes %s, not the content with the argument added once", sh.show(st, before), sh.show(st, w)), ""
	case "Remove":
		b, ok := retBool()
		if !ok {
			return "", "result of Remove"
		}
		if !b {
			if s := unchanged(); s != "" {
				return s, ""
			}
			for _, a := range before {
				if st.atoms[a].mask&relEQ != 0 && st.atoms[a].mask != 0 {
					return fmt.Sprintf("Remove: reports nothing removed although an equal value may be stored: %s", sh.show(st, before)), ""
				}
			}
			return "", ""
		}
		for i, a := range before {
			if st.atoms[a].mask != relEQ || st.atoms[a].seg {
				continue
			}
			rest := append(append([]int{}, before[:i]...), before[i+1:]...)
			if eq(rest, w) {
				return "", ""
			}
		}
		return fmt.Sprintf("Remove: content %s becomes %s, not the content less one equal value", sh.show(st, before), sh.show(st, w)), ""
	case "Min", "Max":
		if s := unchanged(); s != "" {
			return s, ""
		}
		if len(o.ret) != 1 {
			return "", "result"
		}
		switch r := o.ret[0].(type) {
		case shNilIf:
			if ne, known := nonEmpty(before); ne && known {
				return op + ": no value reported for content " + sh.show(st, before), ""
			} else if !known {
				return "", "emptiness"
			}
			return "", ""
		case shVal:
			if len(before) == 0 {
				return op + ": a value reported for an empty tree", ""
			}
			i := 0
			if op == "Max" {
				i = len(before) - 1
			}
			if before[i] != r.a {
				return fmt.Sprintf("%s: reports v%d of %s", op, r.a, sh.show(st, before)), ""
			}
			return "", ""
		}
		return "", "result"
	case "Enqueue":
		if !eq(w, append(append([]int{}, before...), sh.key)) {
			return fmt.Sprintf("Enqueue: queue %s becomes %s, not the queue with the argument at its end", sh.show(st, before), sh.show(st, w)), ""
		}
		return "", ""
	case "Dequeue":
		if len(before) == 0 {
			return "Dequeue: returns a value from an empty queue", ""
		}
		if a := st.atoms[before[0]]; a.seg {
			if r, ok := o.ret[0].(shVal); ok {
				return fmt.Sprintf("Dequeue: returns v%d of %s, which need not be the first value", r.a, sh.show(st, before)), ""
			}
			return "", "front not inspected"
		}
		if r, ok := o.ret[0].(shVal); !ok || r.a != before[0] {
			if _, unk := o.ret[0].(shUnk); unk {
				return "", "result of Dequeue"
			}
			return fmt.Sprintf("Dequeue: does not return the first value of %s", sh.show(st, before)), ""
		}
		if !eq(w, before[1:]) {
			return fmt.Sprintf("Dequeue: queue %s becomes %s, not the queue less its first value", sh.show(st, before), sh.show(st, w)), ""
		}
		return "", ""
	case "Empty":
		if s := unchanged(); s != "" {
			return s, ""
		}
		b, ok := retBool()
		ne, known := nonEmpty(before)
		if !ok || !known {
			return "", "result of Empty"
		}
		if b == ne {
			return fmt.Sprintf("Empty: reports %v for %s", b, sh.show(st, before)), ""
		}
		return "", ""
	}
	return "", "operation"
}
