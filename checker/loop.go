package main

// Loop summarisation. One symbolic iteration k of the loop body is evaluated with
// placeholders for everything the loop carries (phis and memory cells); the placeholders
// are then replaced by closed forms (invariant, induction variable, last value, element
// written exactly once) or by recurrences.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type formKind int

const (
	fGeneral formKind = iota
	fInv
	fClosed // closed: term in k (and r for arrays)
	fAffine // array written once per index: dim, a, s
	fMod    // ring buffer: written at (k+a) mod p
)

type comp struct {
	name   string // placeholder name
	cell   *cell
	i      int
	sort   Sort
	form   formKind
	lag    bool  // positions from the iteration number on are unwritten
	closed *Term // fClosed: in k
	dim    int
	a      *Term
	s      int64
	p      *Term
	// solution, once the loop is finished
	solved  func(k *Term, idx []*Term) *Term // state at the head of iteration k
	final   func(idx []*Term) *Term          // fAffine: value written at idx
	solving bool
}

type cell struct {
	phi    *ssa.Phi
	leaf   *Leaf
	dims   int
	shape  *shape
	comps  []*comp
	init   func(f *Facts, idx []*Term) Val
	active bool
	r      []*Term // probing variables
	next   []*Term // per comp: value after the iteration (in k, r)
}

type Loop struct {
	ev        *Ev
	key       string
	short     string
	k         *Term
	li        *loopInfo
	fr        *Frame
	phis      []*ssa.Phi
	cells     map[string]*cell
	order     []*cell
	mod       map[*Leaf]bool
	entry     Mem
	base      *Facts // facts at loop entry
	headF     *Facts // facts at head of iteration k
	done      bool
	latchM    Mem
	latchF    *Facts
	K         *Term
	sub       map[string]func([]*Term) *Term
	exitE     []*edge
	exitMem   []Mem
	result    bool
	solveMemo map[string]*Term
}

// headC is the content of a memory leaf at the head of iteration k.
type headC struct {
	l    *Loop
	leaf *Leaf
}

func (h *headC) read(ev *Ev, f *Facts, idx []*Term) Val {
	l := h.l
	// instances allocated by the current iteration are not yet written
	for i, al := range h.leaf.obj.loops {
		if al == l && i < len(idx) && f.simp(mkEq(idx[i], l.k)) == tTrue {
			return zeroVal(h.leaf.typ)
		}
	}
	c := l.memCell(h.leaf)
	if !l.done && !c.active {
		c.active = true
	}
	return ev.simpVal(f, l.headVal(c, f, idx))
}

func (l *Loop) memCell(leaf *Leaf) *cell {
	key := fmt.Sprintf("m%d", leaf.id)
	if c, ok := l.cells[key]; ok {
		return c
	}
	c := &cell{leaf: leaf, dims: leaf.obj.dims}
	ec := l.ev.content(l.entry, leaf)
	c.init = func(f *Facts, idx []*Term) Val { return ec.read(l.ev, f, idx) }
	for i := 0; i < c.dims; i++ {
		c.r = append(c.r, mkVar(fmt.Sprintf("r%d@%s/%s", i, l.short, key), SInt))
	}
	l.setShape(c, typedShape(shapeOf(stripCond(c.init(l.base, c.r))), leaf.typ))
	l.cells[key] = c
	l.order = append(l.order, c)
	return c
}

// shaped stands for a value of a known shape.
type shaped struct{ s *shape }

// stripCond picks a representative for shape purposes.
func stripCond(v Val) Val {
	if c, ok := v.(*CondV); ok {
		if s := condShape(v); !s.bad() {
			return &shaped{s}
		}
		a := stripCond(c.a)
		if isNilVal(a) {
			return stripCond(c.b)
		}
		return a
	}
	return v
}

func (l *Loop) setShape(c *cell, s *shape) {
	c.shape = s
	c.comps = nil
	if s.bad() {
		return
	}
	key := ""
	if c.phi != nil {
		key = c.phi.Name()
	} else {
		key = fmt.Sprintf("m%d", c.leaf.id)
	}
	for i, so := range s.sorts() {
		cp := &comp{name: fmt.Sprintf("κ%s/%s.%d", l.short, key, i), cell: c, i: i, sort: so}
		c.comps = append(c.comps, cp)
	}
}

// initComps are the components of the initial value at idx.
func (l *Loop) initComp(c *cell, i int, f *Facts, idx []*Term) *Term {
	v := c.init(f, idx)
	cs, ok := splitCond(c.shape, v)
	if !ok {
		l.ev.bads["loop init shape"]++
		return mkOpaque("init", c.comps[i].sort)
	}
	if cs[i] == nil {
		return l.dontCare(c.shape, i)
	}
	return cs[i]
}

func splitCond(s *shape, v Val) ([]*Term, bool) {
	if c, ok := v.(*CondV); ok {
		a, ok1 := splitCond(s, c.a)
		b, ok2 := splitCond(s, c.b)
		if !ok1 || !ok2 {
			return nil, false
		}
		r := make([]*Term, len(a))
		for i := range a {
			switch {
			case a[i] == nil:
				r[i] = b[i]
			case b[i] == nil:
				r[i] = a[i]
			default:
				r[i] = mkIte(c.c, a[i], b[i])
			}
		}
		return r, true
	}
	return s.split(v)
}

// dontCare: the component of a nil pointer or slice that is about to get an identity.
func (l *Loop) dontCare(s *shape, i int) *Term {
	var obj *Obj
	j := -1
	var find func(s *shape) bool
	n := i
	find = func(s *shape) bool {
		switch s.kind {
		case 't':
			if n == 0 {
				return true
			}
			n--
		case 'p':
			if n < 1+s.n {
				obj, j = s.obj, n-1
				return true
			}
			n -= 1 + s.n
		case 's':
			if n < 2+s.n {
				obj, j = s.obj, n-2
				return true
			}
			n -= 2 + s.n
		default:
			if s.kind == 'u' {
				if n == 0 {
					return true
				}
				n--
			}
			for _, x := range s.sub {
				if find(x) {
					return true
				}
			}
		}
		return false
	}
	find(s)
	if obj != nil && j >= 0 && j < len(obj.loops) && obj.loops[j] != l {
		return l.ev.instIdx(obj.loops[j])
	}
	return t0
}

func (l *Loop) headVal(c *cell, f *Facts, idx []*Term) Val {
	if c.shape.bad() {
		return l.ev.bad("loop shape " + l.short)
	}
	if l.done && len(c.comps) > 0 && c.comps[0].solved == nil {
		l.solveLate(c)
		if c.shape.bad() {
			return l.ev.bad("loop shape " + l.short)
		}
	}
	var cs []*Term
	for _, cp := range c.comps {
		cs = append(cs, l.headComp(cp, f, l.k, idx))
	}
	return c.shape.join(cs)
}

func inRange(x, k *Term) *Term { return mkAnd(mkNot(mkLt0(x)), mkLt(x, k)) }

// headComp: the component at the head of iteration k.
func (l *Loop) headComp(cp *comp, f *Facts, k *Term, idx []*Term) *Term {
	if l.done {
		return l.solvedComp(cp, k, idx)
	}
	switch cp.form {
	case fInv:
		return l.initComp(cp.cell, cp.i, f, idx)
	case fClosed:
		return cp.closed
	case fAffine:
		j := mkSub(idx[cp.dim], cp.a)
		if cp.s < 0 {
			j = mkNeg(j)
		}
		w := f.simp(inRange(j, k))
		fin := func() *Term { return mkApp(cp.name+"F", cp.sort, idx...) }
		switch w {
		case tTrue:
			return fin()
		case tFalse:
			return l.initComp(cp.cell, cp.i, f, idx)
		}
		return mkIte(w, fin(), l.initComp(cp.cell, cp.i, f, idx))
	case fMod:
		// slot (k+a) mod p is about to be overwritten: it holds the value of iteration k-p
		if idx[cp.dim] == mkFun("imod", SInt, mkAdd(k, cp.a), cp.p) {
			w := f.simp(mkNot(mkLt(k, cp.p)))
			fin := func() *Term {
				rest := append([]*Term{mkSub(k, cp.p)}, idx...)
				return mkApp(cp.name+"F", cp.sort, rest...)
			}
			switch w {
			case tTrue:
				return fin()
			case tFalse:
				return l.initComp(cp.cell, cp.i, f, idx)
			}
			return mkIte(w, fin(), l.initComp(cp.cell, cp.i, f, idx))
		}
	}
	if cp.lag && f.simp(mkLt(idx[cp.dim], k)) == tFalse {
		// only positions below the iteration number have been written
		return l.initComp(cp.cell, cp.i, f, idx)
	}
	return mkApp(cp.name, cp.sort, append([]*Term{k}, idx...)...)
}

func (ev *Ev) getLoop(fr *Frame, li *loopInfo) *Loop {
	key := fmt.Sprintf("%s|%d", fr.ctx, li.header.Index)
	if l, ok := ev.allLoop[key]; ok {
		return l
	}
	ev.loopN++
	short := fmt.Sprintf("%s.%d'%d", fr.fn.Name(), li.header.Index, ev.loopN)
	l := &Loop{ev: ev, key: key, short: short, li: li, k: mkVar("k@"+short, SInt)}
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		l.phis = append(l.phis, p)
	}
	ev.allLoop[key] = l
	return l
}

// syntactic induction: every back edge value is phi + constant (the same one).
func (l *Loop) syntacticStep(p *ssa.Phi) (int64, bool) {
	if !isInteger(p.Type()) {
		return 0, false
	}
	var step int64
	first := true
	for i, e := range p.Edges {
		if !l.li.blocks[p.Block().Preds[i]] {
			continue
		}
		s, ok := addChain(e, p, 0)
		if !ok || (!first && s != step) {
			return 0, false
		}
		step, first = s, false
	}
	return step, !first
}

func addChain(v ssa.Value, p *ssa.Phi, depth int) (int64, bool) {
	if v == p {
		return 0, true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || depth > 4 {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	x := b.X
	if !ok && b.Op.String() == "+" {
		c, ok = b.X.(*ssa.Const)
		x = b.Y
	}
	if !ok || c.Value == nil {
		return 0, false
	}
	n := c.Int64()
	s, ok := addChain(x, p, depth+1)
	switch {
	case !ok:
		return 0, false
	case b.Op.String() == "+":
		return s + n, true
	case b.Op.String() == "-":
		return s - n, true
	}
	return 0, false
}

func (fr *Frame) evalLoop(li *loopInfo, es []*edge, rel []*Term, pc *condNode, mem Mem) []*edge {
	ev := fr.ev
	if ev.shallow {
		return fr.skipLoop(li, pc, mem)
	}
	l := ev.getLoop(fr, li)
	l.fr = fr
	l.entry = mem
	l.base = pc.facts
	l.done = false
	l.sub = nil
	l.cells = map[string]*cell{}
	l.order = nil
	l.mod = map[*Leaf]bool{}
	l.solveMemo = nil
	inits := map[*ssa.Phi]Val{}
	for _, p := range l.phis {
		inits[p] = ev.simpVal(pc.facts, fr.phiVals(p, es, rel))
	}
	for _, p := range l.phis {
		p := p
		c := &cell{phi: p, active: true}
		c.init = func(f *Facts, idx []*Term) Val { return inits[p] }
		l.setShape(c, typedShape(shapeOf(stripCond(inits[p])), p.Type()))
		if len(c.comps) == 1 && c.shape.kind == 't' {
			if s, ok := l.syntacticStep(p); ok {
				c.comps[0].form = fClosed
				c.comps[0].closed = mkAdd(l.initComp(c, 0, l.base, nil), mkMul(mkInt(s), l.k))
			} else if sortOf(p.Type()) == SReal {
				c.comps[0].sort = SReal
			}
		}
		l.cells["p"+p.Name()] = c
		l.order = append(l.order, c)
	}
	l.headF = pc.facts.with(mkNot(mkLt0(l.k)), true)
	oblMark := len(ev.obls)
	nBads := map[string]int{}
	for k, v := range ev.bads {
		nBads[k] = v
	}
	var back, exits, rets []*edge
	ev.loops = append(ev.loops, l)
	for round := 0; ; round++ {
		if round > 10 {
			ev.bads["loop rounds"]++
			break
		}
		ev.obls = ev.obls[:oblMark]
		for k := range ev.bads {
			if v, ok := nBads[k]; ok {
				ev.bads[k] = v
			} else {
				delete(ev.bads, k)
			}
		}
		hm := mem.clone()
		for leaf := range l.mod {
			hm[leaf] = &headC{l, leaf}
		}
		for _, p := range l.phis {
			c := l.cells["p"+p.Name()]
			fr.env[p] = l.headVal(c, l.headF, nil)
		}
		start := &condNode{facts: l.headF, depth: 0}
		back, exits, rets = fr.region(li, li.header, start, hm)
		if len(back) == 0 {
			// never iterates twice
			l.latchM, l.latchF = hm, l.headF
			break
		}
		bpc, brel, bm := fr.join(back)
		l.latchM, l.latchF = bm, bpc.facts
		changed := false
		// phis
		for _, p := range l.phis {
			c := l.cells["p"+p.Name()]
			nv := fr.phiVals(p, back, brel)
			if l.updateShape(c, nv) {
				changed = true
				continue
			}
			l.setNext(c, nv)
		}
		// memory
		var leaves []*Leaf
		for leaf := range bm {
			leaves = append(leaves, leaf)
		}
		sort.Slice(leaves, func(i, j int) bool { return leaves[i].id < leaves[j].id })
		for _, leaf := range leaves {
			if l.mod[leaf] {
				continue
			}
			if !sameContent(bm[leaf], ev.content(mem, leaf)) {
				l.mod[leaf] = true
				changed = true
			}
		}
		if changed && round == 0 {
			continue
		}
		for _, c := range l.order {
			if c.leaf == nil || !c.active {
				continue
			}
			nv := ev.content(bm, c.leaf).read(ev, l.latchF, c.r)
			if l.updateShape(c, nv) {
				changed = true
				continue
			}
			l.setNext(c, nv)
		}
		if changed {
			// assumptions about the modified set or shapes changed: forget derived forms
			for _, c := range l.order {
				for _, cp := range c.comps {
					if c.phi != nil && cp.form == fClosed && len(c.comps) == 1 {
						if _, ok := l.syntacticStep(c.phi); ok {
							continue
						}
					}
					cp.form = fGeneral
					cp.lag = false
				}
			}
			continue
		}
		if !l.deriveForms() {
			break
		}
	}
	ev.loops = ev.loops[:len(ev.loops)-1]
	for _, r := range rets {
		r.to = nil
		exits = append(exits, r)
	}
	return fr.finishLoop(l, pc, exits, oblMark)
}

// skipLoop forgets everything a loop computes: its values, and from here on all memory.
func (fr *Frame) skipLoop(li *loopInfo, pc *condNode, mem Mem) []*edge {
	ev := fr.ev
	ev.havocked = true
	var out []*edge
	for _, b := range fr.fn.Blocks {
		if !li.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = &BadV{"loop"}
				if isScalar(v.Type()) || isTime(v.Type()) {
					fr.env[v] = mkOpaque("loop", sortOf(v.Type()))
				}
			}
		}
		for _, s := range b.Succs {
			if !li.blocks[s] {
				out = append(out, &edge{from: b, to: s, pc: pc, mem: mem})
			}
		}
	}
	for i := range out[:max(len(out)-1, 0)] {
		c := mkOpaque("exit", SBool)
		out[i].pc = pc.then(c, true)
		pc = pc.then(c, false)
	}
	if len(out) > 0 {
		out[len(out)-1].pc = pc
	}
	return out
}

func sameContent(a, b Content) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(zeroC)
	y, ok2 := b.(zeroC)
	if ok1 && ok2 {
		return x.t == y.t
	}
	p, ok1 := a.(*inputC)
	q, ok2 := b.(*inputC)
	return ok1 && ok2 && p.leaf == q.leaf
}

func (l *Loop) updateShape(c *cell, nv Val) bool {
	if c.shape.bad() {
		return false
	}
	ns := unifyShape(c.shape, condShape(nv))
	if ns.eq(c.shape) {
		return false
	}
	l.setShape(c, ns)
	return true
}

func condShape(v Val) *shape {
	if c, ok := v.(*CondV); ok {
		return unifyShape(condShape(c.a), condShape(c.b))
	}
	return shapeOf(v)
}

func (l *Loop) setNext(c *cell, nv Val) {
	c.next = nil
	if c.shape.bad() {
		return
	}
	cs, ok := splitCond(c.shape, nv)
	if !ok {
		l.ev.bads["loop next shape"]++
		for _, cp := range c.comps {
			c.next = append(c.next, mkOpaque("next", cp.sort))
		}
		return
	}
	for i, x := range cs {
		if x == nil {
			x = l.headComp(c.comps[i], l.latchF, l.k, c.r)
		}
		c.next = append(c.next, l.latchF.simp(x))
	}
}

func (l *Loop) ownPlaceholders(t *Term) bool {
	if !t.ph {
		return false
	}
	found := false
	visitTerms(t, func(x *Term) bool {
		if x.op == OpApp && strings.HasPrefix(x.name, "κ"+l.short+"/") {
			found = true
		}
		return !found
	})
	return found
}

// visitTerms walks a term including recurrence bodies; fn returns false to prune.
func visitTerms(t *Term, fn func(*Term) bool) {
	seen := map[int]bool{}
	gs := map[int]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if !fn(t) {
			return
		}
		if t.poly != nil {
			for _, m := range t.poly.m {
				for _, f := range m.fac {
					walk(f.a)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.grp != nil && !gs[t.grp.id] {
			gs[t.grp.id] = true
			for _, b := range t.grp.body {
				walk(b)
			}
		}
	}
	walk(t)
}

func hasVar(t, v *Term) bool {
	for _, x := range t.fv {
		if x == v {
			return true
		}
	}
	return false
}

// deriveForms improves forms; reports whether anything changed.
func (l *Loop) deriveForms() bool {
	changed := false
	for _, c := range l.order {
		if !c.active || c.shape.bad() || c.next == nil {
			continue
		}
		for i, cp := range c.comps {
			if cp.form != fGeneral {
				continue
			}
			if c.dims == 0 {
				if l.scalarForm(c, cp, c.next[i]) {
					changed = true
				}
			} else if l.arrayForm(c, cp, c.next[i]) {
				changed = true
			} else if !cp.lag && l.lagForm(c, cp, c.next[i]) {
				changed = true
			}
		}
	}
	return changed
}

func (l *Loop) scalarForm(c *cell, cp *comp, next *Term) bool {
	cur := l.headComp(cp, l.latchF, l.k, nil)
	init := l.initComp(c, cp.i, l.base, nil)
	if next == cur || next == init {
		if next == init && next != cur && l.ownPlaceholders(next) {
			return false
		}
		cp.form = fInv
		return true
	}
	if cp.sort == SInt || cp.sort == SReal {
		d := mkSub(next, cur)
		if !l.ownPlaceholders(d) {
			if !hasVar(d, l.k) {
				cp.form = fClosed
				cp.closed = mkAdd(init, mkMul(d, l.k))
				return true
			}
			if cl, ok := l.guardedStep(d); ok {
				cp.form = fClosed
				cp.closed = mkAdd(init, cl)
				return true
			}
		} else if cl, ok := l.saturating(cur, next, init); ok {
			cp.form = fClosed
			cp.closed = cl
			return true
		}
	}
	if !l.ownPlaceholders(next) {
		// last value
		cp.form = fClosed
		s := newSubst()
		s.vars[l.k.id] = mkSub(l.k, t1)
		prev := s.apply(next)
		if prev == init {
			cp.closed = init
		} else {
			cp.closed = mkIte(mkEq0(l.k), init, prev)
		}
		return true
	}
	return false
}

// guardedStep: d = [k - b < 0 ? c0 : c1] with constants: closed sum.
func (l *Loop) guardedStep(d *Term) (*Term, bool) {
	if d.op != OpIte || d.args[0].op != OpLt0 {
		return nil, false
	}
	c0, ok0 := d.args[1].constInt()
	c1, ok1 := d.args[2].constInt()
	if !ok0 || !ok1 {
		return nil, false
	}
	co, b, ok := affineIn(d.args[0].args[0], l.k)
	if !ok || co != 1 || l.ownPlaceholders(b) {
		return nil, false
	}
	// k + b < 0 holds for k < -b; number of iterations below min(k, max(0,-b))
	nb := mkMax(t0, mkNeg(b))
	first := l.base.simp(mkMin(l.k, nb))
	first = l.headF.simp(first)
	return mkAdd(mkMul(mkInt(c0), first), mkMul(mkInt(c1), mkSub(l.k, first))), true
}

// saturating: next = [cur < b ? cur+1 : cur] counts up to b and stays there.
func (l *Loop) saturating(cur, next, init *Term) (*Term, bool) {
	if next.op != OpIte || next.sort != SInt || next.args[0].op != OpLt0 {
		return nil, false
	}
	var b *Term
	c := next.args[0].args[0]
	switch {
	case mkSub(next.args[1], cur) == t1 && next.args[2] == cur: // cur - b < 0
		b = mkSub(cur, c)
	case mkSub(next.args[2], cur) == t1 && next.args[1] == cur: // not (b-1) - cur < 0
		b = mkAdd(mkAdd(c, cur), t1)
	default:
		return nil, false
	}
	if l.ownPlaceholders(b) || hasVar(b, l.k) {
		return nil, false
	}
	room := l.base.simp(mkMax(t0, mkSub(b, init)))
	return mkAdd(init, l.headF.simp(mkMin(l.k, room))), true
}

// affineIn: t = co*v + b with b free of v.
func affineIn(t, v *Term) (co int64, b *Term, ok bool) {
	p := toPoly(t)
	rest := []Mono{}
	for _, m := range p.m {
		has := false
		for _, f := range m.fac {
			if f.a == v || hasVar(f.a, v) {
				has = true
			}
		}
		if !has {
			rest = append(rest, m)
			continue
		}
		if len(m.fac) != 1 || m.fac[0].a != v || m.fac[0].e != 1 || !m.coef.IsInt() || !m.coef.Num().IsInt64() {
			return 0, nil, false
		}
		co = m.coef.Num().Int64()
	}
	if co == 0 {
		return 0, nil, false
	}
	return co, mkPolyTerm(&Poly{m: rest}), true
}

// lagForm: the only position written in iteration k is a counter that never exceeds k.
func (l *Loop) lagForm(c *cell, cp *comp, next *Term) bool {
	cur := l.headComp(cp, l.latchF, l.k, c.r)
	for _, pc := range l.order {
		if pc.phi == nil || len(pc.comps) != 1 || !l.slowCounter(pc) {
			continue
		}
		t := l.headComp(pc.comps[0], l.latchF, l.k, nil)
		for d, r := range c.r {
			f := l.latchF.add(mkEq(r, t), false)
			if f.simp(next) == f.simp(cur) {
				cp.lag, cp.dim = true, d
				return true
			}
		}
	}
	return false
}

// slowCounter: starts at zero or below and grows by at most one per iteration.
func (l *Loop) slowCounter(c *cell) bool {
	if !isInteger(c.phi.Type()) || c.shape.kind != 't' {
		return false
	}
	if l.base.simp(mkLt(t0, l.initComp(c, 0, l.base, nil))) != tFalse {
		return false
	}
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == ssa.Value(c.phi) || seen[v] {
			return true
		}
		if s, is := addChain(v, c.phi, 0); is {
			return s <= 1
		}
		p, is := v.(*ssa.Phi)
		if !is || !l.li.blocks[p.Block()] || p.Block() == l.li.header {
			return false
		}
		if l.ev.info(p.Parent()).heads[p.Block()] != nil {
			return false // an inner loop
		}
		seen[v] = true
		for _, e := range p.Edges {
			if !ok(e) {
				return false
			}
		}
		return true
	}
	for i, e := range c.phi.Edges {
		if l.li.blocks[c.phi.Block().Preds[i]] && !ok(e) {
			return false
		}
	}
	return true
}

func (l *Loop) arrayForm(c *cell, cp *comp, next *Term) bool {
	cur := l.headComp(cp, l.latchF, l.k, c.r)
	if next == cur {
		cp.form = fInv
		return true
	}
	// candidate store positions
	type cand struct {
		atom *Term
		dim  int
		a    *Term
		s    int64
		mod  *Term
	}
	var cands []cand
	visitTerms(next, func(x *Term) bool {
		if x.op == OpRec || x.op == OpFirst {
			return false
		}
		if x.op != OpEq0 || !hasVar(x, l.k) {
			return true
		}
		for d, r := range c.r {
			co, b, ok := affineIn(x.args[0], r)
			if !ok || (co != 1 && co != -1) {
				continue
			}
			w := mkNeg(b) // co*r + b == 0
			if co == -1 {
				w = b
			}
			bad := false
			for _, r2 := range c.r {
				if hasVar(w, r2) {
					bad = true
				}
			}
			if bad || l.ownPlaceholders(w) {
				continue
			}
			if k2, a, ok := affineIn(w, l.k); ok && (k2 == 1 || k2 == -1) {
				cands = append(cands, cand{x, d, a, k2, nil})
			} else if w.op == OpApp && w.name == "imod" {
				if k2, a, ok := affineIn(w.args[0], l.k); ok && k2 == 1 && !hasVar(w.args[1], l.k) {
					cands = append(cands, cand{x, d, a, 1, w.args[1]})
				}
			}
		}
		return true
	})
	for _, cd := range cands {
		f := l.latchF.add(cd.atom, false)
		if f.contradictory() {
			continue
		}
		off := f.simp(next)
		if off != f.simp(cur) {
			continue
		}
		if cd.mod != nil {
			cp.form = fMod
			cp.p = cd.mod
		} else {
			cp.form = fAffine
		}
		cp.dim, cp.a, cp.s = cd.dim, cd.a, cd.s
		return true
	}
	return false
}

// ---- finishing

// firstTrue: least k >= 0 with cond(k), for monotone affine conditions.
func (l *Loop) firstTrue(c *Term) (*Term, bool) {
	switch c.op {
	case OpBool:
		if c.bval {
			return t0, true
		}
		return nil, false
	case OpLt0:
		co, b, ok := affineIn(c.args[0], l.k)
		if !ok || l.ownPlaceholders(b) || co >= 0 {
			return nil, false
		}
		// co*k + b < 0, co < 0: k > b/|co|
		if co == -1 {
			return l.base.max0(mkAdd(b, t1)), true
		}
		return l.base.max0(mkAdd(mkFun("idiv", SInt, b, mkInt(-co)), t1)), true
	case OpEq0:
		co, b, ok := affineIn(c.args[0], l.k)
		if !ok || l.ownPlaceholders(b) || (co != 1 && co != -1) {
			return nil, false
		}
		if co == 1 {
			return mkNeg(b), true
		}
		return b, true
	case OpIte:
		a, x, y := c.args[0], c.args[1], c.args[2]
		if x == tFalse && y == tTrue { // negated atom
			if a.op != OpLt0 {
				return nil, false
			}
			co, b, ok := affineIn(a.args[0], l.k)
			if !ok || l.ownPlaceholders(b) || co <= 0 {
				return nil, false
			}
			// co*k + b >= 0: k >= -b/co
			if co == 1 {
				return l.base.max0(mkNeg(b)), true
			}
			return l.base.max0(mkFun("idiv", SInt, mkAdd(mkNeg(b), mkInt(co-1)), mkInt(co))), true
		}
		var p, q *Term
		if x == tTrue {
			p, q = a, y
		} else if y == tTrue {
			p, q = mkNot(a), x
		} else {
			return nil, false
		}
		k1, ok1 := l.firstTrue(p)
		k2, ok2 := l.firstTrue(q)
		if ok1 && ok2 {
			return mkMin(k1, k2), true
		}
	}
	return nil, false
}

// max0 is max(0, t), with the sign decided by the facts when possible.
func (f *Facts) max0(t *Term) *Term {
	if f.simp(mkLt0(t)) == tFalse {
		return t
	}
	return mkMax(t0, t)
}

func (fr *Frame) finishLoop(l *Loop, pc *condNode, exits []*edge, oblMark int) []*edge {
	ev := fr.ev
	if len(exits) == 0 {
		return nil
	}
	l.done = true
	l.exitE = exits
	root := exits[0].pc
	for root.parent != nil {
		root = root.parent
	}
	conds := make([]*Term, len(exits))
	tot := tFalse
	for i, e := range exits {
		conds[i] = l.headF.simp(relCond(rootOf(e.pc), e.pc))
		tot = mkOr(tot, conds[i])
	}
	tot = l.headF.simp(tot)
	l.solveActive()
	var K *Term
	if k, ok := l.firstTrue(tot); ok {
		K = l.base.simp(k)
		l.K = K
	} else {
		cond := l.resolve(tot)
		v := mkFreshVar("k", SInt)
		s := newSubst()
		s.vars[l.k.id] = v
		g := mkRecGroup("first", [][]*Term{{v}}, []*Term{s.apply(cond)}, "", true)
		K = mkRec(g, 0, nil)
		l.K = K
	}
	// values used after the loop
	at := l.exitSubst()
	for b := range l.li.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			x, ok := fr.env[v]
			if !ok {
				continue
			}
			used := false
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					if !l.li.blocks[r.Block()] {
						used = true
					}
				}
			}
			if used {
				fr.env[v] = mapVal(x, at)
			}
		}
	}
	// obligations recorded in the body
	for _, o := range ev.obls[oblMark:] {
		if o.cond != nil {
			o.cond = l.resolve(o.cond)
		}
		for i := range o.facts {
			o.facts[i].t = l.resolve(o.facts[i].t)
		}
		if c := mkLe(l.k, K); c != tTrue {
			o.facts = append(o.facts, lit{c, true})
		}
	}
	var out []*edge
	multi := len(exits) > 1
	for i, e := range exits {
		n := &edge{from: e.from, to: e.to, pc: pc}
		f := pc.facts
		if multi {
			c := f.simp(at(conds[i]))
			if c == tFalse {
				continue
			}
			if c != tTrue {
				n.pc = pc.then(c, true)
			}
		}
		n.mem = l.entry.clone()
		for leaf := range l.mod {
			n.mem[leaf] = &exitC{l: l, inner: ev.content(e.mem, leaf), facts: e.pc.facts, leaf: leaf}
		}
		for leaf, c := range e.mem {
			if !l.mod[leaf] {
				if ec, ok := l.entry[leaf]; !ok || ec != c {
					if !sameContent(c, ev.content(l.entry, leaf)) {
						n.mem[leaf] = &exitC{l: l, inner: c, facts: e.pc.facts, leaf: leaf}
					}
				}
			}
		}
		if e.to == nil {
			n.ret = mapVal(e.ret, at)
		}
		out = append(out, n)
	}
	return out
}

func rootOf(c *condNode) *condNode {
	for c.parent != nil {
		c = c.parent
	}
	return c
}

// exitC is the content of a leaf after the loop: the content at the exit edge with k := K.
type exitC struct {
	l     *Loop
	inner Content
	facts *Facts
	leaf  *Leaf
	memo  map[string]Val
}

func (c *exitC) read(ev *Ev, f *Facts, idx []*Term) Val {
	key := idxKey(idx)
	v, ok := c.memo[key]
	if !ok {
		// read at fresh indices under the facts inside the loop, then instantiate
		v = mapVal(c.inner.read(ev, c.facts, idx), c.l.exitSubst())
		if c.memo == nil {
			c.memo = map[string]Val{}
		}
		c.memo[key] = v
	}
	return ev.simpVal(f, v)
}

func (l *Loop) exitSubst() func(*Term) *Term {
	s := newSubst()
	s.apps = l.subs()
	s.vars[l.k.id] = l.K
	return func(t *Term) *Term {
		if !t.ph && !hasVar(t, l.k) {
			return t
		}
		return s.apply(t)
	}
}

// resolve replaces this loop's placeholders by their solutions (k stays free).
func (l *Loop) resolve(t *Term) *Term {
	if !t.ph {
		return t
	}
	s := newSubst()
	s.apps = l.subs()
	return s.apply(t)
}

func (l *Loop) subs() map[string]func([]*Term) *Term {
	if l.sub != nil {
		return l.sub
	}
	m := map[string]func([]*Term) *Term{}
	for _, c := range l.order {
		for _, cp := range c.comps {
			cp := cp
			m[cp.name] = func(a []*Term) *Term { return l.solvedComp(cp, a[0], a[1:]) }
			if cp.form == fAffine {
				m[cp.name+"F"] = func(a []*Term) *Term { return l.finalComp(cp, a) }
			}
			if cp.form == fMod {
				m[cp.name+"F"] = func(a []*Term) *Term { return l.finalComp(cp, a) }
			}
		}
	}
	l.sub = m
	return m
}

// solvedComp: value of the component at the head of iteration k after solving.
func (l *Loop) solvedComp(cp *comp, k *Term, idx []*Term) *Term {
	if cp.solved == nil {
		l.solveLate(cp.cell)
		if cp.solved == nil && cp.i < len(cp.cell.comps) {
			cp = cp.cell.comps[cp.i] // the shape was refined while solving
		}
	}
	if cp.solved == nil {
		return mkOpaque("unsolved", cp.sort)
	}
	return cp.solved(k, idx)
}

func (l *Loop) finalComp(cp *comp, idx []*Term) *Term {
	if cp.final == nil {
		return mkOpaque("unsolved", cp.sort)
	}
	return cp.final(idx)
}

// solveLate handles a memory cell nobody read inside the loop.
func (l *Loop) solveLate(c *cell) {
	if c.leaf == nil || c.shape.bad() {
		return
	}
	for _, cp := range c.comps {
		if cp.solving {
			return
		}
	}
	l.done = false // placeholders again while probing
	saved := l.ev.loops
	nv := l.ev.content(l.latchM, c.leaf).read(l.ev, l.latchF, c.r)
	for n := 0; n < 3 && l.updateShape(c, nv); n++ {
		nv = l.ev.content(freshMem(l, c), c.leaf).read(l.ev, l.latchF, c.r)
	}
	l.setNext(c, nv)
	for i, cp := range c.comps {
		if c.next == nil {
			break
		}
		if c.dims == 0 {
			l.scalarForm(c, cp, c.next[i])
		} else {
			l.arrayForm(c, cp, c.next[i])
		}
	}
	l.ev.loops = saved
	l.done = true
	l.sub = nil
	l.solveCells([]*cell{c})
}

// freshMem: contents memoise reads, so a probe after a shape change must bypass memos.
func freshMem(l *Loop, c *cell) Mem {
	m := Mem{}
	m[c.leaf] = unmemo(l.ev.content(l.latchM, c.leaf))
	return m
}

func unmemo(c Content) Content {
	switch x := c.(type) {
	case *storeC:
		return &storeC{prev: unmemo(x.prev), idx: x.idx, val: x.val}
	case *mergeC:
		return &mergeC{cond: x.cond, a: unmemo(x.a), b: unmemo(x.b)}
	case *copyC:
		return &copyC{prev: unmemo(x.prev), prefix: x.prefix, lo: x.lo, n: x.n, src: x.src}
	case *exitC:
		return &exitC{l: x.l, inner: unmemo(x.inner), facts: x.facts, leaf: x.leaf}
	}
	return c
}

func (l *Loop) solveActive() {
	var cs []*cell
	for _, c := range l.order {
		if c.active && !c.shape.bad() {
			cs = append(cs, c)
		}
	}
	l.solveCells(cs)
}

type node struct {
	cp    *comp
	final bool // the F function of an array, else the state function
	body  *Term
	vars  []*Term // parameters: (k, r...) or (r...)
	deps  []*node
	index int
	low   int
	on    bool
}

func (n *node) name() string {
	if n.final {
		return n.cp.name + "F"
	}
	return n.cp.name
}

func (l *Loop) solveCells(cs []*cell) {
	l.sub = nil
	var nodes []*node
	byName := map[string]*node{}
	for _, c := range cs {
		for _, cp := range c.comps {
			cp := cp
			if cp.solved != nil {
				continue
			}
			cp.solving = true
			init := func(idx []*Term) *Term { return l.initComp(c, cp.i, l.base, idx) }
			switch cp.form {
			case fInv:
				cp.solved = func(k *Term, idx []*Term) *Term { return init(idx) }
				continue
			case fClosed:
				cl := cp.closed
				cp.solved = func(k *Term, idx []*Term) *Term {
					s := newSubst()
					s.vars[l.k.id] = k
					return s.apply(cl)
				}
				continue
			}
			if c.next == nil {
				cp.solved = func(k *Term, idx []*Term) *Term { return mkOpaque("noback", cp.sort) }
				if len(l.fr.fn.Blocks) > 0 && l.latchM != nil {
					cp.solved = func(k *Term, idx []*Term) *Term { return init(idx) }
				}
				continue
			}
			n := &node{cp: cp, index: -1}
			next := c.next[cp.i]
			switch cp.form {
			case fAffine:
				// value written at r: unwritten slot keeps its initial value
				own := mkApp(cp.name, cp.sort, append([]*Term{l.k}, c.r...)...)
				s := newSubst()
				s.atoms = map[int]*Term{own.id: init(c.r)}
				w := s.apply(next)
				s2 := newSubst()
				j := mkSub(c.r[cp.dim], cp.a)
				if cp.s < 0 {
					j = mkNeg(j)
				}
				s2.vars[l.k.id] = j
				w = s2.apply(w)
				f := l.base.with(mkNot(mkLt0(j)), true)
				n.body = f.simp(w)
				n.final = true
				n.vars = c.r
				cp.solved = func(k *Term, idx []*Term) *Term {
					j := mkSub(idx[cp.dim], cp.a)
					if cp.s < 0 {
						j = mkNeg(j)
					}
					w := l.base.simp(inRange(j, k))
					if w == tFalse {
						return init(idx)
					}
					return mkIte(w, l.finalComp(cp, idx), init(idx))
				}
			case fMod:
				own := mkApp(cp.name, cp.sort, append([]*Term{l.k}, c.r...)...)
				s := newSubst()
				s.atoms = map[int]*Term{own.id: init(c.r)}
				w := s.apply(next)
				s2 := newSubst()
				s2.vars[c.r[cp.dim].id] = mkFun("imod", SInt, mkAdd(l.k, cp.a), cp.p)
				w = s2.apply(w)
				n.body = l.headF.simp(w)
				n.final = true
				n.vars = append([]*Term{l.k}, c.r...)
				cp.solved = func(k *Term, idx []*Term) *Term {
					// slot x was last written in the latest iteration j < k with (j+a) mod p = x
					x := idx[cp.dim]
					j := mkSub(mkSub(k, t1), mkFun("imod", SInt, mkAdd(mkSub(mkAdd(mkSub(k, t1), cp.a), x), cp.p), cp.p))
					fin := l.finalComp(cp, append([]*Term{j}, idx...))
					return mkIte(mkLt0(j), init(idx), fin)
				}
			default:
				s := newSubst()
				s.vars[l.k.id] = mkSub(l.k, t1)
				n.body = mkIte(mkEq0(l.k), init(c.r), s.apply(next))
				n.vars = append([]*Term{l.k}, c.r...)
			}
			byName[n.name()] = n
			nodes = append(nodes, n)
		}
	}
	// dependencies
	for _, n := range nodes {
		seen := map[*node]bool{}
		visitTerms(n.body, func(x *Term) bool {
			if x.op == OpApp && x.ph {
				if d, ok := byName[x.name]; ok && !seen[d] {
					seen[d] = true
					n.deps = append(n.deps, d)
				} else if !ok {
					// affine state placeholder: depends on its final function
					if d, ok := byName[x.name+"F"]; ok && !seen[d] {
						seen[d] = true
						n.deps = append(n.deps, d)
					}
				}
			}
			return true
		})
	}
	// SCCs (Tarjan)
	idx := 0
	var stack []*node
	var scc func(n *node)
	scc = func(n *node) {
		n.index, n.low = idx, idx
		idx++
		stack = append(stack, n)
		n.on = true
		for _, d := range n.deps {
			if d.index < 0 {
				scc(d)
				if d.low < n.low {
					n.low = d.low
				}
			} else if d.on && d.index < n.low {
				n.low = d.index
			}
		}
		if n.low == n.index {
			var g []*node
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				x.on = false
				g = append(g, x)
				if x == n {
					break
				}
			}
			sort.Slice(g, func(i, j int) bool { return g[i].name() < g[j].name() })
			l.solveGroup(g)
		}
	}
	for _, n := range nodes {
		if n.index < 0 {
			scc(n)
		}
	}
	for _, c := range cs {
		for _, cp := range c.comps {
			cp.solving = false
		}
	}
	l.sub = nil
}

func (l *Loop) solveGroup(g []*node) {
	l.sub = nil
	self := false
	in := map[*node]bool{}
	for _, n := range g {
		in[n] = true
	}
	for _, n := range g {
		for _, d := range n.deps {
			if in[d] {
				self = true
			}
		}
	}
	define := func(n *node, fn func(args []*Term) *Term) {
		if n.final {
			n.cp.final = func(idx []*Term) *Term { return fn(idx) }
		} else {
			n.cp.solved = func(k *Term, idx []*Term) *Term { return fn(append([]*Term{k}, idx...)) }
		}
	}
	if !self {
		n := g[0]
		body := l.resolve(n.body)
		define(n, func(args []*Term) *Term {
			s := newSubst()
			for i, v := range n.vars {
				s.vars[v.id] = args[i]
			}
			return s.apply(body)
		})
		return
	}
	// drop parameters that are passed unchanged? kept: they are part of the argument list
	tag := freshMuTag()
	var params [][]*Term
	var bodies []*Term
	for i, n := range g {
		i := i
		define(n, func(args []*Term) *Term { return mkApp(muName(tag, i), n.cp.sort, args...) })
	}
	for _, n := range g {
		l.sub = nil
		b := l.resolve(n.body)
		var ps []*Term
		s := newSubst()
		for _, v := range n.vars {
			q := mkFreshVar("p", v.sort)
			s.vars[v.id] = q
			ps = append(ps, q)
		}
		params = append(params, ps)
		bodies = append(bodies, s.apply(b))
	}
	name := l.fr.fn.Name()
	grp := mkRecGroup(name, params, bodies, tag, false)
	for i, n := range g {
		i := i
		define(n, func(args []*Term) *Term { return mkRec(grp, i, args) })
	}
	l.sub = nil
}

var _ = types.Identical

// typedShape gives a scalar the sort of its declared type.
func typedShape(s *shape, t types.Type) *shape {
	if s != nil && s.kind == 't' && sortOf(t) == SReal {
		r := *s
		r.sort = SReal
		return &r
	}
	return s
}
