package main

// Gated evaluation of SSA: every value of a function is expressed as a term over the
// function's inputs; joins become conditional terms, loops become recurrences (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	unknown bool // fillElems writes unknown values
	ev      *Ev
	fn      *ssa.Function
	ctx     string
	env     map[ssa.Value]Val
	info    *funcInfo
	defers  []*ssa.Defer
	parent  *Frame
	site    ssa.Instruction
}

// condNode is a chain of branch conditions from the region entry, with the facts after it.
type condNode struct {
	parent *condNode
	depth  int
	cond   *Term // nil for the root
	facts  *Facts
	base   *condNode // the node this one refines with more facts
}

// id: nodes refined by withFacts keep their place in the tree.
func (c *condNode) id() *condNode {
	for c.base != nil {
		c = c.base
	}
	return c
}

func (c *condNode) then(cond *Term, v bool) *condNode {
	k := cond
	if !v {
		k = mkNot(cond)
	}
	return &condNode{parent: c, depth: c.depth + 1, cond: k, facts: c.facts.with(k, true)}
}

type edge struct {
	from, to *ssa.BasicBlock
	pc       *condNode
	mem      Mem
	ret      Val // for return edges
}

func lcaNode(a, b *condNode) *condNode {
	if a == b {
		return a
	}
	for a.id() != b.id() {
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	if a != b {
		return a.id()
	}
	return a
}

func relCond(from, to *condNode) *Term {
	c := tTrue
	for x := to; x.id() != from.id(); x = x.parent {
		c = mkAnd(x.cond, c)
	}
	return c
}

// join merges edges: returns the node state and per-edge relative conditions.
func (fr *Frame) join(es []*edge) (*condNode, []*Term, Mem) {
	if len(es) == 1 {
		return es[0].pc, []*Term{tTrue}, es[0].mem.clone()
	}
	l := es[0].pc
	for _, e := range es[1:] {
		l = lcaNode(l, e.pc)
	}
	var rel []*Term
	or := tFalse
	var ms []Mem
	for _, e := range es {
		r := relCond(l, e.pc)
		rel = append(rel, r)
		or = mkOr(or, r)
		ms = append(ms, e.mem)
	}
	or = l.facts.simp(or)
	pc := l
	if or != tTrue {
		pc = l.then(or, true)
	}
	mem := Mem{}
	fr.ev.mergeMem(mem, rel, ms)
	return pc, rel, mem
}

func mergeVals(rel []*Term, vs []Val) Val {
	n := len(vs) - 1
	v := vs[n]
	for i := n - 1; i >= 0; i-- {
		v = mergeVal(rel[i], vs[i], v)
	}
	return v
}

// ---- function info: loops

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
}

type funcInfo struct {
	loopOf map[*ssa.BasicBlock]*loopInfo // innermost
	heads  map[*ssa.BasicBlock]*loopInfo
}

func (ev *Ev) info(fn *ssa.Function) *funcInfo {
	if i, ok := ev.doms[fn]; ok {
		return i
	}
	fi := &funcInfo{loopOf: map[*ssa.BasicBlock]*loopInfo{}, heads: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fi.heads[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.heads[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range fi.heads {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls { // larger first, inner override
		l.parent = fi.loopOf[l.header]
		if l.parent != nil {
			l.depth = l.parent.depth + 1
		}
		for b := range l.blocks {
			fi.loopOf[b] = l
		}
	}
	ev.doms[fn] = fi
	return fi
}

// outermost loop strictly inside region r (nil = whole function) containing b, or nil.
func (fi *funcInfo) inner(r *loopInfo, b *ssa.BasicBlock) *loopInfo {
	l := fi.loopOf[b]
	if l == r {
		return nil
	}
	for l != nil && l.parent != r {
		l = l.parent
	}
	return l
}

type tooBig struct{ why string }

const maxSteps = 400000

// region evaluates the acyclic region of blocks (function body or one loop iteration).
// Returns back edges, exit edges and return edges.
func (fr *Frame) region(r *loopInfo, entry *ssa.BasicBlock, pc *condNode, mem Mem) (back, exits, rets []*edge) {
	fi := fr.info
	inRegion := func(b *ssa.BasicBlock) bool { return r == nil || r.blocks[b] }
	rep := func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if l := fi.inner(r, b); l != nil {
			return l.header
		}
		return b
	}
	// topological order of collapsed nodes
	var order []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var visit func(n *ssa.BasicBlock)
	visit = func(n *ssa.BasicBlock) {
		if state[n] != 0 {
			return
		}
		state[n] = 1
		var succs []*ssa.BasicBlock
		if l := fi.inner(r, n); l != nil {
			for _, b := range fr.fn.Blocks {
				if l.blocks[b] {
					for _, s := range b.Succs {
						if !l.blocks[s] {
							succs = append(succs, s)
						}
					}
				}
			}
		} else {
			succs = n.Succs
		}
		for i := len(succs) - 1; i >= 0; i-- {
			s := succs[i]
			if !inRegion(s) || (r != nil && s == r.header) {
				continue
			}
			visit(rep(s))
		}
		order = append(order, n)
	}
	visit(entry)
	in := map[*ssa.BasicBlock][]*edge{}
	route := func(e *edge) {
		if e.pc.facts.contradictory() {
			return
		}
		switch {
		case r != nil && e.to == r.header:
			back = append(back, e)
		case !inRegion(e.to):
			exits = append(exits, e)
		default:
			in[e.to] = append(in[e.to], e)
		}
	}
	for i := len(order) - 1; i >= 0; i-- {
		n := order[i]
		var npc *condNode
		var nmem Mem
		var rel []*Term
		es := in[n]
		if n == entry {
			npc, nmem = pc, mem
		} else {
			if len(es) == 0 {
				continue
			}
			npc, rel, nmem = fr.join(es)
		}
		if l := fi.inner(r, n); l != nil {
			for _, e := range fr.evalLoop(l, es, rel, npc, nmem) {
				if e.ret != nil || e.to == nil {
					rets = append(rets, e)
					continue
				}
				route(e)
			}
			continue
		}
		if n != entry {
			fr.phis(n, es, rel)
		}
		out, rt := fr.block(n, npc, nmem)
		for _, e := range out {
			route(e)
		}
		rets = append(rets, rt...)
	}
	return
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (fr *Frame) phiVals(phi *ssa.Phi, es []*edge, rel []*Term) Val {
	var vs []Val
	for _, e := range es {
		i := predIndex(phi.Block(), e.from)
		vs = append(vs, fr.get(phi.Edges[i]))
	}
	return mergeVals(rel, vs)
}

func (fr *Frame) phis(b *ssa.BasicBlock, es []*edge, rel []*Term) {
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = fr.phiVals(p, es, rel)
	}
	for p, v := range vals {
		fr.env[p] = v
	}
}

// block evaluates the instructions of b and returns outgoing edges.
func (fr *Frame) block(b *ssa.BasicBlock, pc *condNode, mem Mem) (out, rets []*edge) {
	ev := fr.ev
	st := &state{pc: pc, mem: mem}
	for _, in := range b.Instrs {
		ev.steps++
		if ev.steps > maxSteps {
			panic(tooBig{"evaluation steps"})
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := fr.cond(x.Cond, st)
			c = st.pc.facts.simp(c)
			if c != tFalse {
				e := &edge{from: b, to: b.Succs[0], pc: st.pc, mem: st.mem}
				if c != tTrue {
					e.pc = st.pc.then(c, true)
					e.mem = st.mem.clone()
				}
				out = append(out, e)
			}
			if c != tTrue {
				e := &edge{from: b, to: b.Succs[1], pc: st.pc, mem: st.mem}
				if c != tFalse {
					e.pc = st.pc.then(c, false)
				}
				out = append(out, e)
			}
			return
		case *ssa.Jump:
			out = append(out, &edge{from: b, to: b.Succs[0], pc: st.pc, mem: st.mem})
			return
		case *ssa.Return:
			var v TupleV
			for _, r := range x.Results {
				v = append(v, fr.get(r))
			}
			rets = append(rets, &edge{from: b, pc: st.pc, mem: st.mem, ret: v})
			return
		case *ssa.Panic:
			ev.oblig(fr, "panic", x, "explicit panic", st.pc.facts, tFalse)
			return
		default:
			if !fr.instr(in, st) {
				return // diverges
			}
		}
	}
	return
}

type state struct {
	pc  *condNode
	mem Mem
}

func (fr *Frame) cond(v ssa.Value, st *state) *Term {
	x := fr.get(v)
	t, ok := x.(*Term)
	if !ok || t.sort != SBool {
		fr.ev.bad("condition")
		return mkOpaque("cond", SBool)
	}
	return t
}

func (fr *Frame) get(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		o := fr.ev.obj("glob:"+x.String(), x.String(), x.Type().Underlying().(*types.Pointer).Elem(), 0, nil)
		o.input = true
		o.glob = true
		return &PtrV{obj: o, null: tFalse}
	case *ssa.Builtin:
		return &BadV{"builtin"}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return fr.ev.bad("unset " + v.Name())
}

func (fr *Frame) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(fmt.Sprintf("%q", constant.StringVal(c.Value)))
	case constant.Int, constant.Float:
		v := constant.ToFloat(c.Value)
		if s := c.Value.ExactString(); s != "" {
			if r, ok := new(big.Rat).SetString(s); ok {
				return mkRat(r)
			}
		}
		f, _ := constant.Float64Val(v)
		r := new(big.Rat)
		if r.SetFloat64(f) != nil {
			return mkRat(r)
		}
	}
	return fr.ev.bad("const")
}

// ---- obligations and effects

func (ev *Ev) oblig(fr *Frame, kind string, in ssa.Instruction, what string, f *Facts, cond *Term) {
	if cond != nil {
		cond = f.simp(cond)
		if cond == tTrue {
			ev.sites++
			return
		}
	}
	ev.sites++
	ev.obls = append(ev.obls, &Oblig{kind: kind, instr: in, fn: fr.fn, what: what, facts: f.lits(), cond: cond, loops: append([]*Loop{}, ev.loops...), chain: fr.ctx})
}

func (ev *Ev) effect(fr *Frame, kind string, in ssa.Instruction, what string) {
	k := kind + "|" + what + "|" + ev.prog.pos(in.Pos())
	if _, ok := ev.effects[k]; !ok {
		ev.effects[k] = &Effect{kind: kind, fn: fr.fn, instr: in, what: what, chain: fr.ctx}
	}
}

func (fr *Frame) noteWrite(p Val, in ssa.Instruction) {
	switch x := p.(type) {
	case *PtrV:
		if x.obj != nil && x.obj.input {
			k := "write-input"
			if x.obj.glob {
				k = "write-global"
			}
			fr.ev.effect(fr, k, in, x.obj.name+x.path)
		}
	case *CondV:
		fr.noteWrite(x.a, in)
		fr.noteWrite(x.b, in)
	}
}

// ---- instructions

func ptrNull(v Val) *Term {
	switch x := v.(type) {
	case *PtrV:
		return x.null
	case *CondV:
		return mkIte(x.c, ptrNull(x.a), ptrNull(x.b))
	}
	return tFalse
}

func (fr *Frame) derefOK(in ssa.Instruction, p Val, st *state) {
	n := ptrNull(p)
	if n != tFalse {
		fr.ev.oblig(fr, "nil", in, "nil dereference", st.pc.facts, mkNot(n))
	}
}

func (fr *Frame) allocObj(in ssa.Instruction, tag string, t types.Type, extra int) (*Obj, []*Term) {
	ev := fr.ev
	key := fmt.Sprintf("%s|%s|%p%s", fr.ctx, fr.fn, in, tag)
	name := "new"
	if v, ok := in.(ssa.Value); ok {
		name = fr.fn.Name() + "." + v.Name()
	}
	o := ev.obj(key, name, t, len(ev.loops)+extra, ev.loops)
	o.site = in
	var idx []*Term
	for i := 0; i < len(o.loops); i++ {
		idx = append(idx, ev.instIdx(o.loops[i]))
	}
	return o, idx
}

// instIdx is the current instance index for a loop: its iteration variable while active.
func (ev *Ev) instIdx(l *Loop) *Term {
	for _, a := range ev.loops {
		if a == l {
			return l.k
		}
	}
	return t0
}

func (fr *Frame) instr(in ssa.Instruction, st *state) bool {
	ev := fr.ev
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			o, idx := fr.allocObj(in, "", at.Elem(), 1)
			set(x, &PtrV{obj: o, idx: idx, null: tFalse})
			return true
		}
		o, idx := fr.allocObj(in, "", t, 0)
		set(x, &PtrV{obj: o, idx: idx, null: tFalse})
		// a re-executed local (loop variable) starts from zero
		if !x.Heap && len(idx) == 0 {
			return true
		}
	case *ssa.Store:
		p := fr.get(x.Addr)
		fr.derefOK(in, p, st)
		fr.noteWrite(p, in)
		ev.store(st.mem, p, x.Val.Type(), fr.get(x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if v := ev.initOnly(g); v != nil {
					set(x, v)
					return true
				}
			}
			p := fr.get(x.X)
			fr.derefOK(in, p, st)
			if pv, ok := p.(*PtrV); ok && pv.obj != nil && len(pv.idx) != pv.obj.dims && pv.path == "" {
				set(x, ev.bad("array load"))
				return true
			}
			set(x, ev.simpVal(st.pc.facts, ev.load(st.mem, st.pc.facts, p, x.Type())))
		case token.SUB:
			set(x, onCond(fr.get(x.X), func(v Val) Val {
				if t, ok := v.(*Term); ok {
					return mkNeg(t)
				}
				return ev.bad("neg")
			}))
		case token.NOT:
			set(x, onCond(fr.get(x.X), func(v Val) Val {
				if t, ok := v.(*Term); ok {
					return mkNot(t)
				}
				return ev.bad("not")
			}))
		case token.ARROW:
			set(x, fr.recv(fr.get(x.X), x.CommaOk, in, st))
		default:
			set(x, ev.bad("unop "+x.Op.String()))
		}
	case *ssa.BinOp:
		set(x, fr.binop(x, fr.get(x.X), fr.get(x.Y), st))
	case *ssa.FieldAddr:
		p := fr.get(x.X)
		fr.derefOK(in, p, st)
		f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
		set(x, onCond(p, func(v Val) Val {
			if q, ok := v.(*PtrV); ok {
				if q.obj == nil {
					return q
				}
				return &PtrV{obj: q.obj, idx: q.idx, path: q.path + "." + f.Name(), null: tFalse}
			}
			return ev.bad("fieldaddr")
		}))
	case *ssa.Field:
		set(x, onCond(fr.get(x.X), func(v Val) Val {
			if s, ok := v.(*StructV); ok {
				return s.f[x.Field]
			}
			return ev.bad("field")
		}))
	case *ssa.IndexAddr:
		i := fr.num(x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := fr.get(x.X)
			set(x, fr.sliceElem(in, s, i, st))
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			p := fr.get(x.X)
			if _, isC := i.constInt(); !isC {
				ev.oblig(fr, "index", in, "array index", st.pc.facts, mkAnd(mkNot(mkLt0(i)), mkLt(i, mkInt(n))))
			}
			set(x, onCond(p, func(v Val) Val {
				if q, ok := v.(*PtrV); ok && q.obj != nil && len(q.idx) == q.obj.dims-1 && q.path == "" {
					return &PtrV{obj: q.obj, idx: append(append([]*Term{}, q.idx...), i), null: tFalse}
				}
				return ev.bad("array indexaddr")
			}))
		}
	case *ssa.Index:
		set(x, ev.bad("index value"))
	case *ssa.Slice:
		set(x, fr.slice(x, st))
	case *ssa.MakeSlice:
		t := x.Type().Underlying().(*types.Slice).Elem()
		o, idx := fr.allocObj(in, "", t, 1)
		n := fr.num(x.Len)
		ev.oblig(fr, "makeslice", in, "make with negative length", st.pc.facts, mkNot(mkLt0(n)))
		if c := fr.num(x.Cap); c != n {
			ev.oblig(fr, "makeslice", in, "make with capacity below length", st.pc.facts, mkLe(n, c))
		}
		set(x, &SliceV{obj: o, idx: idx, off: t0, len: n})
	case *ssa.MakeInterface:
		v := fr.get(x.X)
		if p, ok := v.(*PtrV); ok && p.null == tTrue {
			set(x, &IfaceV{x.X.Type(), v})
		} else {
			set(x, onCond(v, func(v Val) Val { return &IfaceV{x.X.Type(), v} }))
		}
	case *ssa.ChangeInterface:
		set(x, fr.get(x.X))
	case *ssa.ChangeType:
		set(x, fr.get(x.X))
	case *ssa.Convert:
		set(x, fr.convert(x, fr.get(x.X)))
	case *ssa.MultiConvert:
		set(x, ev.bad("multiconvert"))
	case *ssa.TypeAssert:
		set(x, fr.typeAssert(x, fr.get(x.X), st))
	case *ssa.Extract:
		set(x, onCond(fr.get(x.Tuple), func(v Val) Val {
			if t, ok := v.(TupleV); ok && x.Index < len(t) {
				return t[x.Index]
			}
			return ev.bad("extract")
		}))
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.free = append(f.free, fr.get(b))
		}
		set(x, f)
	case *ssa.Call:
		v, ok := fr.call(&x.Call, x, st)
		if !ok {
			return false
		}
		set(x, v)
	case *ssa.Defer:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" {
			fr.closing(fr.get(x.Call.Args[0]), true, in, st)
			return true
		}
		fr.defers = append(fr.defers, x)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if fr.info.loopOf[d.Block()] != nil || !d.Block().Dominates(in.Block()) {
				ev.bad("lost: conditional defer")
				continue
			}
			if _, ok := fr.call(&d.Call, d, st); !ok {
				return false
			}
		}
	case *ssa.MakeMap:
		o, idx := fr.allocObj(in, "", x.Type().Underlying().(*types.Map).Elem(), 1)
		set(x, &MapV{obj: o, idx: idx})
	case *ssa.Lookup:
		mt, isMap := x.X.Type().Underlying().(*types.Map)
		m, ok1 := fr.get(x.X).(*MapV)
		k, ok2 := fr.get(x.Index).(*Term)
		if isMap && ok1 && ok2 && intKey(mt) {
			// a map is an array over all keys with a presence flag
			idx := append(append([]*Term{}, m.idx...), k)
			v := ev.simpVal(st.pc.facts, ev.readLeaf(st.mem, st.pc.facts, m.obj, "", mt.Elem(), idx))
			if x.CommaOk {
				p := ev.simpVal(st.pc.facts, ev.readLeaf(st.mem, st.pc.facts, m.obj, "#ok", types.Typ[types.Bool], idx))
				v = TupleV{v, p}
			}
			set(x, v)
			return true
		}
		if x.CommaOk {
			set(x, TupleV{ev.bad("map lookup"), mkOpaque("map", SBool)})
		} else {
			set(x, fr.opaqueOf(x.Type(), "lookup"))
		}
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m, ok1 := fr.get(x.Map).(*MapV)
		k, ok2 := fr.get(x.Key).(*Term)
		if ok1 && ok2 && intKey(mt) {
			idx := append(append([]*Term{}, m.idx...), k)
			ev.writeLeaf(st.mem, m.obj, "", mt.Elem(), idx, fr.get(x.Value))
			ev.writeLeaf(st.mem, m.obj, "#ok", types.Typ[types.Bool], idx, tTrue)
			return true
		}
		ev.bads["lost: map update"]++
	case *ssa.MakeChan:
		set(x, fr.makeChan(x, st))
	case *ssa.Send:
		fr.send(fr.get(x.Chan), fr.get(x.X), in, st)
	case *ssa.Go:
		ev.goDepth++
		_, ok := fr.call(&x.Call, x, st)
		ev.goDepth--
		if !ok {
			ev.bads["lost: goroutine does not return"]++
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, ev.bad(fmt.Sprintf("%T", in)))
		}
	}
	return true
}

func (fr *Frame) opaqueOf(t types.Type, why string) Val {
	if isScalar(t) {
		return mkOpaque(why, sortOf(t))
	}
	return fr.ev.bad(why)
}

func (ev *Ev) simpVal(f *Facts, v Val) Val {
	switch x := v.(type) {
	case *Term:
		return f.simp(x)
	case *CondV, *PtrV, *SliceV:
		return mapVal(v, f.simp)
	}
	return v
}

func (fr *Frame) num(v ssa.Value) *Term {
	if v == nil {
		return nil
	}
	if t, ok := fr.get(v).(*Term); ok && (t.sort == SInt || t.sort == SReal) {
		return t
	}
	fr.ev.bad("number")
	return mkOpaque("num", SInt)
}

func sliceLen(v Val) *Term {
	switch x := v.(type) {
	case *SliceV:
		return x.len
	case *CondV:
		return mkIte(x.c, sliceLen(x.a), sliceLen(x.b))
	}
	return nil
}

func (fr *Frame) sliceElem(in ssa.Instruction, s Val, i *Term, st *state) Val {
	ev := fr.ev
	n := sliceLen(s)
	if n == nil {
		return ev.bad("index of " + valString(s))
	}
	ev.oblig(fr, "index", in, "index out of range", st.pc.facts, mkAnd(mkNot(mkLt0(i)), mkLt(i, n)))
	return onCond(s, func(v Val) Val {
		q, ok := v.(*SliceV)
		if !ok {
			return ev.bad("slice elem")
		}
		if q.obj == nil {
			return &PtrV{null: tTrue}
		}
		return &PtrV{obj: q.obj, idx: append(append([]*Term{}, q.idx...), st.pc.facts.simp(mkAdd(q.off, i))), null: tFalse}
	})
}

func (fr *Frame) slice(x *ssa.Slice, st *state) Val {
	ev := fr.ev
	lo := t0
	if x.Low != nil {
		lo = fr.num(x.Low)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := fr.get(x.X)
		n := sliceLen(s)
		if n == nil {
			return ev.bad("slice of bad")
		}
		hi := n
		if x.High != nil {
			hi = fr.num(x.High)
			ev.oblig(fr, "slice", x, "slice bounds out of range", st.pc.facts, mkLe(hi, n))
		}
		ev.oblig(fr, "slice", x, "slice bounds out of range", st.pc.facts, mkAnd(mkNot(mkLt0(lo)), mkLe(lo, hi)))
		return onCond(s, func(v Val) Val {
			q, ok := v.(*SliceV)
			if !ok {
				return ev.bad("slice")
			}
			h := q.len
			if x.High != nil {
				h = hi
			}
			return &SliceV{obj: q.obj, idx: q.idx, off: mkAdd(q.off, lo), len: mkSub(h, lo)}
		})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		hi := mkInt(at.Len())
		if x.High != nil {
			hi = fr.num(x.High)
		}
		return onCond(fr.get(x.X), func(v Val) Val {
			if q, ok := v.(*PtrV); ok && q.obj != nil && q.path == "" && len(q.idx) == q.obj.dims-1 {
				return &SliceV{obj: q.obj, idx: q.idx, off: lo, len: mkSub(hi, lo)}
			}
			return ev.bad("slice of array")
		})
	}
	// string slicing
	if s, ok := fr.get(x.X).(*Term); ok {
		a := []*Term{s, lo}
		if x.High != nil {
			a = append(a, fr.num(x.High))
		}
		return mkApp("substr", SOther, a...)
	}
	return ev.bad("slice")
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (fr *Frame) binop(x *ssa.BinOp, a, b Val, st *state) Val {
	ev := fr.ev
	if ca, ok := a.(*CondV); ok {
		return mergeVal(ca.c, fr.binop(x, ca.a, b, st), fr.binop(x, ca.b, b, st))
	}
	if cb, ok := b.(*CondV); ok {
		return mergeVal(cb.c, fr.binop(x, a, cb.a, st), fr.binop(x, a, cb.b, st))
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		e := fr.equal(a, b)
		if e == nil {
			ev.bad("comparison")
			return mkOpaque("eq", SBool)
		}
		if x.Op == token.NEQ {
			e = mkNot(e)
		}
		return e
	}
	s, ok1 := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if isBad(a) || isBad(b) {
			return &BadV{"operand"}
		}
		return ev.bad("binop operands")
	}
	if isStr(x.X.Type()) {
		switch x.Op {
		case token.ADD:
			return mkApp("concat", SOther, s, t)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt := func(p, q *Term) *Term { return mkApp("strlt", SBool, p, q) }
			switch x.Op {
			case token.LSS:
				return lt(s, t)
			case token.GTR:
				return lt(t, s)
			case token.LEQ:
				return mkNot(lt(t, s))
			}
			return mkNot(lt(s, t))
		}
		return ev.bad("string op")
	}
	switch x.Op {
	case token.ADD:
		return mkAdd(s, t)
	case token.SUB:
		return mkSub(s, t)
	case token.MUL:
		return mkMul(s, t)
	case token.QUO:
		if isInteger(x.Type()) {
			ev.oblig(fr, "intdiv", x, "integer division by zero", st.pc.facts, mkNot(mkEq0(t)))
			return mkFun("idiv", SInt, s, t)
		}
		ev.oblig(fr, "div", x, "float division by zero", st.pc.facts, mkNot(mkEq0(t)))
		// a quotient keeps its undefinedness visible through the inverse of the divisor
		return ev.quotient(st.pc.facts, s, t)
	case token.REM:
		ev.oblig(fr, "intdiv", x, "integer modulo by zero", st.pc.facts, mkNot(mkEq0(t)))
		return mkFun("imod", SInt, s, t)
	case token.SHL:
		if c, ok := t.constInt(); ok && c >= 0 && c < 62 {
			return mkMul(s, mkInt(int64(1)<<c))
		}
		return mkApp("shl", SInt, s, t)
	case token.SHR:
		if c, ok := t.constInt(); ok && c >= 0 && c < 62 {
			return mkFun("idiv", SInt, s, mkInt(int64(1)<<c))
		}
		return mkApp("shr", SInt, s, t)
	case token.LSS:
		return fr.cmp(s, t)
	case token.GTR:
		return fr.cmp(t, s)
	case token.LEQ:
		return mkNot(fr.cmp(t, s))
	case token.GEQ:
		return mkNot(fr.cmp(s, t))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return mkApp("bit"+x.Op.String(), SInt, s, t)
	}
	return ev.bad("binop " + x.Op.String())
}

func (fr *Frame) cmp(a, b *Term) *Term { return mkLt(a, b) }

// quotient: s/t. When s is a quotient-free multiple the inverse is kept symbolic.
func (ev *Ev) quotient(f *Facts, s, t *Term) *Term { return mkDiv(s, t) }

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (fr *Frame) equal(a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort == SOther && y.sort == SOther && x != y {
				// nil against a non-nil constructed error
				if x == tNil || y == tNil {
					o := x
					if x == tNil {
						o = y
					}
					if o.op == OpApp && nonNilFun(o.name) {
						return tFalse
					}
				}
			}
			return mkEq(x, y)
		}
		if y, ok := b.(*IfaceV); ok && x == tNil {
			_ = y
			return tFalse
		}
		if _, ok := b.(*FuncV); ok && x == tNil {
			return tFalse
		}
		if _, ok := b.(*MapV); ok && x == tNil {
			return tFalse
		}
	case *FuncV, *MapV:
		if y, ok := b.(*Term); ok && y == tNil {
			return tFalse
		}
	case *IfaceV:
		if y, ok := b.(*Term); ok && y == tNil {
			return tFalse
		}
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.typ, y.typ) {
				return tFalse
			}
			return fr.equal(x.v, y.v)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if y.obj == nil && y.null == tTrue {
				return x.null
			}
			if x.obj == nil && x.null == tTrue {
				return y.null
			}
			if x.obj == y.obj && x.path == y.path {
				c := tTrue
				for i := range x.idx {
					c = mkAnd(c, mkEq(x.idx[i], y.idx[i]))
				}
				return mkAnd(c, mkEq(x.null, y.null))
			}
			if x.obj != nil && y.obj != nil && x.null == tFalse && y.null == tFalse && !(x.obj.input && y.obj.input) {
				return tFalse
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if y.obj == nil {
				if x.obj == nil {
					return tTrue
				}
				if x.obj.input {
					return mkApp("isnil", SBool, x.len)
				}
				return mkEq0(x.len) // a made slice of length 0 differs from nil only in identity
			}
			if x.obj == nil {
				return fr.equal(b, a)
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			c := tTrue
			for i := range x.f {
				e := fr.equal(x.f[i], y.f[i])
				if e == nil {
					return nil
				}
				c = mkAnd(c, e)
			}
			return c
		}
	}
	return nil
}

func nonNilFun(n string) bool {
	return n == "errors.New" || n == "fmt.Errorf"
}

func (fr *Frame) convert(x *ssa.Convert, v Val) Val {
	return onCond(v, func(v Val) Val {
		t, ok := v.(*Term)
		if !ok {
			return fr.ev.bad("convert")
		}
		from, to := x.X.Type(), x.Type()
		switch {
		case isFloat(to) && (isInteger(from) || isFloat(from)):
			return t
		case isInteger(to) && isInteger(from):
			return t
		case isInteger(to) && isFloat(from):
			return mkFun("trunc", SInt, t)
		case isStr(to) && isStr(from):
			return t
		}
		return mkApp("conv:"+to.String(), sortOf(to), t)
	})
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert, v Val, st *state) Val {
	ev := fr.ev
	if c, ok := v.(*CondV); ok {
		f := st.pc.facts
		return mergeVal(c.c, fr.typeAssert(x, c.a, &state{st.pc.withFacts(f.with(c.c, true)), st.mem}), fr.typeAssert(x, c.b, &state{st.pc.withFacts(f.with(c.c, false)), st.mem}))
	}
	var ok *Term
	var res Val
	switch y := v.(type) {
	case *IfaceV:
		if types.IsInterface(x.AssertedType) {
			ok = mkBool(types.Implements(y.typ, x.AssertedType.Underlying().(*types.Interface)))
			res = y
		} else {
			ok = mkBool(types.Identical(y.typ, x.AssertedType))
			res = y.v
		}
		if ok == tFalse {
			res = zeroVal(x.AssertedType)
		}
	case *Term:
		if y == tNil {
			ok = tFalse
			res = zeroVal(x.AssertedType)
		} else {
			ok = mkApp("is:"+x.AssertedType.String(), SBool, y)
			if isScalar(x.AssertedType) {
				res = mkApp("as:"+x.AssertedType.String(), sortOf(x.AssertedType), y)
			} else {
				res = ev.bad("assert")
			}
			if x.CommaOk {
				res = mergeVal(ok, res, zeroVal(x.AssertedType))
			}
		}
	default:
		res = ev.bad("typeassert")
		ok = mkOpaque("assert", SBool)
	}
	if x.CommaOk {
		return TupleV{res, ok}
	}
	ev.oblig(fr, "assert", x, "type assertion", st.pc.facts, ok)
	return res
}

func (c *condNode) withFacts(f *Facts) *condNode {
	return &condNode{parent: c.parent, depth: c.depth, cond: c.cond, facts: f, base: c}
}

// ---- calls

func (fr *Frame) call(c *ssa.CallCommon, in ssa.Instruction, st *state) (Val, bool) {
	var resT types.Type
	if v, ok := in.(ssa.Value); ok {
		resT = v.Type()
	} else {
		resT = c.Signature().Results()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return fr.builtin(b.Name(), c, in, st), true
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	if c.IsInvoke() {
		recv := fr.get(c.Value)
		return fr.invoke(c, recv, args, in, st, resT)
	}
	fv := fr.get(c.Value)
	return fr.callVal(fv, args, in, st, resT)
}

func (fr *Frame) invoke(c *ssa.CallCommon, recv Val, args []Val, in ssa.Instruction, st *state, resT types.Type) (Val, bool) {
	ev := fr.ev
	switch r := recv.(type) {
	case *CondV:
		if r.b == Val(tNil) {
			return fr.invoke(c, r.a, args, in, st, resT)
		}
		if r.a == Val(tNil) {
			return fr.invoke(c, r.b, args, in, st, resT)
		}
	case *IfaceV:
		ms := ev.prog.prog.MethodSets.MethodSet(r.typ)
		sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
		if sel != nil {
			if f := ev.prog.prog.MethodValue(sel); f != nil {
				return fr.callFn(f, append([]Val{r.v}, args...), nil, in, st, resT)
			}
		}
	case *Term:
		if r == tNil {
			ev.oblig(fr, "nil", in, "method call on nil interface", st.pc.facts, tFalse)
			return nil, false
		}
		return fr.uninterpreted("invoke:"+c.Method.Name(), append([]Val{recv}, args...), resT), true
	}
	return fr.resBad(resT, "invoke"), true
}

func (fr *Frame) callVal(fv Val, args []Val, in ssa.Instruction, st *state, resT types.Type) (Val, bool) {
	switch f := fv.(type) {
	case *FuncV:
		return fr.callFn(f.fn, args, f.free, in, st, resT)
	}
	fr.ev.bad("lost: dynamic call")
	return fr.resBad(resT, "dynamic call"), true
}

func (fr *Frame) resBad(t types.Type, why string) Val {
	fr.ev.bads[why]++
	if tp, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tp.Len(); i++ {
			r = append(r, fr.opaqueOf(tp.At(i).Type(), why))
		}
		return r
	}
	return fr.opaqueOf(t, why)
}

func inModule(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		for q := fn.Parent(); q != nil; q = q.Parent() {
			return inModule(q)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (fr *Frame) callFn(fn *ssa.Function, args []Val, free []Val, in ssa.Instruction, st *state, resT types.Type) (Val, bool) {
	ev := fr.ev
	if v, ok, handled := fr.intrinsic(fn, args, in, st, resT); handled {
		return v, ok
	}
	if len(fn.Blocks) == 0 || !inModule(fn) {
		return fr.external(fn, args, in, st, resT), true
	}
	for _, s := range ev.stack {
		if s == fn {
			ev.bad("lost: recursion " + fn.String())
			return fr.resBad(resT, "recursion"), true
		}
	}
	if len(ev.stack) > 30 {
		ev.bads["lost: call depth"]++
		return fr.resBad(resT, "depth"), true
	}
	v, pc, mem, ok := ev.evalFunc(fr, fn, args, free, in, st.pc.facts, st.mem)
	if !ok {
		return nil, false
	}
	st.mem = mem
	if pc != nil {
		st.pc = st.pc.withFacts(pc)
	}
	if tp, ok := resT.(*types.Tuple); ok && tp.Len() == 0 {
		return TupleV{}, true
	}
	if t, ok := v.(TupleV); ok && len(t) == 1 {
		if _, isT := resT.(*types.Tuple); !isT {
			return t[0], true
		}
	}
	return v, true
}

func (ev *Ev) evalFunc(parent *Frame, fn *ssa.Function, args, free []Val, site ssa.Instruction, facts *Facts, mem Mem) (Val, *Facts, Mem, bool) {
	ev.calls[fn.String()] = true
	ctx := ""
	if parent != nil {
		n := 0
		for i, in := range site.Block().Instrs {
			if in == site {
				n = i
			}
		}
		ctx = fmt.Sprintf("%s>%s@%d.%d", parent.ctx, fn.Name(), site.Block().Index, n)
	} else {
		ctx = fn.Name()
	}
	fr := &Frame{ev: ev, fn: fn, ctx: ctx, env: map[ssa.Value]Val{}, info: ev.info(fn), parent: parent, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		}
	}
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	root := &condNode{facts: facts}
	_, _, rets := fr.region(nil, fn.Blocks[0], root, mem.clone())
	if len(rets) == 0 {
		return nil, nil, nil, false
	}
	pc, rel, m := fr.join(rets)
	var vs []Val
	for _, r := range rets {
		vs = append(vs, r.ret)
	}
	v := mergeVals(rel, vs)
	v = ev.simpResult(pc.facts, v)
	return v, pc.facts, m, true
}

func (ev *Ev) simpResult(f *Facts, v Val) Val { return v }

func (fr *Frame) flatArg(v Val) ([]*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}, true
	case *IfaceV:
		return fr.flatArg(x.v)
	case *PtrV:
		if x.obj == nil {
			return []*Term{tNil}, true
		}
		if x.obj.input {
			return append([]*Term{mkStr("&" + x.obj.name + x.path)}, x.idx...), true
		}
		return nil, false
	case *StructV:
		var r []*Term
		for _, f := range x.f {
			t, ok := fr.flatArg(f)
			if !ok {
				return nil, false
			}
			r = append(r, t...)
		}
		return r, true
	case *CondV:
		a, ok1 := fr.flatArg(x.a)
		b, ok2 := fr.flatArg(x.b)
		if ok1 && ok2 && len(a) == len(b) {
			r := make([]*Term, len(a))
			for i := range a {
				r[i] = mkIte(x.c, a[i], b[i])
			}
			return r, true
		}
	}
	return nil, false
}

func (fr *Frame) uninterpreted(name string, args []Val, resT types.Type) Val {
	var ts []*Term
	for _, a := range args {
		t, ok := fr.flatArg(a)
		if !ok {
			return fr.resBad(resT, "call "+name)
		}
		ts = append(ts, t...)
	}
	one := func(t types.Type, suffix string) Val {
		if isScalar(t) || types.IsInterface(t) {
			return mkFun(name+suffix, sortOf(t), ts...)
		}
		return fr.ev.bad("result of " + name)
	}
	if tp, ok := resT.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tp.Len(); i++ {
			r = append(r, one(tp.At(i).Type(), fmt.Sprintf("#%d", i)))
		}
		return r
	}
	return one(resT, "")
}

// intKey: maps keyed by integers are modelled as unbounded arrays.
func intKey(m *types.Map) bool {
	return sortOf(m.Key()) == SInt
}
