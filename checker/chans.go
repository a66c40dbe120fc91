package main

// Channels as streams. A channel is the sequence of values ever sent to it (data[0:w)), a read
// position r and close counts; a goroutine is evaluated where it is started, its inputs being
// complete by then (the helpers are deterministic stream processors, so the schedule does not
// change what they deliver). Whatever would have to wait for a producer started later is
// reported as unmodelled; whatever waits on a channel nobody will ever close is an obligation.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

var intT = types.Typ[types.Int]

func (fr *Frame) makeChan(x *ssa.MakeChan, st *state) Val {
	ev := fr.ev
	o, idx := fr.allocObj(x, "|chan", x.Type(), 0)
	if o.data == nil {
		o.data = ev.obj(o.key+"|data", o.name+"[]", chanElem(x.Type()), o.dims+1, o.loops)
		o.data.site = x
	}
	n := fr.num(x.Size)
	ev.oblig(fr, "makechan", x, "make of a channel with negative capacity", st.pc.facts, mkNot(mkLt0(n)))
	for _, l := range []string{"#w", "#r", "#closed", "#dclosed"} {
		ev.writeLeaf(st.mem, o, l, intT, idx, t0)
	}
	ev.writeLeaf(st.mem, o, "#cap", intT, idx, n)
	return &PtrV{obj: o, idx: idx, null: tFalse}
}

func (fr *Frame) chanLeaf(p *PtrV, l string, st *state) *Term {
	v := fr.ev.simpVal(st.pc.facts, fr.ev.readLeaf(st.mem, st.pc.facts, p.obj, l, intT, p.idx))
	if t, ok := v.(*Term); ok {
		return t
	}
	fr.ev.bad("lost: channel state")
	return mkOpaque("chan", SInt)
}

func (fr *Frame) chanOf(v Val) *PtrV {
	p, ok := v.(*PtrV)
	if !ok || p.obj == nil || p.obj.data == nil {
		fr.ev.bad("lost: unknown channel")
		return nil
	}
	return p
}

// eachChan runs an operation on whichever channel the value denotes.
func (fr *Frame) eachChan(v Val, st *state, op func(p *PtrV, st *state) Val) Val {
	f := st.pc.facts
	c, ok := v.(*CondV)
	if !ok {
		if p := fr.chanOf(v); p != nil {
			return op(p, st)
		}
		return nil
	}
	cond := f.simp(c.c)
	switch {
	case cond == tTrue || isNilVal(c.b):
		return fr.eachChan(c.a, st, op)
	case cond == tFalse || isNilVal(c.a):
		return fr.eachChan(c.b, st, op)
	}
	sa := &state{pc: st.pc.withFacts(f.with(cond, true)), mem: st.mem.clone()}
	sb := &state{pc: st.pc.withFacts(f.with(cond, false)), mem: st.mem.clone()}
	a, b := fr.eachChan(c.a, sa, op), fr.eachChan(c.b, sb, op)
	fr.ev.mergeMem(st.mem, []*Term{cond, mkNot(cond)}, []Mem{sa.mem, sb.mem})
	if a == nil || b == nil {
		return nil
	}
	return mergeVal(cond, a, b)
}

// send appends to the stream. Outside goroutines it must fit the buffer: nobody reads meanwhile.
func (fr *Frame) send(ch, v Val, in ssa.Instruction, st *state) {
	ev := fr.ev
	fr.eachChan(ch, st, func(p *PtrV, st *state) Val {
		w, r := fr.chanLeaf(p, "#w", st), fr.chanLeaf(p, "#r", st)
		ev.oblig(fr, "send", in, "send on a closed channel", st.pc.facts, mkEq(fr.chanLeaf(p, "#closed", st), t0))
		if ev.goDepth == 0 {
			ev.oblig(fr, "block", in, "send before the channel is returned to its reader", st.pc.facts, mkLt(mkSub(w, r), fr.chanLeaf(p, "#cap", st)))
		}
		et := chanElem(p.obj.typ)
		ev.writeLeaf(st.mem, p.obj.data, "", et, append(append([]*Term{}, p.idx...), w), v)
		ev.writeLeaf(st.mem, p.obj, "#w", intT, p.idx, mkAdd(w, t1))
		return nil
	})
}

func (fr *Frame) recv(ch Val, commaOk bool, in ssa.Instruction, st *state) Val {
	ev := fr.ev
	v := fr.eachChan(ch, st, func(p *PtrV, st *state) Val {
		et := chanElem(p.obj.typ)
		f := st.pc.facts
		w, r := fr.chanLeaf(p, "#w", st), fr.chanLeaf(p, "#r", st)
		closed := mkLt0(mkSub(t0, mkAdd(fr.chanLeaf(p, "#closed", st), fr.chanLeaf(p, "#dclosed", st))))
		ok := f.simp(mkLt(r, w))
		live := f.simp(mkOr(closed, ok))
		if ev.goDepth > 0 && live != tTrue {
			ev.bads["lost: goroutine waits for a later producer"]++
			return nil
		}
		ev.oblig(fr, "block", in, "receive from a channel that is never closed", f, live)
		var v Val
		get := func(f *Facts) Val {
			return ev.readLeaf(st.mem, f, p.obj.data, "", et, append(append([]*Term{}, p.idx...), r))
		}
		switch ok {
		case tTrue:
			v = get(f)
		case tFalse:
			v = zeroVal(et)
		default:
			v = mergeVal(ok, get(f.with(ok, true)), zeroVal(et))
		}
		ev.writeLeaf(st.mem, p.obj, "#r", intT, p.idx, f.simp(mkIte(ok, mkAdd(r, t1), r)))
		return TupleV{v, ok}
	})
	if v == nil {
		v = TupleV{ev.bad("receive"), mkOpaque("ok", SBool)}
	}
	if commaOk {
		return v
	}
	return onCond(v, func(x Val) Val {
		if t, ok := x.(TupleV); ok {
			return t[0]
		}
		return ev.bad("receive")
	})
}

// closing counts a close (or, when deferred, that it will happen when the function returns;
// whoever reads the channel does so after that).
func (fr *Frame) closing(ch Val, deferred bool, in ssa.Instruction, st *state) {
	fr.eachChan(ch, st, func(p *PtrV, st *state) Val {
		c, d := fr.chanLeaf(p, "#closed", st), fr.chanLeaf(p, "#dclosed", st)
		fr.ev.oblig(fr, "close", in, "close of a channel already closed", st.pc.facts, mkEq(mkAdd(c, d), t0))
		if deferred {
			fr.ev.writeLeaf(st.mem, p.obj, "#dclosed", intT, p.idx, mkAdd(d, t1))
		} else {
			fr.ev.writeLeaf(st.mem, p.obj, "#closed", intT, p.idx, mkAdd(c, t1))
		}
		return nil
	})
}

func isChanT(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
