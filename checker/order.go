package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// streamOrder: the values of a stream are handed on in order whatever the scheduler does. Over
// every function of the stream library the entry points call statically, instantiated: no channel
// has two goroutines sending on it at once. Two are at once when one `go` statement on a cycle
// starts senders of a channel made outside the cycle, or two `go` statements of one activation
// start senders of the same channel, or the activation itself sends after starting a sender, and
// nothing (receive of a channel made here, select, Wait, Lock) can order them.
func (res *FnRes) streamOrder(p *Program, fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	n := 0
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || (!inModule(f) && f.Origin() == nil) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						walk(x)
					case *ssa.MakeClosure:
						walk(x.Fn.(*ssa.Function))
					}
				}
			}
		}
		if strings.Contains(f.String(), "/zzverif.") {
			return
		}
		n++
		for _, s := range senders(f) {
			w := shortFn(f) + " " + s.what
			res.Pairs = append(res.Pairs, PairRes{Name: w, Where: w, Verdict: "differs", Detail: p.pos(s.in.Pos()) + ": " + s.what + " in " + shortFn(f)})
		}
	}
	walk(fn)
	res.Pairs = append(res.Pairs, PairRes{Name: fmt.Sprintf("%d functions", n), Verdict: "equal", How: "one sender per channel at a time"})
}

type sendClash struct {
	in   ssa.Instruction
	what string
}

// senders: the instructions of f that make a second sender of one channel run at once.
func senders(f *ssa.Function) []sendClash {
	type start struct {
		in   *ssa.Go
		on   map[ssa.Value]bool
		sync bool
	}
	var gs []start
	type own struct {
		in ssa.Instruction
		on ssa.Value
	}
	var sends []own
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				on, sync := sendsOf(f, &x.Call, 0)
				gs = append(gs, start{x, on, sync})
			case *ssa.Send:
				if r := chanRoot(x.Chan); r != nil {
					sends = append(sends, own{x, r})
				}
			case *ssa.Call:
				on, _ := sendsOf(f, &x.Call, 0)
				for r := range on {
					sends = append(sends, own{x, r})
				}
			}
		}
	}
	var out []sendClash
	for i, g := range gs {
		if g.sync {
			continue
		}
		for r := range g.on {
			if again(g.in.Block(), r) {
				out = append(out, sendClash{g.in, "starts several senders of one channel"})
				break
			}
		}
		if ordered(f) {
			continue
		}
		for j := 0; j < i; j++ {
			if gs[j].sync {
				continue
			}
			for r := range g.on {
				if gs[j].on[r] && (gs[j].in.Block() == g.in.Block() || reachesB(gs[j].in.Block(), g.in.Block())) {
					out = append(out, sendClash{g.in, "starts a second sender of a channel"})
					break
				}
			}
		}
		for _, s := range sends {
			if g.on[s.on] && after(g.in, s.in) {
				out = append(out, sendClash{s.in, "sends on a channel its goroutine sends on"})
				break
			}
		}
	}
	return out
}

// again: the channel stays the same from one execution of block g to the next. An element of a
// slice changes with one loop around g, so it takes a second one outside the slice's making.
func again(g *ssa.BasicBlock, r ssa.Value) bool {
	need := 1
	if x, ok := r.(*ssa.IndexAddr); ok {
		r, need = x.X, 2
		if u, ok := r.(*ssa.UnOp); ok {
			r = u.X
		}
	}
	var at *ssa.BasicBlock
	if in, ok := r.(ssa.Instruction); ok {
		at = in.Block()
	}
	for _, h := range g.Parent().Blocks {
		body := loopBody(h)
		if body[g] && !body[at] {
			need--
		}
	}
	return need <= 0
}

// loopBody: the blocks of the natural loop with header h.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		out[h] = true
		w := []*ssa.BasicBlock{p}
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if !out[x] {
				out[x] = true
				w = append(w, x.Preds...)
			}
		}
	}
	return out
}

func after(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return reachesB(a.Block(), b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return inCycle(a.Block())
		}
	}
	return false
}

// ordered: f itself waits for something.
func ordered(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if waitInstr(in, true) {
				return true
			}
		}
	}
	return false
}

func waitInstr(in ssa.Instruction, anyRecv bool) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			if anyRecv {
				return true
			}
			switch chanRoot(x.X).(type) {
			case *ssa.MakeChan, *ssa.Alloc, *ssa.FreeVar, nil:
				return !inputStream(x.X)
			}
		}
	case *ssa.Select:
		return true
	case ssa.CallInstruction:
		if c := x.Common().StaticCallee(); c != nil {
			switch c.Name() {
			case "Wait", "Lock", "RLock", "Acquire":
				return true
			}
		}
	}
	return false
}

// inputStream: the channel is one the enclosing exported function was given: a parameter, followed
// through the variables that capture it, or an element of a slice parameter.
func inputStream(v ssa.Value) bool {
	for k := 0; k < 12; k++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FreeVar:
			b := binding(x)
			if b == nil {
				return false
			}
			v = b
		case *ssa.Alloc:
			st := soleStore(x)
			if st == nil {
				return false
			}
			v = st.Val
		default:
			return false
		}
	}
	return false
}

// binding: what a captured variable is bound to, when its closure is made in one place.
func binding(x *ssa.FreeVar) ssa.Value {
	f := x.Parent()
	var mc *ssa.MakeClosure
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
				if mc != nil {
					return nil
				}
				mc = m
			}
		}
	}
	if mc == nil {
		return nil
	}
	for i, fv := range f.FreeVars {
		if fv == x {
			return mc.Bindings[i]
		}
	}
	return nil
}

func soleStore(a *ssa.Alloc) *ssa.Store {
	var out *ssa.Store
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if out != nil {
				return nil
			}
			out = s
		}
	}
	return out
}

// chanRoot: the value within f a channel operand stands for.
func chanRoot(v ssa.Value) ssa.Value {
	for k := 0; k < 12; k++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.MakeChan:
			return v
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp: // load of a captured or local variable
			switch y := x.X.(type) {
			case *ssa.FreeVar:
				return y
			case *ssa.Alloc:
				v = y
			case *ssa.IndexAddr:
				return y
			default:
				return nil
			}
		case *ssa.Alloc:
			st := soleStore(x)
			if st == nil {
				return nil
			}
			v = st.Val
		default:
			return nil
		}
	}
	return nil
}

// sendsOf: the channels of f a call (or goroutine) sends on, and whether it waits for anything
// but its input streams.
func sendsOf(f *ssa.Function, c *ssa.CallCommon, depth int) (map[ssa.Value]bool, bool) {
	out := map[ssa.Value]bool{}
	if depth > 4 {
		return out, true
	}
	var g *ssa.Function
	var bind []ssa.Value
	switch x := c.Value.(type) {
	case *ssa.Function:
		g = x
	case *ssa.MakeClosure:
		g, bind = x.Fn.(*ssa.Function), x.Bindings
	default:
		return out, true
	}
	if len(g.Blocks) == 0 || c.IsInvoke() {
		return out, false
	}
	sync := false
	up := func(r ssa.Value) {
		switch y := r.(type) {
		case *ssa.Parameter:
			for i, q := range g.Params {
				if q == y && i < len(c.Args) {
					if v := chanRoot(c.Args[i]); v != nil {
						out[v] = true
					}
				}
			}
		case *ssa.FreeVar:
			for i, q := range g.FreeVars {
				if q == y && i < len(bind) {
					if v := chanRoot(bind[i]); v != nil {
						out[v] = true
					}
				}
			}
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if waitInstr(in, false) {
				sync = true
			}
			switch x := in.(type) {
			case *ssa.Send:
				if _, ok := x.Chan.Type().Underlying().(*types.Chan); ok {
					if r := chanRoot(x.Chan); r != nil {
						up(r)
					}
				}
			case ssa.CallInstruction:
				on, s := sendsOf(g, x.Common(), depth+1)
				for r := range on {
					up(r)
				}
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok && s {
					switch x.Common().Value.(type) {
					case *ssa.Function, *ssa.MakeClosure:
						sync = true
					}
				}
			}
		}
	}
	return out, sync
}
