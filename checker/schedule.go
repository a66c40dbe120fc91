package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// schedule: the order of the result must not depend on the scheduler or on map iteration. Over
// every function the entry points call statically (dynamic strategy methods excluded):
//   - no iteration over a map,
//   - a goroutine started in a loop neither extends a shared slice nor updates a shared variable
//     from its own old value,
//   - a loop does not change a variable the goroutines it started read,
//   - results sent by several goroutines on one channel without a position are not collected in
//     order of arrival,
//   - a function that starts goroutines waits for them (WaitGroup.Wait or a receive) before it
//     returns, unless it hands out a channel.
func (res *FnRes) schedule(p *Program, fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						walk(x)
					case *ssa.MakeClosure:
						walk(x.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	walk(fn)
	n := 0
	report := func(f *ssa.Function, in ssa.Instruction, what string) {
		w := shortFn(f) + " " + what
		res.Pairs = append(res.Pairs, PairRes{Name: w, Where: w, Verdict: "differs", Detail: p.pos(in.Pos()) + ": " + what + " in " + shortFn(f)})
	}
	for f := range seen {
		if strings.Contains(f.String(), "/zzverif.") {
			continue
		}
		if !strings.Contains(f.String(), "/container/") {
			n++
		}
		var starts []*ssa.Go
		waits, hands := false, false
		res0 := f.Signature.Results()
		for i := 0; i < res0.Len(); i++ {
			if isChanT(res0.At(i).Type()) {
				hands = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						report(f, in, "iterates over a map")
					}
				case *ssa.Go:
					starts = append(starts, x)
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						waits = true
					}
				case *ssa.Select:
					waits = true
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && (c.Name() == "Wait") {
						waits = true
					}
				}
			}
		}
		for _, g := range starts {
			if !waits && !hands {
				report(f, g, "returns without waiting for its goroutine")
			}
			if !inCycle(g.Block()) {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			c := mc.Fn.(*ssa.Function)
			for i, fv := range c.FreeVars {
				if al, ok := mc.Bindings[i].(*ssa.Alloc); ok && inCycle(al.Block()) {
					continue
				}
				loads, stores := false, ssa.Instruction(nil)
				for _, r := range *fv.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp:
						loads = true
					case *ssa.Store:
						if x.Addr == fv {
							stores = x
						}
					}
				}
				if al, ok := mc.Bindings[i].(*ssa.Alloc); ok && loads && stores == nil {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == al && reachesB(st.Block(), g.Block()) && reachesB(g.Block(), st.Block()) && !waitsWithin(g.Block()) {
							report(f, st, fmt.Sprintf("changes %s while goroutines read it", fv.Name()))
							break
						}
					}
				}
				if in := arrival(f, mc.Bindings[i]); in != nil && sends(fv) {
					report(f, in, "collects results in order of arrival")
				}
				if loads && stores != nil {
					report(f, stores, fmt.Sprintf("goroutine updates shared %s", fv.Name()))
				}
			}
		}
	}
	res.Pairs = append(res.Pairs, PairRes{Name: fmt.Sprintf("%d functions", n), Verdict: "equal", How: "no schedule-dependent construct"})
}

// reachesB: there is a path of one edge or more from a to b.
func reachesB(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			w = append(w, x.Succs...)
		}
	}
	return false
}

// waitsWithin: some block on a cycle with g waits for something.
func waitsWithin(g *ssa.BasicBlock) bool {
	for _, b := range g.Parent().Blocks {
		if !reachesB(b, g) || !reachesB(g, b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return true
				}
			case *ssa.Select:
				return true
			case ssa.CallInstruction:
				if c := x.Common().StaticCallee(); c != nil && (c.Name() == "Wait" || c.Name() == "Lock") {
					return true
				}
			}
		}
	}
	return false
}

// sends: the closure sends on the captured channel (held in a variable or captured itself).
func sends(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.Send:
			if x.Chan == fv {
				return true
			}
		case *ssa.UnOp:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Send); ok && s.Chan == x {
					return true
				}
			}
		}
	}
	return false
}

// arrival: ch is one channel shared by all goroutines of the loop, its values carry no position
// (they are the elements of f's result themselves), and f puts what it receives from it into a
// slice as it comes.
func arrival(f *ssa.Function, b ssa.Value) ssa.Instruction {
	t := b.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	ct, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	if in, ok := b.(ssa.Instruction); ok && inCycle(in.Block()) {
		return nil
	}
	elem := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if st, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok && types.Identical(st.Elem(), ct.Elem()) {
			elem = true
		}
	}
	if !elem {
		return nil
	}
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op.String() != "<-" || !inCycle(blk) || !types.Identical(u.X.Type().Underlying().(*types.Chan).Elem(), ct.Elem()) {
				continue
			}
			vals := []ssa.Value{u}
			if u.CommaOk {
				vals = nil
				for _, r := range *u.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						vals = append(vals, e)
					}
				}
			}
			for _, v := range vals {
				for _, r := range *v.Referrers() {
					st, ok := r.(*ssa.Store)
					if !ok || st.Val != v {
						continue
					}
					if _, ok := st.Addr.(*ssa.IndexAddr); ok {
						return in
					} else if al, ok := st.Addr.(*ssa.Alloc); ok {
						// a local copy: appended or stored whole somewhere
						for _, q := range *al.Referrers() {
							if l, ok := q.(*ssa.UnOp); ok {
								for _, w := range *l.Referrers() {
									if s2, ok := w.(*ssa.Store); ok && s2.Val == l {
										if _, ok := s2.Addr.(*ssa.IndexAddr); ok {
											return in
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// inCycle: the block can reach itself.
func inCycle(b *ssa.BasicBlock) bool { return reachesB(b, b) }
