package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flatten walks a value the way an observer would (through pointers and slices, with a fresh
// index per slice level) and reports each scalar component.
func (ev *Ev) flatten(name string, v Val, t types.Type, f *Facts, m Mem, depth int, out func(name string, v Val, f *Facts)) {
	if depth > 6 {
		out(name, ev.bad("depth"), f)
		return
	}
	switch x := v.(type) {
	case *CondV:
		out(name+"?", x.c, f)
		ev.flatten(name+"!", x.a, t, f.with(x.c, true), m, depth+1, out)
		ev.flatten(name+"~", x.b, t, f.with(x.c, false), m, depth+1, out)
		return
	case *StructV:
		st := structOf(x.typ)
		for i, fv := range x.f {
			ev.flatten(name+"."+st.Field(i).Name(), fv, st.Field(i).Type(), f, m, depth+1, out)
		}
		return
	case TupleV:
		tt, _ := t.(*types.Tuple)
		for i, e := range x {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			ev.flatten(fmt.Sprintf("%s#%d", name, i), e, et, f, m, depth+1, out)
		}
		return
	case *SliceV:
		out("len("+name+")", f.simp(x.len), f)
		st, ok := t.Underlying().(*types.Slice)
		if !ok || x.obj == nil {
			return
		}
		i := mkVar(fmt.Sprintf("i%d", depth), SInt)
		g := f.with(mkLt0(i), false).with(mkLt(i, x.len), true)
		p := &PtrV{obj: x.obj, idx: append(append([]*Term{}, x.idx...), mkAdd(x.off, i)), null: tFalse}
		ev.flatten(name+"[]", ev.load(m, g, p, st.Elem()), st.Elem(), g, m, depth+1, out)
		return
	case *PtrV:
		out(name+".nil", x.null, f)
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok || x.obj == nil {
			return
		}
		ev.flatten(name+"*", ev.load(m, f, x, pt.Elem()), pt.Elem(), f, m, depth+1, out)
		return
	}
	out(name, v, f)
}

func debugEval(p *Program, pkg string) {
	sp := p.ssa[pkg]
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := sp.Members[n].(*ssa.Function)
		if !ok || n == "init" || n == "Assume" || (len(os.Args) > 3 && !strings.Contains(n, os.Args[3])) {
			continue
		}
		ev := newEv(p)
		ev.trace = os.Getenv("TRACE") != ""
		var args []Val
		facts := newFacts()
		for _, q := range fn.Params {
			args = append(args, ev.inputVal(q.Name(), q.Type(), nil, false))
		}
		v, pf, m, ok := ev.evalFunc(nil, fn, args, nil, nil, facts, Mem{})
		fmt.Printf("== %s ok=%v obls=%d sites=%d bads=%v\n", n, ok, len(ev.obls), ev.sites, ev.bads)
		if !ok {
			continue
		}
		ev.flatten("r", v, fn.Signature.Results(), pf, m, 0, func(nm string, v Val, f *Facts) {
			fmt.Printf("  %s = %s\n", nm, cut(valString(v)))
			if t, ok := v.(*Term); ok {
				showRec(t, map[*RecGroup]bool{})
			}
		})
		for _, o := range ev.obls {
			fmt.Printf("  OBL %s %s %s: %v\n", o.kind, p.pos(o.instr.Pos()), o.chain, o.cond)
		}
	}
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func showRec(t *Term, seen map[*RecGroup]bool) {
	visitTerms(t, func(x *Term) bool {
		if x.grp != nil && !seen[x.grp] {
			seen[x.grp] = true
			for i, b := range x.grp.body {
				fmt.Printf("      %s.%d(%v) := %s\n", x.grp.name, i, x.grp.params[i], cut(b.String()))
				showRec(b, seen)
			}
		}
		return true
	})
}
