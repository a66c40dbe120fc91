package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// safety turns the effects and obligations met while extracting a driver into verdicts.
func (res *FnRes) safety(cfg *Config, p *Program, ev *Ev, v Val, f *Facts, m Mem, ok bool) {
	switch cfg.prop {
	case "C03":
		res.effects(p, ev)
		if strings.HasPrefix(res.Fn, "X_ta_") && ok {
			res.fresh(v)
		}
	case "C07":
		res.panics(cfg, p, ev)
	case "C08":
		if !ok {
			res.Failed = "never returns"
			return
		}
		c := &comparer{ev: ev, m: m}
		vs, isT := v.(TupleV)
		if !isT {
			vs = TupleV{v}
		}
		rt := res.sig
		for i, x := range vs {
			n := rt.At(i).Name()
			if n == "" {
				n = fmt.Sprintf("result%d", i)
			}
			c.leaves(n, f, x, rt.At(i).Type(), 0)
		}
		for _, pr := range c.out {
			res.Pairs = append(res.Pairs, finiteVerdict(cfg, res.Fn, pr))
		}
	}
}

// effects: writes to caller-owned memory or package state.
func (res *FnRes) effects(p *Program, ev *Ev) {
	var ks []string
	for k := range ev.effects {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	seen := map[string]bool{}
	for _, k := range ks {
		e := ev.effects[k]
		where := shortFn(e.fn) + " " + e.kind + " " + e.what
		if seen[where] {
			continue
		}
		seen[where] = true
		res.Pairs = append(res.Pairs, PairRes{Name: "effect", Verdict: "differs", Where: where,
			Detail: fmt.Sprintf("%s: %s writes %s (%s)", p.pos(e.instr.Pos()), shortFn(e.fn), e.what, e.kind)})
	}
	if len(ks) == 0 {
		pr := PairRes{Name: "effects", Verdict: "equal", How: "no store reaches caller-owned memory or package state"}
		for k := range ev.bads {
			if strings.HasPrefix(k, "call ") || strings.HasPrefix(k, "store") {
				pr.Verdict, pr.Detail = "undecided", "opaque: "+k
			}
		}
		res.Pairs = append(res.Pairs, pr)
	}
}

// fresh: the returned slices are not the caller's.
func (res *FnRes) fresh(v Val) {
	switch x := v.(type) {
	case TupleV:
		for _, y := range x {
			res.fresh(y)
		}
	case *CondV:
		res.fresh(x.a)
		res.fresh(x.b)
	case *SliceV:
		pr := PairRes{Name: "fresh result", Verdict: "equal", How: "allocated by the helper"}
		if x.obj != nil && x.obj.input {
			pr = PairRes{Name: "fresh result", Verdict: "differs", Detail: "the result shares memory with the argument " + x.obj.name}
		}
		res.Pairs = append(res.Pairs, pr)
	}
}

// panics: every index, slice, conversion, nil and explicit-panic obligation.
func (res *FnRes) panics(cfg *Config, p *Program, ev *Ev) {
	type group struct {
		where, pos string
		o          *Oblig
		all        []*Oblig
	}
	gs := map[string]*group{}
	var ks []string
	for _, o := range ev.obls {
		if o.kind == "div" || o.kind == "domain" {
			continue
		}
		if strings.HasPrefix(res.Fn, "C15_") && o.kind != "block" && strings.Contains(o.fn.String(), "/zzverif.") {
			continue // the specification's own indexing
		}
		w := site(o)
		g := gs[w]
		if g == nil {
			g = &group{where: w, pos: p.pos(o.instr.Pos())}
			gs[w] = g
			ks = append(ks, w)
		}
		g.all = append(g.all, o)
	}
	sort.Strings(ks)
	n := 0
	for _, k := range ks {
		g := gs[k]
		pr := PairRes{Name: g.where, Where: g.where, Verdict: "equal", How: "bounds implied by the path condition"}
		for i, o := range g.all {
			n++
			if i >= 12 {
				break
			}
			fs := newFacts()
			for _, l := range o.facts {
				fs = fs.with(l.t, l.v)
			}
			if fs.contradictory() {
				continue
			}
			cond := o.cond
			if cond != nil {
				cond = fs.simp(cond)
				if cond == tTrue {
					continue
				}
			}
			rounds := cfg.rounds
			if cfg.tier == "quick" {
				rounds = 60
			}
			w, st := falsify(o.facts, cond, rounds, seedOf(cfg.seed, res.Fn, g.where, i))
			if w != nil {
				pr.Verdict, pr.How = "differs", ""
				c := "never reached"
				if cond != nil {
					c = cutTo(cond.String(), cutLen)
				}
				pr.Detail = fmt.Sprintf("%s: %s in %s, at %s", g.pos, o.what, shortFn(o.fn), w.text)
				pr.Got, pr.Want = "reachable with the condition false", c
				break
			}
			if cond != nil && proveEq(fs, cond, tTrue) {
				continue
			}
			pr.Verdict, pr.How = "undecided", ""
			pr.Detail = fmt.Sprintf("%s: %s not falsified on %d points %v", g.pos, o.what, st.agreed, st.why)
		}
		res.Pairs = append(res.Pairs, pr)
	}
	if done := ev.sites - n; done > 0 {
		res.Pairs = append(res.Pairs, PairRes{Name: fmt.Sprintf("%d sites", done), Verdict: "equal", How: "discharged during extraction"})
	}
}

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

// site names the construct an obligation belongs to independently of line numbers.
func site(o *Oblig) string {
	s := shortFn(o.fn) + " " + o.kind
	switch x := o.instr.(type) {
	case *ssa.IndexAddr:
		s += " " + describe(x.X, 0)
	case *ssa.Index:
		s += " " + describe(x.X, 0)
	case *ssa.Slice:
		s += " " + describe(x.X, 0)
	case *ssa.UnOp:
		s += " " + describe(x.X, 0)
	case *ssa.FieldAddr:
		s += " " + describe(x.X, 0)
	case *ssa.BinOp:
		s += " " + describe(x.Y, 0)
	}
	return s
}

func describe(v ssa.Value, d int) string {
	if d > 4 {
		return "…"
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Const:
		return x.Value.String()
	case *ssa.FieldAddr:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				return st.Field(x.Field).Name()
			}
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return st.Field(x.Field).Name()
		}
	case *ssa.UnOp:
		return describe(x.X, d+1)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			return g.Name() + "()"
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() + "()"
		}
	case *ssa.Extract:
		return describe(x.Tuple, d+1)
	case *ssa.Slice:
		return describe(x.X, d+1)
	case *ssa.IndexAddr:
		return describe(x.X, d+1) + "[]"
	case *ssa.MakeSlice, *ssa.Alloc:
		return "new slice"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.FreeVar:
		return x.Name()
	}
	return "value"
}

// leaves collects every published number.
func (c *comparer) leaves(name string, f *Facts, v Val, t types.Type, depth int) {
	if depth > 6 || f.contradictory() {
		return
	}
	switch x := v.(type) {
	case *Term:
		if x.sort == SReal {
			c.add(name, f, x, x)
		}
	case *CondV:
		c.leaves(name, f.with(f.simp(x.c), true), x.a, t, depth)
		c.leaves(name, f.with(f.simp(x.c), false), x.b, t, depth)
	case *BadV:
		c.fail(name, x.why, f)
	case *IfaceV:
		c.leaves(name, f, x.v, x.typ, depth+1)
	case *StructV:
		st := structOf(x.typ)
		for i := range x.f {
			c.leaves(name+"."+st.Field(i).Name(), f, x.f[i], st.Field(i).Type(), depth+1)
		}
	case *SliceV:
		st, ok := t.Underlying().(*types.Slice)
		if !ok || x.obj == nil {
			return
		}
		i := mkVar(fmt.Sprintf("i%d", depth), SInt)
		g := f.with(mkLt0(i), false).with(mkLt(i, x.len), true)
		c.leaves(name+"[i]", g, c.elem(x, i, g, st.Elem()), st.Elem(), depth+1)
	case *PtrV:
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok || x.obj == nil || x.null == tTrue {
			return
		}
		g := f.with(x.null, false)
		c.leaves(name, g, c.ev.load(c.m, g, x, pt.Elem()), pt.Elem(), depth+1)
	}
}

func finiteVerdict(cfg *Config, fn string, pr *Pair) PairRes {
	r := PairRes{Name: pr.name}
	if pr.bad != "" {
		r.Verdict, r.Detail = "unmodelled", pr.bad
		return r
	}
	a := pr.facts.simp(pr.a)
	if !mayBeNonfinite(a) {
		r.Verdict, r.How = "equal", "no division or root in the value graph"
		return r
	}
	w, st := poison(pr.facts.lits(), a, cfg.rounds, seedOf(cfg.seed, fn, pr.name))
	r.Tried = st.agreed
	if w != nil {
		r.Verdict = "differs"
		r.Detail = fmt.Sprintf("at %s: the published value is %s", w.text, w.a)
		r.Got, r.Want = cutTo(a.String(), cutLen), "a finite value"
		return r
	}
	r.Verdict = "undecided"
	r.Detail = fmt.Sprintf("finite on %d points (%v)", st.agreed, st.why)
	return r
}

// mayBeNonfinite: some reachable part divides by a term other than a positive constant, or
// takes a root.
func mayBeNonfinite(t *Term) bool {
	found := false
	visitTerms(t, func(x *Term) bool {
		if found {
			return false
		}
		switch {
		case x == tNaN || x == tInf || x == tDiv0:
			found = true
		case x.op == OpApp && (x.name == "sqrt" || x.name == "pow" || strings.HasPrefix(x.name, "math.Log")):
			found = true
		case x.op == OpPoly:
			for _, m := range x.poly.m {
				for _, f := range m.fac {
					if f.e < 0 && !positive(f.a) {
						found = true
					}
				}
			}
		}
		return !found
	})
	return found
}

// positive: sums of parameters assumed at least one, with positive coefficients.
func positive(t *Term) bool {
	if t.op == OpSym && t.sort == SInt {
		return !strings.HasPrefix(t.name, "len(")
	}
	if t.op != OpPoly {
		return false
	}
	for _, m := range t.poly.m {
		if m.coef.Sign() <= 0 {
			return false
		}
		for _, f := range m.fac {
			if f.e < 0 || !positive(f.a) {
				return false
			}
		}
	}
	return len(t.poly.m) > 0
}
