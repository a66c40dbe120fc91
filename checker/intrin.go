package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tInf = mkSym("+inf", SReal)

// tDiv0 is the value of a division by a denominator that is identically zero.
var tDiv0 = mkApp("inf", SReal)
var tNaN = mkSym("nan", SReal)

func t1of(args []Val, i int) *Term {
	if i < len(args) {
		switch x := args[i].(type) {
		case *Term:
			return x
		case *IfaceV:
			if t, ok := x.v.(*Term); ok {
				return t
			}
		}
	}
	return nil
}

// definedness of a rational term: conditions under which it is NaN or infinite when its
// atoms are finite.
func denominators(t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if t.op != OpPoly {
			return
		}
		for _, m := range t.poly.m {
			for _, f := range m.fac {
				if f.e < 0 && !seen[f.a.id] {
					seen[f.a.id] = true
					a := f.a
					if a.op == OpGroup {
						a = a.args[0]
					}
					out = append(out, a)
				}
			}
		}
	}
	walk(t)
	return out
}

// numer returns t multiplied by all its denominators.
func numer(t *Term) *Term {
	if t.op != OpPoly {
		return t
	}
	exp := map[int]int{}
	atom := map[int]*Term{}
	for _, m := range t.poly.m {
		for _, f := range m.fac {
			if f.e < 0 && -f.e > exp[f.a.id] {
				exp[f.a.id] = -f.e
				atom[f.a.id] = f.a
			}
		}
	}
	x := t
	for id, n := range exp {
		a := atom[id]
		for ; n > 0; n-- {
			x = mulAtom(x, a)
		}
	}
	return x
}

func mulAtom(t, a *Term) *Term {
	p := polyMul(toPoly(t), &Poly{m: []Mono{{oneRat, []Factor{{a, 1}}}}})
	if p == nil {
		return mkOpaque("polysize", SReal)
	}
	return mkPolyTerm(cancelGroups(p))
}

// countIte counts the conditional atoms of a sum.
func countIte(t *Term) int {
	seen := map[int]bool{}
	for _, m := range t.poly.m {
		for _, f := range m.fac {
			if f.a.op == OpIte {
				seen[f.a.id] = true
			}
		}
	}
	return len(seen)
}

func nanCond(t *Term, kind string) *Term {
	if t == tNaN {
		return mkBool(kind == "nan")
	}
	if t == tInf {
		return mkBool(kind == "inf" || kind == "inf+")
	}
	if t.op == OpIte {
		return mkIte(t.args[0], nanCond(t.args[1], kind), nanCond(t.args[2], kind))
	}
	if t.op == OpApp && t.name == "sqrt" {
		if kind == "nan" {
			return mkOr(mkLt0(t.args[0]), nanCond(t.args[0], kind))
		}
		return nanCond(t.args[0], kind)
	}
	if t.op == OpPoly && (countIte(t) > 3 || len(denominators(t)) > 4) {
		return mkApp("is."+kind, SBool, t) // too wide to expand: kept as one test
	}
	if t.op == OpPoly {
		// Ite atoms inside: lift
		if it := topIte(t); it != nil {
			return mkIte(it.args[0], nanCond(replaceAtom(t, it, it.args[1]), kind), nanCond(replaceAtom(t, it, it.args[2]), kind))
		}
		for _, m := range t.poly.m {
			for _, f := range m.fac {
				if f.a == tNaN {
					return mkBool(kind == "nan")
				}
			}
		}
	}
	if t == tDiv0 {
		return mkBool(kind != "nan")
	}
	if t.op == OpPoly {
		// n * (1/0) + rest
		var lead []Mono
		for _, m := range t.poly.m {
			for i, f := range m.fac {
				if f.a == tDiv0 && f.e > 0 {
					rest := append(append([]Factor{}, m.fac[:i]...), m.fac[i+1:]...)
					lead = append(lead, Mono{m.coef, rest})
				}
			}
		}
		if len(lead) > 0 {
			n := mkPolyTerm(normMonos(lead))
			bad := nanCond(n, "nan")
			switch kind {
			case "nan":
				return mkOr(bad, mkEq0(n))
			case "inf":
				return mkAnd(mkNot(bad), mkNot(mkEq0(n)))
			case "inf+":
				return mkAnd(mkNot(bad), mkLt0(mkNeg(n)))
			}
			return mkAnd(mkNot(bad), mkLt0(n))
		}
	}
	ds := denominators(t)
	if len(ds) == 0 {
		return tFalse
	}
	z := tFalse
	for _, d := range ds {
		z = mkOr(z, mkEq0(d))
	}
	n := numer(t)
	switch kind {
	case "nan":
		return mkAnd(z, mkEq0(n))
	case "inf":
		return mkAnd(z, mkNot(mkEq0(n)))
	case "inf+":
		return mkAnd(z, mkLt0(mkNeg(n)))
	default:
		return mkAnd(z, mkLt0(n))
	}
}

func (fr *Frame) intrinsic(fn *ssa.Function, args []Val, in ssa.Instruction, st *state, resT types.Type) (Val, bool, bool) {
	ev := fr.ev
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	ret := func(v Val) (Val, bool, bool) { return v, true, true }
	f := st.pc.facts
	if v := fr.clock(name, args); v != nil {
		return ret(v)
	}
	if name == "reflect.DeepEqual" && len(args) == 2 {
		a, ok1 := args[0].(*IfaceV)
		b, ok2 := args[1].(*IfaceV)
		if ok1 && ok2 && types.Identical(a.typ, b.typ) {
			x, ok1 := a.v.(*Term)
			y, ok2 := b.v.(*Term)
			if ok1 && ok2 && sortOf(a.typ) != SOther {
				return ret(f.simp(mkEq(x, y)))
			}
		}
	}
	if v, ok, done := fr.sorting(name, args, in, st, resT); done {
		return v, ok, true
	}
	if strings.HasPrefix(name, "math.") && fn.Package() != nil {
		var ts []*Term
		for i := range args {
			t := t1of(args, i)
			if t == nil {
				return ret(fr.resBad(resT, name))
			}
			ts = append(ts, t)
		}
		switch name {
		case "math.Abs":
			return ret(mkAbs(ts[0]))
		case "math.Max":
			return ret(mkMax(ts[0], ts[1]))
		case "math.Min":
			return ret(mkMin(ts[0], ts[1]))
		case "math.Sqrt":
			ev.oblig(fr, "domain", in, "square root of a negative value", f, mkNot(mkLt0(ts[0])))
			return ret(mkFun("sqrt", SReal, ts[0]))
		case "math.Pow":
			return ret(mkFun("pow", SReal, ts[0], ts[1]))
		case "math.Round":
			return ret(mkFun("round", SReal, ts[0]))
		case "math.Floor":
			return ret(mkFun("floor", SReal, ts[0]))
		case "math.Ceil":
			return ret(mkFun("ceil", SReal, ts[0]))
		case "math.Trunc":
			return ret(mkFun("trunc", SInt, ts[0]))
		case "math.IsNaN":
			return ret(nanCond(ts[0], "nan"))
		case "math.IsInf":
			s, ok := ts[1].constInt()
			k := "inf"
			if ok && s > 0 {
				k = "inf+"
			} else if ok && s < 0 {
				k = "inf-"
			}
			return ret(nanCond(ts[0], k))
		case "math.Inf":
			if s, ok := ts[0].constInt(); ok {
				if s >= 0 {
					return ret(tInf)
				}
				return ret(mkNeg(tInf))
			}
		case "math.NaN":
			return ret(tNaN)
		}
		return ret(mkFun(strings.ToLower(strings.TrimPrefix(name, "math.")), sortOf(resT), ts...))
	}
	const B = "(*" + modPath + "/container/bst.Tree)."
	if ev.rawInserts && name == B+"Inserts" {
		name = ""
	}
	switch name {
	case modPath + "/container/bst.New":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o, idx := fr.allocObj(in, "bst", t, 0)
		p := &PtrV{obj: o, idx: idx, null: tFalse}
		ev.store(st.mem, p, t, mkStr("bag.empty"))
		return ret(p)
	case B + "Insert", B + "Remove", B + "Min", B + "Max", B + "Inserts":
		t := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		bag, ok := ev.load(st.mem, f, args[0], t).(*Term)
		if !ok {
			return ret(fr.resBad(resT, "bst"))
		}
		f64 := types.Typ[types.Float64]
		switch name[len(B):] {
		case "Insert", "Remove":
			x := t1of(args, 1)
			if x == nil {
				return ret(fr.resBad(resT, "bst arg"))
			}
			fr.noteWrite(args[0], in)
			if name[len(B):] == "Insert" {
				ev.store(st.mem, args[0], t, mkApp("bag.ins", SOther, bag, x))
				return ret(TupleV{})
			}
			ev.store(st.mem, args[0], t, mkApp("bag.rem", SOther, bag, x))
			return ret(mkApp("bag.has", SBool, bag, x))
		case "Inserts":
			s, ok := args[1].(*SliceV)
			if !ok {
				return ret(fr.resBad(resT, "bst inserts"))
			}
			var b *Term
			if s.obj == nil {
				b = bag
			} else {
				k := mkFreshVar("j", SInt)
				e := ev.readLeaf(st.mem, f.with(mkNot(mkLt0(mkSub(k, t1))), true).with(mkLe(k, s.len), true), s.obj, "", f64, append(append([]*Term{}, s.idx...), mkSub(mkAdd(s.off, k), t1)))
				et, ok := e.(*Term)
				if !ok {
					return ret(fr.resBad(resT, "bst elem"))
				}
				tag := freshMuTag()
				body := mkIte(mkEq0(k), bag, mkApp("bag.ins", SOther, mkApp(muName(tag, 0), SOther, mkSub(k, t1)), et))
				b = mkRec(mkRecGroup("inserts", [][]*Term{{k}}, []*Term{body}, tag, false), 0, []*Term{s.len})
			}
			ev.store(st.mem, args[0], t, b)
			return ret(args[0])
		default:
			n := "bag.max"
			if name[len(B):] == "Min" {
				n = "bag.min"
			}
			if bag.op == OpStr {
				return ret(tNil)
			}
			return ret(&IfaceV{f64, mkApp(n, SReal, bag)})
		}
	}
	if strings.HasSuffix(name, "/zzverif.Assume") {
		if c := t1of(args, 0); c != nil {
			c = f.simp(c)
			if c == tFalse {
				return nil, false, true
			}
			st.pc = st.pc.withFacts(f.with(c, true))
			ev.assume = ev.assume.with(c, true)
		}
		return ret(TupleV{})
	}
	if name == "errors.Is" || strings.HasSuffix(name, "/zzverif.Wraps") {
		e, t := t1of(args, 0), t1of(args, 1)
		if e == nil || t == nil {
			return ret(fr.resBad(resT, name))
		}
		if name != "errors.Is" {
			t = ev.globalNamed(t.name)
			if t == nil {
				return ret(fr.resBad(resT, name))
			}
		}
		return ret(errorIs(f.simp(e), t))
	}
	if name == "fmt.Errorf" && len(args) == 2 {
		if t := fr.errorf(args, st); t != nil {
			return ret(t)
		}
	}
	if strings.HasSuffix(name, "/zzverif.WinMax") || strings.HasSuffix(name, "/zzverif.WinMin") {
		return ret(fr.resBad(resT, "winmax"))
	}
	return nil, false, false
}

// external (or body-less) functions.
func (fr *Frame) external(fn *ssa.Function, args []Val, in ssa.Instruction, st *state, resT types.Type) Val {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	// variadic interface lists are flattened
	var flat []Val
	for i, a := range args {
		if s, ok := a.(*SliceV); ok && fn.Signature.Variadic() && i == len(args)-1 {
			n, isC := s.len.constInt()
			if !isC || n > 16 {
				return fr.resBad(resT, "variadic "+name)
			}
			et := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
			for j := int64(0); j < n; j++ {
				flat = append(flat, fr.ev.readLeaf(st.mem, st.pc.facts, s.obj, "", et, append(append([]*Term{}, s.idx...), mkAdd(s.off, mkInt(j)))))
			}
			continue
		}
		flat = append(flat, a)
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "fmt", "strings", "strconv", "time", "errors", "math", "github.com/shopspring/decimal", "math/big":
			if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") {
				return fr.resBadQuiet(resT)
			}
			return fr.uninterpreted(name, flat, resT)
		}
	}
	fr.ev.effect(fr, "external", in, name)
	for _, a := range flat {
		if reaches(a) {
			fr.ev.bads["lost: external "+name]++
		}
	}
	return fr.resBad(resT, "external "+name)
}

// reaches: the callee could write memory through the value.
func reaches(v Val) bool {
	switch x := v.(type) {
	case *PtrV:
		return x.obj != nil
	case *SliceV:
		return x.obj != nil
	case *IfaceV:
		return reaches(x.v)
	case *CondV:
		return reaches(x.a) || reaches(x.b)
	case *StructV:
		for _, f := range x.f {
			if reaches(f) {
				return true
			}
		}
	case *FuncV, *MapV, *BadV:
		return true
	}
	return false
}

func (fr *Frame) resBadQuiet(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tp.Len(); i++ {
			r = append(r, &BadV{"unused"})
		}
		return r
	}
	return &BadV{"unused"}
}

func (fr *Frame) builtin(name string, c *ssa.CallCommon, in ssa.Instruction, st *state) Val {
	ev := fr.ev
	f := st.pc.facts
	switch name {
	case "len", "cap":
		v := fr.get(c.Args[0])
		if isChanT(c.Args[0].Type()) {
			p := fr.chanOf(v)
			switch {
			case p == nil:
				return mkOpaque("len", SInt)
			case name == "cap":
				return fr.chanLeaf(p, "#cap", st)
			}
			ev.bad("length of a channel") // depends on the schedule
			return mkOpaque("len", SInt)
		}
		if n := sliceLen(v); n != nil {
			return f.simp(n)
		}
		if t, ok := v.(*Term); ok {
			return mkApp("len", SInt, t)
		}
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(at.Len())
			}
		}
		ev.bad("len")
		return mkOpaque("len", SInt)
	case "append":
		return fr.append(c, in, st)
	case "copy":
		dst, ok1 := fr.get(c.Args[0]).(*SliceV)
		src, ok2 := fr.get(c.Args[1]).(*SliceV)
		if _, unk := fr.get(c.Args[1]).(*BadV); ok1 && !ok2 && unk && dst.obj != nil {
			// what was copied is unknown, where it went is not
			fr.noteWrite(&PtrV{obj: dst.obj, null: tFalse}, in)
			fr.unknown = true
			fr.fillElems(dst, dst.off, dst.len, c.Args[0].Type().Underlying().(*types.Slice).Elem(), st, nil)
			fr.unknown = false
			ev.bad("copy")
			return mkOpaque("copy", SInt)
		}
		if !ok1 || !ok2 {
			ev.bad("lost: copy")
			return mkOpaque("copy", SInt)
		}
		n := f.simp(mkMin(dst.len, src.len))
		if dst.obj == nil || src.obj == nil {
			return t0
		}
		fr.noteWrite(&PtrV{obj: dst.obj, null: tFalse}, in)
		fr.copyElems(dst, src, dst.off, n, c.Args[0].Type().Underlying().(*types.Slice).Elem(), st)
		return n
	case "min", "max":
		var acc *Term
		for _, a := range c.Args {
			t := fr.num(a)
			if acc == nil {
				acc = t
			} else if name == "min" {
				acc = mkMin(acc, t)
			} else {
				acc = mkMax(acc, t)
			}
		}
		return acc
	case "print", "println", "close", "delete":
		if name == "close" {
			fr.closing(fr.get(c.Args[0]), false, in, st)
		}
		if name == "delete" {
			ev.bads["lost: "+name]++
		}
		return TupleV{}
	case "clear":
		d, ok := fr.get(c.Args[0]).(*SliceV)
		if !ok {
			ev.bads["lost: "+name]++
			return TupleV{}
		}
		if d.obj != nil {
			fr.noteWrite(&PtrV{obj: d.obj, null: tFalse}, in)
			fr.fillElems(d, d.off, d.len, c.Args[0].Type().Underlying().(*types.Slice).Elem(), st, nil)
		}
		return TupleV{}
	case "recover":
		return tNil
	case "ssa:wrapnilchk":
		return fr.get(c.Args[0])
	}
	return ev.bad("builtin " + name)
}

// copyElems writes n elements of src at absolute position lo of dst's object.
func (fr *Frame) copyElems(dst, src *SliceV, lo, n *Term, et types.Type, st *state) {
	fr.fillElems(dst, lo, n, et, st, src)
}

// fillElems is copyElems, or zeroing without a source.
func (fr *Frame) fillElems(dst *SliceV, lo, n *Term, et types.Type, st *state, src *SliceV) {
	ev := fr.ev
	snap := st.mem.clone()
	unknown := fr.unknown
	var leafs func(path string, t types.Type)
	leafs = func(path string, t types.Type) {
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				leafs(path+"."+s.Field(i).Name(), s.Field(i).Type())
			}
			return
		}
		l := ev.leaf(dst.obj, path, t)
		st.mem[l] = &copyC{prev: ev.content(snap, l), prefix: dst.idx, lo: lo, n: n, src: func(f *Facts, j *Term) Val {
			if unknown {
				return &BadV{"copied from an unknown slice"}
			}
			if src == nil {
				return zeroVal(t)
			}
			return ev.readLeaf(snap, f, src.obj, path, t, append(append([]*Term{}, src.idx...), mkAdd(src.off, j)))
		}}
	}
	leafs("", et)
}

func (fr *Frame) append(c *ssa.CallCommon, in ssa.Instruction, st *state) Val {
	ev := fr.ev
	f := st.pc.facts
	a := fr.get(c.Args[0])
	if len(c.Args) < 2 {
		return a
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if cv, ok := a.(*CondV); ok {
		ok2 := true
		_ = cv
		if ok2 {
			return ev.bad("append to conditional slice")
		}
	}
	s, ok := a.(*SliceV)
	bv := fr.get(c.Args[1])
	b, ok2 := bv.(*SliceV)
	if !ok || !ok2 {
		return ev.bad("append")
	}
	if b.obj == nil {
		return s
	}
	d := s
	if s.obj == nil {
		o, idx := fr.allocObj(in, "append", et, 1)
		d = &SliceV{obj: o, idx: idx, off: t0, len: t0}
	} else if s.obj.input {
		o, idx := fr.allocObj(in, "appendcopy", et, 1)
		d = &SliceV{obj: o, idx: idx, off: t0, len: s.len}
		fr.copyElems(d, s, t0, s.len, et, st)
	}
	end := mkAdd(d.off, d.len)
	if n, isC := b.len.constInt(); isC && n <= 8 {
		for j := int64(0); j < n; j++ {
			v := ev.readLeaf(st.mem, f, b.obj, "", et, append(append([]*Term{}, b.idx...), mkAdd(b.off, mkInt(j))))
			ev.writeLeaf(st.mem, d.obj, "", et, append(append([]*Term{}, d.idx...), f.simp(mkAdd(end, mkInt(j)))), v)
		}
		return &SliceV{obj: d.obj, idx: d.idx, off: d.off, len: mkAdd(d.len, b.len)}
	}
	fr.copyElems(d, b, end, b.len, et, st)
	return &SliceV{obj: d.obj, idx: d.idx, off: d.off, len: mkAdd(d.len, b.len)}
}

var _ = fmt.Sprint
var _ = big.NewRat
