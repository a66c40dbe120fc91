package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Error values: sentinels are package variables written once, by their initialiser.

type globInit struct {
	v      ssa.Value
	stores int
	taken  bool
}

func (p *Program) globals() map[*ssa.Global]*globInit {
	if p.globs != nil {
		return p.globs
	}
	p.globs = map[*ssa.Global]*globInit{}
	for fn := range ssautil.AllFunctions(p.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gi := p.globs[g]
					if gi == nil {
						gi = &globInit{}
						p.globs[g] = gi
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							gi.stores++
							gi.v = x.Val
							if fn.Name() != "init" || fn.Pkg != g.Pkg {
								gi.taken = true
							}
						}
						if x.Val == ssa.Value(g) {
							gi.taken = true
						}
					default:
						gi.taken = true
					}
				}
			}
		}
	}
	return p.globs
}

// initOnly is the value of a package variable that only its initialiser sets.
func (ev *Ev) initOnly(g *ssa.Global) Val {
	gi := ev.prog.globals()[g]
	if gi == nil || gi.taken || gi.stores != 1 {
		return nil
	}
	c, ok := gi.v.(*ssa.Call)
	if !ok {
		return nil
	}
	fn := c.Call.StaticCallee()
	if fn == nil {
		return nil
	}
	switch fn.String() {
	case "errors.New":
		return mkFun("errors.New", SOther, mkStr(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/")+"."+g.Name()))
	case "time.Unix":
		fr := &Frame{ev: ev}
		var args []Val
		for _, a := range c.Call.Args {
			k, ok := a.(*ssa.Const)
			if !ok {
				return nil
			}
			args = append(args, fr.constVal(k))
		}
		return fr.clock("time.Unix", args)
	}
	return nil
}

// globalNamed finds a sentinel by "path/to/pkg.Name" (quoted).
func (ev *Ev) globalNamed(q string) *Term {
	n, err := strconv.Unquote(q)
	if err != nil {
		return nil
	}
	i := strings.LastIndex(n, ".")
	sp := ev.prog.ssa[modPath+"/"+n[:i]]
	if sp == nil {
		return nil
	}
	g, ok := sp.Members[n[i+1:]].(*ssa.Global)
	if !ok {
		return nil
	}
	t, _ := ev.initOnly(g).(*Term)
	return t
}

// errorf keeps one term per argument so that the wrapped ones can be told apart.
func (fr *Frame) errorf(args []Val, st *state) *Term {
	f, ok := args[0].(*Term)
	s, ok2 := args[1].(*SliceV)
	if !ok || !ok2 {
		return nil
	}
	ts := []*Term{f}
	if s.obj != nil {
		n, isC := s.len.constInt()
		if !isC || n > 16 {
			return nil
		}
		for j := int64(0); j < n; j++ {
			v := fr.ev.readLeaf(st.mem, st.pc.facts, s.obj, "", types.NewInterfaceType(nil, nil), append(append([]*Term{}, s.idx...), mkAdd(s.off, mkInt(j))))
			a, ok := fr.flatArg(v)
			if !ok {
				a = []*Term{mkStr("arg")}
			}
			if len(a) == 1 {
				ts = append(ts, a[0])
			} else {
				ts = append(ts, mkFun("tuple", SOther, a...))
			}
		}
	}
	return mkFun("fmt.Errorf", SOther, ts...)
}

// errorIs follows %w wrapping to the sentinels.
func errorIs(e, target *Term) *Term {
	switch {
	case e == target:
		return tTrue
	case e == tNil:
		return tFalse
	case e.op == OpIte:
		return mkIte(e.args[0], errorIs(e.args[1], target), errorIs(e.args[2], target))
	case e.op == OpApp && e.name == "errors.New" && target.op == OpApp && target.name == "errors.New":
		return tFalse
	case e.op == OpApp && e.name == "fmt.Errorf":
		s, err := strconv.Unquote(e.args[0].name)
		if err != nil {
			break
		}
		r, k := tFalse, 1
		for i := 0; i < len(s); i++ {
			if s[i] != '%' {
				continue
			}
			i++
			for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
				i++
			}
			if i >= len(s) || s[i] == '%' {
				continue
			}
			if s[i] == 'w' && k < len(e.args) {
				r = mkOr(r, errorIs(e.args[k], target))
			}
			k++
		}
		return r
	}
	return mkApp("errors.Is", SBool, e, target)
}
