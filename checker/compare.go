package main

import (
	"fmt"
	"go/types"
)

// Pair is one scalar component at which an observed value and its specification must agree.
type Pair struct {
	name  string
	a, b  *Term
	facts *Facts
	bad   string
}

type comparer struct {
	ev  *Ev
	m   Mem
	out []*Pair
}

func (c *comparer) add(name string, f *Facts, a, b *Term) {
	c.out = append(c.out, &Pair{name: name, a: a, b: b, facts: f})
}
func (c *comparer) fail(name, why string, f *Facts) {
	c.out = append(c.out, &Pair{name: name, bad: why, facts: f})
}

func (c *comparer) eq(name string, f *Facts, a, b Val, t types.Type, depth int) {
	if f.contradictory() {
		return
	}
	if depth > 8 {
		c.fail(name, "depth", f)
		return
	}
	if x, ok := a.(*CondV); ok {
		k := f.simp(x.c)
		if k != tFalse {
			c.eq(name, f.with(k, true), x.a, b, t, depth)
		}
		if k != tTrue {
			c.eq(name, f.with(k, false), x.b, b, t, depth)
		}
		return
	}
	if x, ok := b.(*CondV); ok {
		k := f.simp(x.c)
		if k != tFalse {
			c.eq(name, f.with(k, true), a, x.a, t, depth)
		}
		if k != tTrue {
			c.eq(name, f.with(k, false), a, x.b, t, depth)
		}
		return
	}
	if x, ok := a.(*BadV); ok {
		c.fail(name, x.why, f)
		return
	}
	if x, ok := b.(*BadV); ok {
		c.fail(name, "spec: "+x.why, f)
		return
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			c.add(name, f, x, y)
			return
		}
		if y, ok := b.(*IfaceV); ok && x == tNil {
			_ = y
			c.add(name+" nil", f, tTrue, tFalse)
			return
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && types.Identical(x.typ, y.typ) {
			c.eq(name, f, x.v, y.v, x.typ, depth+1)
			return
		}
		if y, ok := b.(*Term); ok && y == tNil {
			c.add(name+" nil", f, tFalse, tTrue)
			return
		}
	case *StructV:
		y, ok := b.(*StructV)
		if ok {
			st := structOf(x.typ)
			for i := range x.f {
				if i < len(y.f) {
					c.eq(name+"."+st.Field(i).Name(), f, x.f[i], y.f[i], st.Field(i).Type(), depth+1)
				}
			}
			return
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok {
			c.add("len("+name+")", f, x.len, y.len)
			st, ok := t.Underlying().(*types.Slice)
			if !ok || x.obj == nil || y.obj == nil {
				return
			}
			i := mkVar(fmt.Sprintf("i%d", depth), SInt)
			g := f.with(mkLt0(i), false).with(mkLt(i, x.len), true).with(mkLt(i, y.len), true)
			c.eq(name+"[i]", g, c.elem(x, i, g, st.Elem()), c.elem(y, i, g, st.Elem()), st.Elem(), depth+1)
			return
		}
	case *PtrV:
		y, ok := b.(*PtrV)
		if ok {
			pt, ok := t.Underlying().(*types.Pointer)
			if x.null != y.null {
				c.add(name+" nil", f, x.null, y.null)
			}
			if !ok || x.obj == nil || y.obj == nil {
				return
			}
			g := f.with(x.null, false).with(y.null, false)
			c.eq("*"+name, g, c.ev.load(c.m, g, x, pt.Elem()), c.ev.load(c.m, g, y, pt.Elem()), pt.Elem(), depth+1)
			return
		}
	}
	c.fail(name, fmt.Sprintf("cannot compare %T with %T", a, b), f)
}

func (c *comparer) elem(s *SliceV, i *Term, f *Facts, t types.Type) Val {
	p := &PtrV{obj: s.obj, idx: append(append([]*Term{}, s.idx...), f.simp(mkAdd(s.off, i))), null: tFalse}
	return c.ev.load(c.m, f, p, t)
}
