package zzverif

import (
	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
)

// ---- C16, C17: containers. The shape drivers only name the operation to analyse (see shape.go).

func C16_shape_New()     { queue.New() }
func C16_shape_Enqueue() { queue.New().Enqueue(1.0) }
func C16_shape_Dequeue() { queue.New().Dequeue() }
func C16_shape_Empty()   { queue.New().Empty() }

func C17_shape_New()    { bst.New() }
func C17_shape_Insert() { bst.New().Insert(1.0) }
func C17_shape_Remove() { bst.New().Remove(1.0) }
func C17_shape_Min()    { bst.New().Min() }
func C17_shape_Max()    { bst.New().Max() }

func C17_compareFloat(a, b float64) (got, want int) {
	want = 0
	if a < b {
		want = -1
	} else if b < a {
		want = 1
	}
	return container.Compare(a, b), want
}

func C17_compareInt(a, b int64) (got, want int) {
	want = 0
	if a < b {
		want = -1
	} else if b < a {
		want = 1
	}
	return container.Compare(a, b), want
}

type ordered struct{ v int }

func (o ordered) Compare(p container.Comparable) int { return o.v - p.(ordered).v }

// C17_compareOwn: values that bring their own comparison are compared by it, in argument order.
func C17_compareOwn(a, b int) (got, want int) {
	return container.Compare(ordered{a}, ordered{b}), a - b
}

// C17_bulk: inserting a list inserts each of its values once (the tree is a bag here).
func C17_bulk(x []float64) (max, wantMax, min, wantMin float64) {
	Assume(len(x) > 0)
	t := bst.New().Inserts(x)
	w := bst.New()
	for _, v := range x {
		w.Insert(v)
	}
	return t.Max().(float64), w.Max().(float64), t.Min().(float64), w.Min().(float64)
}
