package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sorting replaces the library sorts of candle slices by a stable rank model written in the
// specification package (ties of unstable sorts are left to the specifications not to compare).
func (fr *Frame) sorting(name string, args []Val, in ssa.Instruction, st *state, resT types.Type) (Val, bool, bool) {
	model := ""
	switch name {
	case "sort.Slice", "sort.SliceStable":
		model = "modelSortLess"
	case "slices.SortFunc", "slices.SortStableFunc":
		model = "modelSortCmp"
	default:
		return nil, false, false
	}
	if len(args) != 2 {
		return nil, false, false
	}
	s := args[0]
	if i, ok := s.(*IfaceV); ok {
		s = i.v
		if !isCandles(i.typ) {
			return nil, false, false
		}
	}
	if sv, ok := s.(*SliceV); !ok || sv.obj == nil {
		return nil, false, false
	}
	sp := fr.ev.prog.ssa[modPath+"/zzverif"]
	if sp == nil || sp.Func(model) == nil {
		return nil, false, false
	}
	fn := sp.Func(model)
	f, ok := args[1].(*FuncV)
	if !ok || (model == "modelSortCmp" && !types.Identical(f.fn.Signature.Params().At(0).Type(), fn.Params[0].Type().Underlying().(*types.Slice).Elem())) {
		return nil, false, false
	}
	v, ok := fr.callFn(fn, []Val{s, args[1]}, nil, in, st, resT)
	return v, ok, true
}

func isCandles(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(s.Elem().String(), "klines.Candle") && strings.HasPrefix(s.Elem().String(), "*")
}
