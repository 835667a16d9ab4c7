package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reachability under assumptions.
//
// Given constants for some of the values of a function, the constants that
// follow and the edges of the control flow graph that remain are found by
// conditional constant propagation. What cannot be decided stays open: both
// edges remain.

type edge struct{ from, to *ssa.BasicBlock }

type assumed struct {
	f     *ssa.Function
	given func(v ssa.Value) constant.Value
	edges map[edge]bool
	reach map[*ssa.BasicBlock]bool
	busy  map[ssa.Value]bool
}

func assume(f *ssa.Function, given func(v ssa.Value) constant.Value) *assumed {
	a := &assumed{f: f, given: given, edges: map[edge]bool{}, reach: map[*ssa.BasicBlock]bool{}, busy: map[ssa.Value]bool{}}
	a.run()
	return a
}

func (a *assumed) run() {
	f := a.f
	if len(f.Blocks) == 0 {
		return
	}
	a.reach[f.Blocks[0]] = true
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if !a.reach[b] {
				continue
			}
			for i, s := range b.Succs {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if k := a.value(iff.Cond); k != nil && k.Kind() == constant.Bool && constant.BoolVal(k) != (i == 0) {
						continue
					}
				}
				if !a.edges[edge{b, s}] {
					a.edges[edge{b, s}] = true
					a.reach[s] = true
					changed = true
				}
			}
		}
	}
}

func (a *assumed) value(v ssa.Value) constant.Value {
	if k := a.given(v); k != nil {
		return k
	}
	if a.busy[v] {
		return nil
	}
	a.busy[v] = true
	defer delete(a.busy, v)
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value
	case *ssa.ChangeType:
		return a.value(x.X)
	case *ssa.Convert:
		from, ok1 := x.X.Type().Underlying().(*types.Basic)
		to, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 {
			return a.value(x.X)
		}
	case *ssa.UnOp:
		if k := a.value(x.X); k != nil && k.Kind() == constant.Bool && x.Op == token.NOT {
			return constant.MakeBool(!constant.BoolVal(k))
		}
	case *ssa.BinOp:
		return foldBinary(x.Op, a.value(x.X), a.value(x.Y))
	case *ssa.Phi:
		var out constant.Value
		for i, p := range x.Block().Preds {
			if !a.edges[edge{p, x.Block()}] {
				continue
			}
			k := a.value(x.Edges[i])
			if k == nil || out != nil && (out.Kind() != k.Kind() || !constant.Compare(out, token.EQL, k)) {
				return nil
			}
			out = k
		}
		return out
	}
	return nil
}

func foldBinary(op token.Token, x, y constant.Value) (out constant.Value) {
	if x == nil || y == nil || x.Kind() != y.Kind() {
		return nil
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Kind() == constant.Bool && op != token.EQL && op != token.NEQ {
			return nil
		}
		return constant.MakeBool(constant.Compare(x, op, y))
	case token.ADD, token.SUB, token.MUL:
		if x.Kind() == constant.Int || x.Kind() == constant.String && op == token.ADD {
			return constant.BinaryOp(x, op, y)
		}
	case token.REM:
		if x.Kind() == constant.Int && constant.Sign(y) != 0 {
			return constant.BinaryOp(x, op, y)
		}
	case token.AND, token.OR:
		if x.Kind() == constant.Int {
			return constant.BinaryOp(x, op, y)
		}
	}
	return nil
}

// edgesInto gives the values a phi may have.
func (a *assumed) edgesInto(p *ssa.Phi) map[*ssa.BasicBlock]ssa.Value {
	out := map[*ssa.BasicBlock]ssa.Value{}
	for i, pred := range p.Block().Preds {
		if a.edges[edge{pred, p.Block()}] {
			out[pred] = p.Edges[i]
		}
	}
	return out
}
