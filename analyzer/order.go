package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// order: what is gathered from something with an order is gathered in that
// order: put at the end going up, or in front going down.
func (w *workthrough) order(f *ssa.Function, l *loop) {
	what, at := over(l)
	down := false
	var seq ssa.Value
	if at == nil {
		if seq = downwards(l); seq == nil {
			return
		}
		what, down = shortType(seq.Type()), true
	} else if _, ok := at.(*ssa.If).Cond.(*ssa.BinOp); !ok && what != "value" || what == "reflect" {
		return
	} else if b, ok := at.(*ssa.If).Cond.(*ssa.BinOp); ok && b.Op != token.LSS {
		return // a chain leads from the inside to the outside
	}
	name := w.c.FuncName(f)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !isAppend(call) || len(call.Call.Args) != 2 {
				continue
			}
			if isNamed(call.Type(), hclPath, "Diagnostics") || isText(call.Type()) {
				continue
			}
			first := gathered(call.Call.Args[0], l, map[ssa.Value]bool{})
			second := gathered(call.Call.Args[1], l, map[ssa.Value]bool{})
			if first == second {
				continue
			}
			if anyOrder(call, map[ssa.Value]bool{}) {
				continue
			}
			if down && first && types.Identical(call.Type(), seq.Type()) {
				continue // turning a list round
			}
			w.c.Count("lists gathered in order", 1)
			if second != down {
				w.c.Report("order", fmt.Sprintf("%s over %s", name, what), At(call.Pos()), fmt.Sprintf("%s gathers what it makes of %s in the opposite order", name, what))
			}
		}
	}
}

// gathered: a list is the one the loop has gathered so far.
func gathered(v ssa.Value, l *loop, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.header {
			return true
		}
		for _, e := range x.Edges {
			if gathered(e, l, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return gathered(x.X, l, seen)
	case *ssa.Slice:
		return gathered(x.X, l, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL || !l.blocks[x.Block()] {
			return false
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && onePlace(st.Addr, x.X) {
					return true
				}
			}
		}
	case *ssa.Call:
		if isAppend(x) {
			for _, a := range x.Call.Args {
				if gathered(a, l, seen) {
					return true
				}
			}
		}
	}
	return false
}

// downwards: the list a loop works through from the last element to the first.
func downwards(l *loop) ssa.Value {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.GEQ && b.Op != token.GTR {
		return nil
	}
	phi, ok := b.X.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return nil
	}
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			continue
		}
		if sub, ok := e.(*ssa.BinOp); ok && sub.Op == token.SUB {
			e = sub.X
		}
		call, ok := e.(*ssa.Call)
		if !ok {
			return nil
		}
		if seq, _ := lenOf(call); seq != nil {
			return seq
		}
	}
	return nil
}

// onePlace: two addresses are written the same way.
func onePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && onePlace(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && onePlace(x.X, y.X)
	}
	return false
}

// anyOrder: a list ends up where its order does not matter.
func anyOrder(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
			if anyOrder(x.(ssa.Value), seen) {
				return true
			}
		case *ssa.Call:
			if isAppend(x) {
				if anyOrder(x, seen) {
					return true
				}
				break
			}
			g := x.Call.StaticCallee()
			if g == nil || g.Pkg == nil {
				break
			}
			if path := g.Pkg.Pkg.Path(); path == "sort" || path == ctyPath && g.Name() == "SetVal" {
				return true
			}
		}
	}
	return false
}
