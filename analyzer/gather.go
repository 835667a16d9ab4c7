package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// combined: where bodies are put together in a list, or blocks made for the
// elements of a value, there is one for every element or an error is reported.
func combined(c *Ctx) {
	u := &unknowns{c: c, memo: map[flagIs]bool{}}
	for _, f := range c.Funcs {
		if c.generated(f) {
			continue
		}
		for _, l := range loopsOf(f) {
			what, at := over(l)
			if at == nil {
				continue
			}
			takes := map[*ssa.BasicBlock]bool{}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || !isAppend(call) || len(call.Call.Args) != 2 {
						continue
					}
					sl, ok := call.Type().Underlying().(*types.Slice)
					if !ok || !isNamed(sl.Elem(), hclPath, "Body") && !(what == "value" && isPtrTo(sl.Elem(), hclPath, "Block")) {
						continue
					}
					takes[b] = true
					for _, v := range append(elements(call.Call.Args[1]), call.Call.Args[1]) {
						if onlySome(v) {
							c.Report("combined", c.FuncName(f)+" some", call, fmt.Sprintf("%s takes only some of the bodies of an element", c.FuncName(f)))
						}
					}
				}
			}
			if len(takes) == 0 {
				continue
			}
			c.Count("lists of bodies", 1)
			c.Obligation("%s: a body or block for each element of %s", c.FuncName(f), what)
			if u.skips(f, l, l.header, takes) {
				c.Report("combined", c.FuncName(f), At(loopPos(l)), fmt.Sprintf("%s leaves out an element of %s without an error", c.FuncName(f), what))
			}
		}
	}
}

// skips: the next round of a loop is reached from a block without passing any
// of those given and without an error, though there is something to take.
func (u *unknowns) skips(f *ssa.Function, l *loop, from *ssa.BasicBlock, takes map[*ssa.BasicBlock]bool) bool {
	// a loop inside takes all there is, which can be nothing
	via := map[*ssa.BasicBlock]bool{}
	for b := range takes {
		via[b] = true
	}
	for _, in := range loopsOf(f) {
		if in.header == l.header || !l.blocks[in.header] {
			continue
		}
		for b := range takes {
			if in.blocks[b] && !in.blocks[from] {
				via[in.header] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if !l.blocks[s] || via[s] {
				continue
			}
			if why := edgeTest(b, s); b != l.header && (missingOn(why) || u.foundError(why)) {
				continue
			}
			if s == l.header {
				return true
			}
			if !seen[s] && !u.fails(s) {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// missingOn: there is nothing to take.
func missingOn(ts []domTest) bool {
	for _, t := range ts {
		cmp, ok := t.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		if !t.yes {
			op = negated(op)
		}
		if op == token.EQL && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
			return true
		}
		n, isNum := constInt(cmp.Y)
		if seq, k := lenOf(cmp.X); seq == nil || k != 0 || !isNum {
			continue
		}
		if n == 0 && (op == token.EQL || op == token.LEQ) || n == 1 && op == token.LSS {
			return true
		}
	}
	return false
}

// onlySome: a fixed part of a list.
func onlySome(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if _, ok := constInt(ia.Index); ok {
				_, isSlice := ia.X.Type().Underlying().(*types.Slice)
				return isSlice
			}
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return x.Low != nil || x.High != nil
		}
	case *ssa.ChangeType:
		return onlySome(x.X)
	}
	return false
}

// foundError: an error was found.
func (u *unknowns) foundError(ts []domTest) bool {
	for _, t := range ts {
		if u.says(t.cond, t.yes, map[*ssa.BasicBlock]bool{}) {
			return true
		}
		cmp, ok := t.cond.(*ssa.BinOp)
		if ok && (cmp.Op == token.NEQ) == t.yes && isErr(cmp.X.Type()) && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
			return true
		}
	}
	return false
}

// decodedValues: a value decoded in a round of a loop that gathers such values
// is among those gathered, or an error is reported.
func decodedValues(c *Ctx, in func(pkg string) bool) {
	u := &unknowns{c: c, memo: map[flagIs]bool{}}
	for _, f := range c.Funcs {
		if c.generated(f) || !in(c.PkgOf(f)) {
			continue
		}
		for _, l := range loopsOf(f) {
			for b := range l.blocks {
				for _, at := range b.Instrs {
					call, ok := at.(*ssa.Call)
					if !ok || len(resultDiagIndexes(call.Call.Signature())) == 0 {
						continue
					}
					var val ssa.Value
					for _, r := range *call.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && isNamed(ex.Type(), ctyPath, "Value") {
							val = ex
						}
					}
					if val == nil {
						continue
					}
					takes := map[*ssa.BasicBlock]bool{}
					putIn(val, l, takes, map[ssa.Value]bool{})
					if len(takes) == 0 {
						continue
					}
					c.Count("values gathered", 1)
					c.Obligation("%s: each value of %s is kept", c.FuncName(f), c.calleeName(call.Common()))
					if !takes[b] && u.skips(f, l, b, takes) {
						c.Report("gathered", fmt.Sprintf("%s %s", c.FuncName(f), c.calleeName(call.Common())), call, fmt.Sprintf("%s leaves a value out of its result without an error", c.FuncName(f)))
					}
				}
			}
		}
	}
}

// putIn: the blocks of a loop where a value is put into a list or map.
func putIn(v ssa.Value, l *loop, out map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		if !l.blocks[r.Block()] {
			continue
		}
		switch x := r.(type) {
		case *ssa.Phi:
			if x.Block() != l.header {
				putIn(x, l, out, seen)
			}
		case *ssa.MakeInterface:
			putIn(x, l, out, seen)
		case *ssa.ChangeInterface:
			putIn(x, l, out, seen)
		case *ssa.MapUpdate:
			if x.Value == v {
				out[x.Block()] = true
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if _, ok := x.Addr.(*ssa.IndexAddr); ok {
				out[x.Block()] = true
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok {
						putIn(ld, l, out, seen)
					}
				}
			}
		}
	}
}

// scopeHandedOn: what is evaluated or decoded with a scope at hand gets it.
func scopeHandedOn(c *Ctx) {
	isScope := func(t types.Type) bool { return isPtrTo(t, hclPath, "EvalContext") }
	for _, f := range c.Funcs {
		if c.generated(f) || len(f.Blocks) == 0 {
			continue
		}
		has := false
		for g := f; g != nil; g = g.Parent() {
			for i, p := range g.Params {
				if isScope(p.Type()) && !(i == 0 && g.Signature.Recv() != nil) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range call.Common().Args {
					if !isScope(a.Type()) {
						continue
					}
					c.Count("scopes handed on", 1)
					c.Obligation("%s: the scope is handed to %s", c.FuncName(f), c.calleeName(call.Common()))
					if isNilConst(a) {
						c.Report("scope", fmt.Sprintf("%s %s", c.FuncName(f), c.calleeName(call.Common())), in, fmt.Sprintf("%s has a scope but evaluates something without it, so the variables in it are not found", c.FuncName(f)))
					}
				}
			}
		}
	}
}
