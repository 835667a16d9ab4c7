package main

import (
	"go/constant"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Package-level literals.
//
// Tables are package variables that are given a literal before anything runs.
// A literal is read from the instructions that build it in the package's
// initialisation.

type literal struct {
	con    constant.Value
	global *ssa.Global
	fn     *ssa.Function
	elems  map[int]*literal
	fields map[string]*literal
	keys   []*literal // of a map
	vals   []*literal
	isMap  bool
}

// literalOf: what a package variable is initialised with, if that happens once.
func (c *Ctx) literalOf(g *ssa.Global) *literal {
	var val ssa.Value
	n := 0
	for _, f := range c.initsOf(g.Pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					val = st.Val
					n++
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return readLiteral(val, 0)
}

func (c *Ctx) initsOf(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && f.Name() == "init" {
			out = append(out, f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && g.Pkg == pkg && len(g.Blocks) > 0 {
							out = append(out, g)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func readLiteral(v ssa.Value, depth int) *literal {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return &literal{con: x.Value}
	case *ssa.Function:
		return &literal{fn: x}
	case *ssa.Global:
		return &literal{global: x}
	case *ssa.MakeInterface:
		return readLiteral(x.X, depth)
	case *ssa.ChangeType:
		return readLiteral(x.X, depth)
	case *ssa.Convert:
		return readLiteral(x.X, depth)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return &literal{global: g}
		}
		return readLiteral(x.X, depth)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return readLiteral(x.X, depth)
		}
	case *ssa.MakeMap:
		out := &literal{isMap: true}
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(x) {
				out.keys = append(out.keys, readLiteral(mu.Key, depth+1))
				out.vals = append(out.vals, readLiteral(mu.Value, depth+1))
			}
		}
		return out
	case *ssa.Alloc:
		out := &literal{elems: map[int]*literal{}, fields: map[string]*literal{}}
		for _, r := range *x.Referrers() {
			switch a := r.(type) {
			case *ssa.IndexAddr:
				if i, ok := constInt(a.Index); ok {
					out.elems[i] = readPlace(a, depth+1)
				}
			case *ssa.FieldAddr:
				if l := readPlace(a, depth+1); l != nil {
					out.fields[fieldOf(a.X.Type(), a.Field)] = l
				}
			case *ssa.Store:
				if a.Addr == ssa.Value(x) {
					return readLiteral(a.Val, depth+1)
				}
			}
		}
		return out
	}
	return nil
}

// readPlace: what is stored at an address, or in its parts.
func readPlace(addr ssa.Value, depth int) *literal {
	out := &literal{fields: map[string]*literal{}, elems: map[int]*literal{}}
	refs := addr.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		switch a := r.(type) {
		case *ssa.Store:
			if a.Addr == addr {
				return readLiteral(a.Val, depth)
			}
		case *ssa.FieldAddr:
			if l := readPlace(a, depth+1); l != nil {
				out.fields[fieldOf(a.X.Type(), a.Field)] = l
			}
		case *ssa.IndexAddr:
			if i, ok := constInt(a.Index); ok {
				out.elems[i] = readPlace(a, depth+1)
			}
		}
	}
	if len(out.fields) == 0 && len(out.elems) == 0 {
		return nil
	}
	return out
}

// A caseTest is a comparison of something with a constant number.
func caseTest(cond ssa.Value) (k int, of ssa.Value, ok bool) {
	bo, isBin := cond.(*ssa.BinOp)
	if !isBin || bo.Op != token.EQL {
		return 0, nil, false
	}
	if k, ok := constInt(bo.Y); ok {
		return k, bo.X, true
	}
	if k, ok := constInt(bo.X); ok {
		return k, bo.Y, true
	}
	return 0, nil, false
}

// casesAt: the constants that something was found equal to on every way to the
// block: for each subject, the smallest such set.
func casesAt(b *ssa.BasicBlock) map[string][]int {
	out := map[string][]int{}
	for d := b; d != nil; d = d.Idom() {
		of := ""
		var here []int
		ok := len(d.Preds) > 0
		for _, p := range d.Preds {
			iff, isIf := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !isIf || p.Succs[0] == p.Succs[1] {
				ok = false
				break
			}
			k, x, isEq := caseTest(iff.Cond)
			if !isEq || p.Succs[0] != d || of != "" && subjectOf(x) != of {
				ok = false
				break
			}
			of = subjectOf(x)
			here = append(here, k)
		}
		if !ok {
			continue
		}
		if had, done := out[of]; done {
			var both []int
			for _, k := range had {
				for _, h := range here {
					if k == h {
						both = append(both, k)
					}
				}
			}
			here = both
		}
		sort.Ints(here)
		out[of] = here
	}
	for _, d := range dominatingTests(b) {
		k, x, isEq := caseTest(d.cond)
		if !isEq || d.yes {
			continue
		}
		of := subjectOf(x)
		if had, ok := out[of]; ok {
			var left []int
			for _, h := range had {
				if h != k {
					left = append(left, h)
				}
			}
			out[of] = left
		}
	}
	return out
}

// subjectOf names what is compared, so that reading it twice gives one name.
func subjectOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + subjectOf(x.X)
		}
	case *ssa.FieldAddr:
		return subjectOf(x.X) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.Field:
		return "*" + subjectOf(x.X) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return subjectOf(x.X) + "[" + subjectOf(x.Index) + "]"
	case *ssa.Index:
		return "*" + subjectOf(x.X) + "[" + subjectOf(x.Index) + "]"
	case *ssa.Lookup:
		return "*" + subjectOf(x.X) + "[" + subjectOf(x.Index) + "]"
	case *ssa.Convert:
		return subjectOf(x.X)
	case *ssa.ChangeType:
		return subjectOf(x.X)
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.ExactString()
		}
		return "nil"
	}
	return v.Name()
}
