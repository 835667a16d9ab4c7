package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "every read of a fixed position of a sequence or text (a constant index, an index counted from the end, a constant or end-relative bound of a part) must be preceded, on every path, by conditions or constructions establishing that the sequence is long enough", runC24)
}

func runC24(c *Ctx) {
	fs := c.Facts()
	for _, f := range c.Funcs {
		a := fs.done[f]
		if a == nil || fs.exempt(f) || c.generated(f) {
			continue
		}
		a.walk(func(st *fstate, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				c24index(c, a, st, in, x.X, x.Index)
			case *ssa.Index:
				c24index(c, a, st, in, x.X, x.Index)
			case *ssa.Lookup:
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					c24index(c, a, st, in, x.X, x.Index)
				}
			case *ssa.Slice:
				c24slice(c, a, st, x)
			}
		})
	}
	c.Floor("fixed positions", 40)
}

// fixedLen: arrays have the length of their type.
func fixedLen(t types.Type) bool {
	_, ok := derefType(t).Underlying().(*types.Array)
	return ok
}

// wants is how long the sequence must be for a position, if that is fixed.
func wants(a *ffunc, st *fstate, seq, idx ssa.Value, read bool) (int, bool) {
	one := 0
	if read {
		one = 1
	}
	if n, ok := constInt(idx); ok {
		return n + one, true
	}
	if s, k := lenOf(idx); s != nil && a.sameSeq(st, s, seq) && k <= 0 {
		return -k, true
	}
	return 0, false
}

func c24index(c *Ctx, a *ffunc, st *fstate, in ssa.Instruction, seq, idx ssa.Value) {
	if fixedLen(seq.Type()) {
		return
	}
	n, ok := wants(a, st, seq, idx, true)
	if !ok {
		return
	}
	c24need(c, a, st, in, seq, n, fmt.Sprintf("position %s", describeIndex(idx)))
}

func describeIndex(idx ssa.Value) string {
	if n, ok := constInt(idx); ok {
		return fmt.Sprint(n)
	}
	if _, k := lenOf(idx); k != 0 {
		return fmt.Sprintf("%d from the end", -k)
	}
	return "len"
}

func c24slice(c *Ctx, a *ffunc, st *fstate, x *ssa.Slice) {
	if fixedLen(x.X.Type()) {
		return
	}
	for _, bound := range []ssa.Value{x.Low, x.High} {
		if bound == nil {
			continue
		}
		n, ok := wants(a, st, x.X, bound, false)
		if !ok || n == 0 {
			continue
		}
		c24need(c, a, st, x, x.X, n, "bound "+describeIndex(bound))
	}
}

func c24need(c *Ctx, a *ffunc, st *fstate, in ssa.Instruction, seq ssa.Value, n int, what string) {
	c.Count("fixed positions", 1)
	c.Obligation("%s %s needs length %d", c.PosString(in.Pos()), what, n)
	x := a.get(st, seq)
	if int(x.minlen) >= n || c24constructed(c, a, st, seq, n) || c24labels(c, a, seq, n) || c24parallel(a, st, seq, n) || a.pathwise(in, func(st *fstate) bool { return int(a.get(st, seq).minlen) >= n }) {
		return
	}
	key := c.FuncName(a.f) + " " + what
	for fn, why := range c24Exceptions {
		if c.Within(a.f, fn) {
			c.Exception(key + ": " + why)
			return
		}
	}
	if isNamedElem(seq.Type(), ctyPath+"/function", "Parameter") {
		c.Exception(key + ": operators are functions of the standard library with one or two parameters")
		return
	}
	c.Report("short", fmt.Sprintf("%s %s of %s", c.FuncName(a.f), what, c.TypeName(seq.Type())), in,
		fmt.Sprintf("%s is read, but the sequence is only known to have %d elements here", what, x.minlen))
}

var c24Exceptions = map[string]string{
	"(*cmd/hclspecsuite.Runner).runTest":         "test files are collected by their two-character suffix",
	"(*hcl/hclsyntax.peeker).PopIncludeNewlines": "the balance of the newline stack is decided by C03",
	"(*hcl/hclsyntax.peeker).includingNewlines":  "the balance of the newline stack is decided by C03",
	"(*hcl/hclsyntax.TemplateExpr).StartRange":   "a template without content is given an empty part by the parser",
	"(*hcl/hclsyntax.variablesWalker).Exit":      "every scope left was entered: walking calls Enter and Exit in pairs",
	"hclwrite.formatCells":                       "chains are made of lines with an assign cell",
}

func isNamedElem(t types.Type, pkg, name string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), pkg, name)
}

// c24constructed: the sequence is a field that every construction of the
// struct fills with enough elements.
func c24constructed(c *Ctx, a *ffunc, st *fstate, seq ssa.Value, n int) bool {
	var t types.Type
	var idx int
	if u, ok := isLoad(seq); ok {
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t, idx = derefType(fa.X.Type()), fa.Field
	} else if fl, ok := seq.(*ssa.Field); ok {
		t, idx = fl.X.Type(), fl.Field
	} else {
		return false
	}
	named, ok := types.Unalias(t).(*types.Named)
	if !ok || named.Obj().Pkg() == nil || !c.isRepoPath(named.Obj().Pkg().Path()) || a.fs.reflected[named] {
		return false
	}
	fs := a.fs
	made := 0
	for _, f := range c.AllFuncs() {
		b := fs.done[f]
		if b == nil {
			continue
		}
		good := true
		filled := map[ssa.Value]bool{}
		var allocs []*ssa.Alloc
		b.walk(func(st *fstate, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Alloc:
				if types.Identical(derefType(in.Type()), t) {
					allocs = append(allocs, in)
				}
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.Field == idx && types.Identical(derefType(fa.X.Type()), t) {
					if int(b.get(st, in.Val).minlen) < n && !b.pathwise(in, func(st *fstate) bool { return int(b.get(st, in.Val).minlen) >= n }) {
						good = false
					}
					filled[fa.X] = true
					made++
				}
				if types.Identical(in.Val.Type(), t) {
					filled[in.Addr] = true // a copy
				}
			}
		})
		for _, al := range allocs {
			if !filled[al] {
				good = false
			}
		}
		if !good {
			return false
		}
	}
	return made > 0
}

// c24labels: blocks read with a schema have the labels the schema names.
func c24labels(c *Ctx, a *ffunc, seq ssa.Value, n int) bool {
	u, ok := isLoad(seq)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !isPtrTo(fa.X.Type(), hclPath, "Block") {
		return false
	}
	if name := fieldName(fa); name != "Block.Labels" && name != "Block.LabelRanges" {
		return false
	}
	// a schema of this package asks for that many labels
	pkg := c.PkgOf(a.f)
	for _, f := range c.AllFuncs() {
		b := a.fs.done[f]
		if b == nil || c.PkgOf(f) != pkg {
			continue
		}
		found := false
		b.walk(func(st *fstate, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "BlockHeaderSchema.LabelNames" && int(b.get(st, s.Val).minlen) >= n {
					found = true
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}

// c24parallel: the sequence grows together with another one known to be long
// enough.
func c24parallel(a *ffunc, st *fstate, seq ssa.Value, n int) bool {
	ph, ok := seq.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, in := range ph.Block().Instrs {
		other, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if other != ph && int(a.get(st, other).minlen) >= n && lockstep(ph, other, ph, other, 0) {
			return true
		}
	}
	return false
}

// lockstep: do both sequences have the same length whichever way they came?
func lockstep(x, y ssa.Value, px, py *ssa.Phi, depth int) bool {
	if depth > 6 {
		return false
	}
	if x == ssa.Value(px) && y == ssa.Value(py) && depth > 0 {
		return true
	}
	switch x := x.(type) {
	case *ssa.Phi:
		y, ok := y.(*ssa.Phi)
		if !ok || x.Block() != y.Block() {
			return false
		}
		for i := range x.Edges {
			if !lockstep(x.Edges[i], y.Edges[i], px, py, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Const:
		c, ok := y.(*ssa.Const)
		return ok && x.Value == nil && c.Value == nil
	case *ssa.Call:
		y, ok := y.(*ssa.Call)
		if !ok || x.Block() != y.Block() {
			return false
		}
		a, ok1 := isBuiltin(x, "append")
		b, ok2 := isBuiltin(y, "append")
		if !ok1 || !ok2 || argCount(a) < 0 || argCount(a) != argCount(b) {
			return false
		}
		return lockstep(a.Call.Args[0], b.Call.Args[0], px, py, depth+1)
	}
	return false
}

// argCount is the number of elements a call of append lists, or -1.
func argCount(c *ssa.Call) int {
	s, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return -1
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return -1
	}
	at, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok {
		return -1
	}
	return int(at.Len())
}
