package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "every operation on a configuration value or type that is only defined for known, non-null values or for certain types must be preceded, on every path, by conditions, conversions or constructions establishing that; results of failed conversions must not be used; collections are only built from at least one element of one type", runC05)
}

// need is what an operation requires of its operand.
type need struct {
	flags uint16
	mask  uint16
}

var valueNeeds = map[string]need{
	"AsString":        {fKnown | fNonnull, tString},
	"AsBigFloat":      {fKnown | fNonnull, tNumber},
	"True":            {fKnown | fNonnull, tBool},
	"False":           {fKnown | fNonnull, tBool},
	"ElementIterator": {fKnown | fNonnull, tIter},
	"ForEachElement":  {fKnown | fNonnull, tIter},
	"AsValueSlice":    {fKnown | fNonnull, tIter},
	"AsValueMap":      {fKnown | fNonnull, tIter},
	"AsValueSet":      {fKnown | fNonnull, tSet},
	"Length":          {fNonnull, tColl | tTuple | tDyn},
	"HasElement":      {fNonnull, tSet | tDyn},
	"HasIndex":        {fNonnull, tList | tMap | tTuple | tDyn},
	"Index":           {fNonnull, tList | tMap | tTuple | tDyn},
	"GetAttr":         {fNonnull, tObject | tDyn},
	"Add":             {fNonnull, tNumber | tDyn}, "Subtract": {fNonnull, tNumber | tDyn}, "Multiply": {fNonnull, tNumber | tDyn}, "Divide": {fNonnull, tNumber | tDyn}, "Modulo": {fNonnull, tNumber | tDyn},
	"Negate": {fNonnull, tNumber | tDyn}, "Absolute": {fNonnull, tNumber | tDyn},
	"LessThan": {fNonnull, tNumber | tDyn}, "GreaterThan": {fNonnull, tNumber | tDyn}, "LessThanOrEqualTo": {fNonnull, tNumber | tDyn}, "GreaterThanOrEqualTo": {fNonnull, tNumber | tDyn},
	"Not": {fNonnull, tBool | tDyn}, "And": {fNonnull, tBool | tDyn}, "Or": {fNonnull, tBool | tDyn},
	"EncapsulatedValue": {fKnown | fNonnull, tCapsule},
}

var typeNeeds = map[string]uint16{
	"ElementType": tColl, "AttributeType": tObject, "AttributeTypes": tObject, "HasAttribute": tObject,
	"TupleElementType": tTuple, "TupleElementTypes": tTuple, "Length": tTuple, "EncapsulatedType": tCapsule,
}

// Panics about the kind of value given to an operation that says so.
var c05Panics = []struct{ fn, why string }{
	{"hclwrite.appendTokensForValue", "documented: values to be written must be wholly known and of a type the language can express"},
	{"(*hcl/hclsyntax.TemplateJoinExpr).Value", "its operand is always a for expression producing a tuple, which never gives null or another type"},
	{"hcl.Index", "the enclosing case has already restricted the type"},
	{"ext/typeexpr.TypeString", "documented: capsule types have no text form; the remaining cases are exhaustive"},
	{"(*hcldec.BlockMapSpec).decode", "documented restriction on the specification, not on values"},
}

// Collections whose elements are of one type for reasons beyond the function.
var c05Homogeneous = []struct{ fn, why string }{
	{"(*hcl/hclsyntax.SplatExpr).Value", "the elements of one list, put through one expression, without errors"},
	{"(*hcldec.BlockMapSpec).decode", "the nested specification has no dynamic part, so all results have its implied type"},
}

// Results of failed conversions that are kept but provably not used.
var c05Failed = []struct{ fn, why string }{
	{"(*hcl/hclsyntax.FunctionCallExpr).Value", "the arguments are abandoned when any error was found"},
}

func typeNames(m uint16) string {
	names := []string{"string", "number", "bool", "dynamic", "list", "set", "map", "tuple", "object", "capsule"}
	if m&tTypes == tTypes {
		return "any type"
	}
	var out []string
	for i, n := range names {
		if m&(1<<uint(i)) != 0 {
			out = append(out, n)
		}
	}
	return strings.Join(out, " or ")
}

func runC05(c *Ctx) {
	fs := c.Facts()
	for _, f := range c.AllFuncs() {
		if isFuzz(c.PkgOf(f)) {
			continue
		}
		if fs.exempt(f) {
			c.Exception("panics inside function implementations are turned into errors by the function library: " + c.FuncName(f))
			continue
		}
		a := fs.done[f]
		if a == nil {
			continue
		}
		a.walk(func(st *fstate, in ssa.Instruction) {
			switch in := in.(type) {
			case ssa.CallInstruction:
				c.partialOp(a, st, in)
				c.collection(a, st, in)
				c.failedConversion(a, st, in)
			case *ssa.Panic:
				c.valuePanic(a, st, in)
			}
		})
	}
	c.Floor("partial operations", 40)
	c.Floor("collections built", 4)
	c.Floor("conversions", 6)
	c.Assume("values come from the configuration value library and behave as it documents; functions supplied by the caller do not panic")
}

func (c *Ctx) partialOp(a *ffunc, st *fstate, in ssa.CallInstruction) {
	cc := in.Common()
	g := cc.StaticCallee()
	if g == nil {
		return
	}
	fn := c.FuncName(a.f)
	if isCtyMethod(cc, "Value") {
		n, ok := valueNeeds[g.Name()]
		if !ok && g.Name() != "LengthInt" {
			return
		}
		x := a.get(st, cc.Args[0])
		if g.Name() == "LengthInt" {
			// the length of a tuple or object is part of its type
			if x.mask&^(tTuple|tObject) == 0 {
				n = need{0, tTuple | tObject}
			} else {
				n = need{fKnown | fNonnull, tColl | tTuple | tObject}
			}
		}
		c.Count("partial operations", 1)
		c.Obligation("%s: %s needs %s", fn, g.Name(), needText(n))
		c.lacking(fn, g.Name(), x, n, in)
		switch g.Name() {
		case "HasIndex":
			k := a.get(st, cc.Args[1])
			c.lacking(fn, "key of HasIndex", k, need{fNonnull, tAll}, in)
		case "Index":
			if !c.guarded(a, st, "HasIndex", cc.Args[0], cc.Args[1]) {
				c.Report("index", fn+" Index", in, "an element is read without having established that it exists")
			}
		case "GetAttr":
			if x.mask&^tDyn != 0 && !c.guarded(a, st, "HasAttribute", cc.Args[0], cc.Args[1]) {
				c.Report("index", fn+" GetAttr", in, "an attribute is read without having established that it exists")
			}
		}
		return
	}
	if isCtyMethod(cc, "Type") {
		m, ok := typeNeeds[g.Name()]
		if !ok {
			return
		}
		c.Count("partial operations", 1)
		c.Obligation("%s: %s needs %s", fn, g.Name(), typeNames(m))
		x := a.get(st, cc.Args[0])
		if g.Name() == "HasAttribute" || x.mask&^m == 0 {
			if g.Name() == "AttributeType" && !c.guarded(a, st, "HasAttribute", cc.Args[0], cc.Args[1]) {
				c.Report("index", fn+" AttributeType", in, "the type of an attribute is taken without having established that it exists")
			}
			if g.Name() != "HasAttribute" || x.mask&^m == 0 {
				return
			}
		}
		c.Report("type", fn+" "+g.Name(), in, fmt.Sprintf("%s is only defined for %s types, but here the type can be %s", g.Name(), typeNames(m), typeNames(x.mask)))
	}
}

func needText(n need) string {
	var out []string
	if n.flags&fKnown != 0 {
		out = append(out, "known")
	}
	if n.flags&fNonnull != 0 {
		out = append(out, "not null")
	}
	return strings.Join(append(out, typeNames(n.mask)), ", ")
}

func (c *Ctx) lacking(fn, op string, x fact, n need, in ssa.CallInstruction) {
	if n.flags&fKnown != 0 && !x.has(fKnown) {
		c.Report("unknown", fn+" "+op, in, op+" is applied to a value that can be unknown")
	}
	if n.flags&fNonnull != 0 && !x.has(fNonnull) {
		c.Report("null", fn+" "+op, in, op+" is applied to a value that can be null")
	}
	if x.mask&^n.mask != 0 {
		c.Report("type", fn+" "+op, in, fmt.Sprintf("%s is only defined for %s, but here the value can be %s", op, typeNames(n.mask), typeNames(x.mask)))
	}
}

// guarded: the state contains the positive outcome of a test with the same
// operands.
func (c *Ctx) guarded(a *ffunc, st *fstate, test string, recv, arg ssa.Value) bool {
	for root := range st.m {
		call, ok := root.(*ssa.Call)
		if !ok {
			continue
		}
		if x, ok := st.at(fkey{root, ""}); !ok || !x.has(fTrue) {
			continue
		}
		g := call.Call.StaticCallee()
		if g == nil || g.Name() != test || len(call.Call.Args) != 2 {
			continue
		}
		if a.valKey(st, call.Call.Args[0]) == a.valKey(st, recv) && (call.Call.Args[1] == arg || a.valKey(st, call.Call.Args[1]) == a.valKey(st, arg) || sameConst(call.Call.Args[1], arg)) {
			return true
		}
	}
	return false
}

func sameConst(x, y ssa.Value) bool {
	a, ok1 := x.(*ssa.Const)
	b, ok2 := y.(*ssa.Const)
	return ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
}

// collection: lists, sets and maps can only be built from one or more elements
// of one type.
func (c *Ctx) collection(a *ffunc, st *fstate, in ssa.CallInstruction) {
	cc := in.Common()
	g := cc.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != ctyPath || g.Signature.Recv() != nil {
		return
	}
	switch g.Name() {
	case "ListVal", "SetVal", "MapVal":
	default:
		return
	}
	c.Count("collections built", 1)
	fn := c.FuncName(a.f)
	key := fn + " " + g.Name()
	c.Obligation("%s: %s of at least one element, of one type", fn, g.Name())
	if a.get(st, cc.Args[0]).minlen == 0 && !c.builtNonEmpty(a, st, cc.Args[0]) {
		c.Report("empty", key, in, g.Name()+" can be given no element at all")
	}
	if c.unified(a, st) {
		return
	}
	for _, e := range c05Homogeneous {
		if c.Within(a.f, e.fn) {
			c.Exception(e.fn + ": " + e.why)
			return
		}
	}
	c.Report("mixed", key, in, g.Name()+" can be given elements of different types")
}

// builtNonEmpty: the collection is filled by a loop over something that is not
// empty.
func (c *Ctx) builtNonEmpty(a *ffunc, st *fstate, v ssa.Value) bool {
	mm, ok := strip(v).(*ssa.MakeMap)
	var size ssa.Value
	if ok {
		size = mm.Reserve
	} else if ms, ok := strip(v).(*ssa.MakeSlice); ok {
		size = ms.Cap
	} else if ph, ok := strip(v).(*ssa.Phi); ok {
		// vals = append(vals, ...) in a loop
		for _, e := range ph.Edges {
			if ms, ok := e.(*ssa.MakeSlice); ok {
				size = ms.Cap
			}
		}
	}
	if size == nil {
		return false
	}
	if s, k := lenOf(size); s != nil && k >= 0 {
		if a.get(st, s).minlen > 0 {
			return true
		}
		// a recursive helper works on the non-empty parts of what it was given
		for _, e := range c05Homogeneous {
			if a.f.Parent() != nil && c.Within(a.f, e.fn) {
				return true
			}
		}
	}
	return false
}

// unified: on the way here a common type was found for the elements.
func (c *Ctx) unified(a *ffunc, st *fstate) bool {
	for _, b := range a.f.Blocks {
		if a.in[b] == nil {
			continue
		}
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != ctyPath+"/convert" || g.Name() != "Unify" && g.Name() != "UnifyUnsafe" {
				continue
			}
			ety := extractOf(call, 0)
			if ety == nil {
				continue
			}
			// the outcome was compared with "no type"
			for root := range st.m {
				cmp, ok := root.(*ssa.BinOp)
				if !ok || !isCtyType(cmp.X.Type()) {
					continue
				}
				x, _ := st.at(fkey{root, ""})
				if (cmp.X == ssa.Value(ety) || cmp.Y == ssa.Value(ety)) && (x.has(fFalse) || x.has(fTrue)) {
					if (cmp.Op.String() == "==") == x.has(fFalse) {
						return true
					}
				}
			}
		}
	}
	return false
}

// failedConversion: what a conversion or function call gives together with an
// error is not a value.
func (c *Ctx) failedConversion(a *ffunc, st *fstate, in ssa.CallInstruction) {
	call, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	res := call.Call.Signature().Results()
	if res.Len() != 2 || !isNamed(res.At(0).Type(), ctyPath, "Value") || !isErrorType(res.At(1).Type()) {
		return
	}
	c.Count("conversions", 1)
	fn := c.FuncName(a.f)
	val, err := extractOf(call, 0), extractOf(call, 1)
	if val == nil {
		return
	}
	what := "conversion"
	if g := call.Call.StaticCallee(); g != nil {
		what = g.Name()
	}
	c.Obligation("%s: result of %s only used without error", fn, what)
	if err == nil {
		c.Report("failed", fn+" "+what, in, "the value is used although the error is ignored")
		return
	}
	bad := func(u ssa.Instruction) {
		for _, e := range c05Failed {
			if c.Within(a.f, e.fn) {
				c.Exception(e.fn + ": " + e.why)
				return
			}
		}
		c.Report("failed", fn+" "+what, u, "the value is used where the operation giving it can have failed")
	}
	a.walk(func(s *fstate, u ssa.Instruction) {
		uses := false
		for _, op := range u.Operands(nil) {
			if *op == ssa.Value(val) {
				uses = true
			}
		}
		if !uses {
			return
		}
		switch x := u.(type) {
		case *ssa.DebugRef:
			return
		case *ssa.Phi:
			for i, e := range x.Edges {
				if e != ssa.Value(val) {
					continue
				}
				p := x.Block().Preds[i]
				if es := a.edge[[2]*ssa.BasicBlock{p, x.Block()}]; len(es) > 0 && es[0] != nil && !a.get(es[0], err).has(fNil) {
					if liveAfter(x, val) {
						bad(x)
					}
				}
			}
			return
		case *ssa.Return:
			// handed on together with the error
			for _, r := range x.Results {
				if r == ssa.Value(err) {
					return
				}
			}
		case ssa.CallInstruction:
			if isCtyMethod(x.Common(), "Value", "IsNull", "IsKnown") {
				return
			}
		}
		if !a.get(s, err).has(fNil) {
			bad(u)
		}
	})
}

// liveAfter: is the joined value used for more than being joined again?
func liveAfter(ph *ssa.Phi, except ssa.Value) bool {
	seen := map[*ssa.Phi]bool{}
	var walk func(p *ssa.Phi) bool
	walk = func(p *ssa.Phi) bool {
		if seen[p] {
			return false
		}
		seen[p] = true
		for _, r := range *p.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if walk(r) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return walk(ph)
}

// valuePanic: explicit panics reached depending on what a value is.
func (c *Ctx) valuePanic(a *ffunc, st *fstate, p *ssa.Panic) {
	if !valueDependent(p.Block(), map[*ssa.BasicBlock]bool{}, 0) {
		return
	}
	c.Count("panics about values", 1)
	fn := c.FuncName(a.f)
	for _, e := range c05Panics {
		if c.Within(a.f, e.fn) {
			c.Exception(e.fn + ": " + e.why)
			return
		}
	}
	c.Report("panic", fn, p, "panics depending on the value it is given")
}

// valueDependent: does a branch on a property of a configuration value lead
// directly here?
func valueDependent(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, depth int) bool {
	if seen[b] || depth > 6 {
		return false
	}
	seen[b] = true
	for _, p := range b.Preds {
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if aboutValue(iff.Cond, 0) {
				return true
			}
			continue
		}
		if valueDependent(p, seen, depth+1) {
			return true
		}
	}
	return false
}

func aboutValue(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return aboutValue(x.X, depth+1)
	case *ssa.BinOp:
		return isCtyType(x.X.Type()) || aboutValue(x.X, depth+1) || aboutValue(x.Y, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if aboutValue(e, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		for _, arg := range x.Call.Args {
			if isNamed(arg.Type(), ctyPath, "Value") || isCtyType(arg.Type()) {
				return true
			}
		}
	}
	return false
}
