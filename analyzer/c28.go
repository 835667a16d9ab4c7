package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C28: placeholders stand for unknown inputs or for errors.
//
// Forwards: a function that hands out an unknown value has, on every way
// there, found something not known or met an error. Backwards: where something
// is found not to be known, what follows is not a definite value.

func init() {
	register("C28", "placeholders stand for unknown inputs or for errors", runC28)
}

type unknowns struct {
	c      *Ctx
	memo   map[flagIs]bool
	bodies map[string]bool
	making bool // what stands for a missing result is looked at
}

func runC28(c *Ctx) {
	u := &unknowns{c: c, memo: map[flagIs]bool{}}
	u.findBodies()
	for _, f := range c.Funcs {
		if f.Synthetic != "" || c.generated(f) || len(f.Blocks) == 0 {
			continue
		}
		u.given(f)
		u.noticed(f)
	}
	c.Floor("placeholders", 25)
	c.Floor("tests for unknown", 15)
}

// --- placeholders

// isPlaceholder: a value that is not known.
func isPlaceholder(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && x.Op == token.MUL && g.Pkg.Pkg.Path() == ctyPath && g.Name() == "DynamicVal"
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == ctyPath && g.Name() == "UnknownVal" && g.Signature.Recv() == nil
	}
	return false
}

// reports: the results of a function that tell of failures.
func (u *unknowns) reports(f *ssa.Function) []int {
	var out []int
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isNamed(t, hclPath, "Diagnostics") || types.Identical(t, types.Universe.Lookup("error").Type()) {
			out = append(out, i)
		}
	}
	return out
}

// given: placeholders are returned for a reason.
func (u *unknowns) given(f *ssa.Function) {
	if len(u.reports(f)) == 0 {
		return
	}
	name := u.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				for _, v := range x.Results {
					if isNamed(v.Type(), ctyPath, "Value") {
						u.givenAt(name, v, x, b, nil, map[ssa.Value]bool{})
					}
				}
			case *ssa.MapUpdate:
				if isNamed(x.Value.Type(), ctyPath, "Value") && !toScope(x.Map) {
					u.givenAt(name, x.Value, x, b, nil, map[ssa.Value]bool{})
				}
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok && isNamed(x.Val.Type(), ctyPath, "Value") {
					u.givenAt(name, x.Val, x, b, nil, map[ssa.Value]bool{})
				}
			}
		}
	}
}

// toScope: a map is for the variables of an evaluation.
func toScope(m ssa.Value) bool {
	isVars := func(addr ssa.Value) bool {
		fa, ok := addr.(*ssa.FieldAddr)
		return ok && isNamed(derefType(fa.X.Type()), hclPath, "EvalContext")
	}
	if ld, ok := isLoad(m); ok && isVars(ld.X) {
		return true
	}
	if m.Referrers() == nil {
		return false
	}
	for _, r := range *m.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == m && isVars(st.Addr) {
			return true
		}
	}
	return false
}

func (u *unknowns) givenAt(name string, v ssa.Value, at ssa.Instruction, b, to *ssa.BasicBlock, seen map[ssa.Value]bool) {
	if phi, ok := v.(*ssa.Phi); ok {
		if seen[v] {
			return
		}
		seen[v] = true
		for k, ed := range phi.Edges {
			u.givenAt(name, ed, at, phi.Block().Preds[k], phi.Block(), seen)
		}
		return
	}
	if !isPlaceholder(v) {
		return
	}
	u.c.Count("placeholders", 1)
	u.c.Obligation("%s: a placeholder", name)
	if !u.reason(b, to, map[*ssa.BasicBlock]bool{}) && !u.handed(at) {
		u.c.Report("silent", name, at, fmt.Sprintf("%s can give an unknown value although nothing is unknown and no error is reported", name))
	}
}

// handed: the diagnostics returned are those of another operation that failed.
func (u *unknowns) handed(at ssa.Instruction) bool {
	ret, ok := at.(*ssa.Return)
	if !ok {
		return false
	}
	for _, r := range ret.Results {
		if types.Identical(r.Type(), types.Universe.Lookup("error").Type()) && !isNilConst(r) {
			return true
		}
	}
	return false
}

// reason: on every way to the end of a block (and on to the next one)
// something was found unknown or an error was met.
func (u *unknowns) reason(b, to *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if to != nil {
		for _, t := range edgeTest(b, to) {
			if u.says(t.cond, t.yes, seen) {
				return true
			}
		}
	}
	if seen[b] {
		return true
	}
	seen[b] = true
	if u.fails(b) {
		return true
	}
	if len(b.Preds) == 0 {
		return false
	}
	for _, p := range b.Preds {
		if !u.reason(p, b, seen) {
			return false
		}
	}
	return true
}

// says: a test decides that something is not known or that there was an error.
func (u *unknowns) says(cond ssa.Value, yes bool, seen map[*ssa.BasicBlock]bool) bool {
	for {
		n, ok := cond.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		cond, yes = n.X, !yes
	}
	switch x := cond.(type) {
	case *ssa.Call:
		if isCtyMethod(&x.Call, "Value", "IsKnown", "IsWhollyKnown") {
			return !yes
		}
		if isCtyMethod(&x.Call, "Type", "HasDynamicTypes") {
			return yes
		}
		if isCtyMethod(&x.Call, "Type", "Equals") {
			return yes && (isDynamicType(x.Call.Args[0]) || isDynamicType(x.Call.Args[1]))
		}
		if g := x.Call.StaticCallee(); g != nil {
			if g.Name() == "HasErrors" && g.Pkg != nil && g.Pkg.Pkg.Path() == hclPath {
				return yes
			}
			return u.onlyWhen(g, yes) && !u.onlyWhen(g, !yes)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		eq := (x.Op == token.EQL) == yes
		for _, o := range []ssa.Value{x.X, x.Y} {
			if isDynamicType(o) || isPlaceholder(o) {
				return eq
			}
		}
		if u.making && eq && (isNilConst(x.X) || isNilConst(x.Y)) && types.IsInterface(x.X.Type()) {
			return true
		}
		if types.Identical(x.X.Type(), types.Universe.Lookup("error").Type()) && (isNilConst(x.X) || isNilConst(x.Y)) {
			// elsewhere the error has to be reported
			return !eq && x.Parent().Pkg.Pkg.Name() == "main"
		}
	case *ssa.Phi:
		return u.flag(x, yes, seen)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && !yes {
			return u.unusable(ta)
		}
	}
	return false
}

// unusable: what is not of a type, nor of any other that was asked for before,
// is of a kind that is only made together with an error.
func (u *unknowns) unusable(ta *ssa.TypeAssert) bool {
	nt := namedOf(ta.X.Type())
	if nt == nil || nt.Obj().Pkg() == nil || !types.IsInterface(nt) {
		return false
	}
	asked := []types.Type{ta.AssertedType}
	for _, t := range dominatingTests(ta.Block()) {
		if ex, ok := t.cond.(*ssa.Extract); ok && !t.yes {
			if o, ok := ex.Tuple.(*ssa.TypeAssert); ok && o.X == ta.X {
				asked = append(asked, o.AssertedType)
			}
		}
	}
	left := 0
	for _, impl := range u.madeInto(nt) {
		is := false
		for _, t := range asked {
			if types.Identical(derefType(t), derefType(impl)) || types.IsInterface(t) && types.Implements(impl, t.Underlying().(*types.Interface)) {
				is = true
			}
		}
		if is {
			continue
		}
		left++
		if !u.onlyInError(derefType(impl)) {
			return false
		}
	}
	return left > 0
}

// madeInto: the types of which values are made into an interface.
func (u *unknowns) madeInto(nt *types.Named) []types.Type {
	seen := map[string]bool{}
	var out []types.Type
	for _, f := range u.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if ok && types.Identical(mi.Type(), nt) && !seen[mi.X.Type().String()] {
					seen[mi.X.Type().String()] = true
					out = append(out, mi.X.Type())
				}
			}
		}
	}
	return out
}

// onlyInError: a type of which values are made only where an error is.
func (u *unknowns) onlyInError(t types.Type) bool {
	u.making = true
	defer func() { u.making = false }()
	n := 0
	for _, f := range u.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !types.Identical(derefType(mi.X.Type()), t) {
					continue
				}
				if f.Signature.Recv() != nil && types.Identical(derefType(f.Signature.Recv().Type()), t) {
					continue
				}
				n++
				if !u.reason(b, nil, map[*ssa.BasicBlock]bool{}) {
					return false
				}
			}
		}
	}
	return n > 0
}

// onlyWhen: a function of the repository returns true (or false) only for
// something that is not known.
func (u *unknowns) onlyWhen(g *ssa.Function, result bool) bool {
	if !u.c.InRepo(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
		return false
	}
	found := false
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		k, ok := constBool(ret.Results[0])
		if !ok {
			if !u.says(ret.Results[0], result, map[*ssa.BasicBlock]bool{}) {
				return false
			}
			found = true
			continue
		}
		if k != result {
			continue
		}
		found = true
		if !u.reason(b, nil, map[*ssa.BasicBlock]bool{}) {
			return false
		}
	}
	return found
}

type flagIs struct {
	phi *ssa.Phi
	yes bool
}

// flag: a flag has a value only when something was found unknown or an error
// was met.
func (u *unknowns) flag(phi *ssa.Phi, yes bool, seen map[*ssa.BasicBlock]bool) bool {
	if u.memo[flagIs{phi, yes}] {
		return true // being looked at
	}
	u.memo[flagIs{phi, yes}] = true
	defer delete(u.memo, flagIs{phi, yes})
	any := false
	for i, ed := range phi.Edges {
		if k, ok := constBool(ed); ok {
			if k != yes {
				continue
			}
			any = true
			if !u.reason(phi.Block().Preds[i], phi.Block(), map[*ssa.BasicBlock]bool{}) {
				return false
			}
			continue
		}
		any = true
		if !u.says(ed, yes, seen) {
			return false
		}
	}
	return any
}

func constBool(v ssa.Value) (bool, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false, false
	}
	switch k.Value.String() {
	case "true":
		return true, true
	case "false":
		return false, true
	}
	return false, false
}

func isDynamicType(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	ld, ok := isLoad(v)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == ctyPath && g.Name() == "DynamicPseudoType"
}

// fails: a block makes an error.
func (u *unknowns) fails(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if ok && isNamed(derefType(fa.X.Type()), hclPath, "Diagnostic") && fieldOf(fa.X.Type(), fa.Field) == "Severity" {
				if n, ok := constInt(x.Val); ok && n == 1 {
					return true
				}
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				continue
			}
			if g.Pkg != nil && (g.Pkg.Pkg.Path() == "errors" && g.Name() == "New" || g.Pkg.Pkg.Path() == "fmt" && g.Name() == "Errorf") {
				return true
			}
			if u.c.InRepo(g) && (u.alwaysFails(g) || severe(x)) {
				return true
			}
		case *ssa.Panic:
			return true
		}
	}
	return false
}

// severe: a call is given the severity of an error.
func severe(call *ssa.Call) bool {
	for _, a := range call.Call.Args {
		if n, ok := constInt(a); ok && n == 1 && isNamed(a.Type(), hclPath, "DiagnosticSeverity") {
			return true
		}
	}
	return false
}

// alwaysFails: a helper that makes an error on every way.
func (u *unknowns) alwaysFails(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Blocks) > 8 {
		return false
	}
	for _, b := range g.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !u.made(b, map[*ssa.BasicBlock]bool{}) {
				return false
			}
		}
	}
	return true
}

func (u *unknowns) made(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	for _, in := range b.Instrs {
		if x, ok := in.(*ssa.Store); ok {
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if ok && isNamed(derefType(fa.X.Type()), hclPath, "Diagnostic") && fieldOf(fa.X.Type(), fa.Field) == "Severity" {
				if n, ok := constInt(x.Val); ok && n == 1 {
					return true
				}
			}
		}
	}
	if len(b.Preds) == 0 {
		return false
	}
	for _, p := range b.Preds {
		if !u.made(p, seen) {
			return false
		}
	}
	return true
}

// --- what follows when something is not known

// noticed: where a value is found not to be known, an unknown value, an error
// or a mark follows.
func (u *unknowns) noticed(f *ssa.Function) {
	name := u.c.FuncName(f)
	results := f.Signature.Results()
	if results.Len() == len(u.reports(f)) || len(u.reports(f)) == 0 && (results.Len() != 1 || !isNamed(results.At(0).Type(), ctyPath, "Value")) {
		return
	}
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, s := range b.Succs {
			for _, t := range edgeTest(b, s) {
				v := unknownIn(t)
				if v == nil {
					continue
				}
				u.c.Count("tests for unknown", 1)
				u.c.Obligation("%s: something not known", name)
				u.follow(f, name, iff, b, s, v)
			}
		}
	}
}

// unknownIn: the value that a test finds not to be known.
func unknownIn(t domTest) ssa.Value {
	switch x := t.cond.(type) {
	case *ssa.Call:
		if !t.yes && isCtyMethod(&x.Call, "Value", "IsKnown", "IsWhollyKnown") {
			return x.Call.Args[0]
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != t.yes {
			return nil
		}
		a, b := x.X, x.Y
		if isDynamicType(a) {
			a, b = b, a
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		call, ok := a.(*ssa.Call)
		if ok && isDynamicType(b) && isCtyMethod(&call.Call, "Value", "Type") {
			return call.Call.Args[0]
		}
	}
	return nil
}

// follow: everything that can follow from one branch.
func (u *unknowns) follow(f *ssa.Function, name string, iff *ssa.If, from, s *ssa.BasicBlock, v ssa.Value) {
	region := map[*ssa.BasicBlock]bool{}
	if len(s.Preds) == 1 || !joins(from, s) || allUnknown(s) {
		for _, x := range f.Blocks {
			if s.Dominates(x) {
				region[x] = true
			}
		}
	}
	marked := false
	for x := range region {
		if u.marks(x) {
			marked = true
		}
		ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, r := range ret.Results {
			if !isNamed(r.Type(), ctyPath, "Value") {
				marked = true
				continue
			}
			marked = true
			if d := u.definite(r, v, region, map[ssa.Value]bool{}); d != "" && !u.errorOn(s, x) {
				u.c.Report("definite", name, ret, fmt.Sprintf("%s returns %s for something that is not known", name, d))
			}
		}
		if len(ret.Results) == 0 {
			marked = true
		}
	}
	u.blocks(name, iff, region)
	// where the ways come together again
	edges := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	if len(region) == 0 {
		edges[s] = []*ssa.BasicBlock{from}
	}
	for x := range region {
		for _, n := range x.Succs {
			if !region[n] {
				edges[n] = append(edges[n], x)
			}
		}
	}
	for n, preds := range edges {
		for _, in := range n.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range n.Preds {
				for _, q := range preds {
					if p == q && u.isMark(phi.Edges[i], region) {
						marked = true
					}
				}
			}
		}
	}
	if _, typed := iff.Cond.(*ssa.BinOp); typed {
		return // a null also has no type, and is definite
	}
	if !marked && !u.errorAfter(s, map[*ssa.BasicBlock]bool{}) {
		u.c.Report("unnoticed", name, iff, fmt.Sprintf("%s goes on after finding something not known as if it were not there", name))
	}
}

// allUnknown: a block is only reached where something is not known.
func allUnknown(s *ssa.BasicBlock) bool {
	for _, p := range s.Preds {
		found := false
		for _, t := range edgeTest(p, s) {
			found = found || unknownIn(t) != nil
		}
		if !found {
			return false
		}
	}
	return true
}

// joins: a block is also reached from what the other branch leads to.
func joins(from, s *ssa.BasicBlock) bool {
	for _, o := range from.Succs {
		if o == s {
			continue
		}
		for _, p := range s.Preds {
			if p != from && o.Dominates(p) {
				return true
			}
		}
	}
	return false
}

// errorOn: an error is made between two blocks.
func (u *unknowns) errorOn(s, x *ssa.BasicBlock) bool {
	for d := x; d != nil; d = d.Idom() {
		if u.fails(d) {
			return true
		}
		if d == s {
			break
		}
	}
	return false
}

// marks: a block records something.
func (u *unknowns) marks(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Panic, *ssa.Send:
			return true
		case *ssa.Call:
			if isPlaceholder(x) || isAppend(x) {
				return true
			}
			if g := x.Call.StaticCallee(); g != nil && (g.Name() == "WriteString" || g.Name() == "Write" || g.Name() == "Fprintf") {
				return true
			}
		}
	}
	return false
}

// isMark: a value on a way that tells what was found.
func (u *unknowns) isMark(v ssa.Value, region map[*ssa.BasicBlock]bool) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if isPlaceholder(v) {
		return true
	}
	if in, ok := v.(ssa.Instruction); ok && region[in.Block()] {
		return true
	}
	return false
}

// definite: what kind of known value something is.
func (u *unknowns) definite(v, from ssa.Value, region map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) string {
	if v == from || seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg.Pkg.Path() == ctyPath && g.Name() != "DynamicVal" {
			return "cty." + g.Name()
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != ctyPath || g.Signature.Recv() != nil {
			return ""
		}
		switch g.Name() {
		case "UnknownVal":
			return ""
		case "NullVal", "ListValEmpty", "MapValEmpty", "SetValEmpty":
			return "cty." + g.Name()
		}
		if len(x.Call.Args) == 1 {
			if _, ok := x.Call.Args[0].(*ssa.Const); ok {
				return "cty." + g.Name()
			}
		}
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if region[x.Block().Preds[i]] {
				if d := u.definite(ed, from, region, seen); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

// errorAfter: an error is made on every way from a block.
func (u *unknowns) errorAfter(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] || u.fails(b) {
		return true
	}
	seen[b] = true
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !u.errorAfter(s, seen) {
			return false
		}
	}
	return true
}

// findBodies: bodies that give placeholders for everything in them.
func (u *unknowns) findBodies() {
	u.bodies = map[string]bool{}
	for _, f := range u.c.Funcs {
		if f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == hclPath && g.Name() == "StaticExpr" && isPlaceholder(call.Call.Args[0]) {
					u.bodies[derefType(f.Signature.Recv().Type()).String()] = true
				}
			}
		}
	}
}

// blocks: a block that stands for an unknown number of blocks has a body of
// placeholders.
func (u *unknowns) blocks(name string, iff *ssa.If, region map[*ssa.BasicBlock]bool) {
	adds, unknown := false, false
	for b := range region {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if isAppend(x) && isNamed(x.Type(), hclPath, "Blocks") {
					adds = true
				}
				unknown = unknown || u.makesBody(x.Call.StaticCallee())
			case *ssa.MakeInterface:
				if u.bodies[derefType(x.X.Type()).String()] {
					unknown = true
				}
			}
		}
	}
	if !adds {
		return
	}
	u.c.Count("blocks for something unknown", 1)
	if !unknown {
		u.c.Report("block", name, iff, fmt.Sprintf("%s gives a block with definite content for something that is not known", name))
	}
}

// makesBody: a function returns a body of placeholders.
func (u *unknowns) makesBody(g *ssa.Function) bool {
	if g == nil || !u.c.InRepo(g) {
		return false
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, r := range ret.Results {
			if mi, ok := r.(*ssa.MakeInterface); ok {
				r = mi.X
			}
			if u.bodies[derefType(r.Type()).String()] {
				return true
			}
		}
	}
	return false
}
