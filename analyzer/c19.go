package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "optional abilities of expressions have the signature that is asked for, wrappers can be unwrapped, the accessors unwrap until the ability is found, and bodies read through a wrapping body are wrapped in all their parts", runC19)
}

func runC19(c *Ctx) {
	a := &abilities{c: c, sigs: map[string]*types.Signature{}}
	if !a.find() {
		return
	}
	a.signatures()
	a.conversions()
	a.wrappers()
	a.accessors()
	a.lists()
	a.keywords()
	w := &wraps{c: c, a: a}
	w.find()
	c.Floor("optional abilities", 5)
	c.Floor("types with an ability", 8)
	c.Floor("wrapping expressions", 3)
	c.Floor("accessors", 4)
	c.Floor("reads of wrapped bodies", 5)
	c.Floor("ability results", 4)
}

// abilities: the interfaces expressions are tested for.
type abilities struct {
	c      *Ctx
	expr   *types.Interface
	exprT  types.Type
	sigs   map[string]*types.Signature
	unwrap string
}

func (a *abilities) find() bool {
	n := a.c.LookupType("hcl", "Expression")
	if n == nil {
		a.c.Report("gone", "Expression", At(token.NoPos), "the interface hcl.Expression is gone")
		return false
	}
	a.exprT, a.expr = n, n.Underlying().(*types.Interface)
	for _, f := range a.c.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				m := a.asks(ta)
				if m == nil {
					continue
				}
				sig := m.Type().(*types.Signature)
				if old := a.sigs[m.Name()]; old != nil {
					if !types.Identical(old, sig) {
						a.c.Report("interface", a.c.FuncName(f)+" "+m.Name(), in, fmt.Sprintf("%s asks an expression for a method %s of type %s, but elsewhere it is asked for with type %s: expressions having the one do not have the other", a.c.FuncName(f), m.Name(), sig, old))
					}
					continue
				}
				a.sigs[m.Name()] = sig
				a.c.Count("optional abilities", 1)
				r := sig.Results()
				if sig.Params().Len() == 0 && r.Len() == 1 && types.Identical(r.At(0).Type(), a.exprT) {
					a.unwrap = m.Name()
				}
			}
		}
	}
	if a.unwrap == "" {
		a.c.Report("gone", "unwrap", At(token.NoPos), "nothing asks an expression for the expression it wraps")
		return false
	}
	return true
}

// asks: the method an assertion on an expression asks for.
func (a *abilities) asks(ta *ssa.TypeAssert) *types.Func {
	it, ok := ta.AssertedType.Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 || !types.Implements(ta.X.Type(), a.expr) || !types.IsInterface(ta.X.Type()) {
		return nil
	}
	m := it.Method(0)
	for i := 0; i < a.expr.NumMethods(); i++ {
		if a.expr.Method(i).Name() == m.Name() {
			return nil
		}
	}
	if !m.Exported() {
		return nil
	}
	return m
}

// signatures: every expression type with a method of an ability's name has it
// with the type that is asked for.
func (a *abilities) signatures() {
	for _, t := range a.c.Implementers(a.expr) {
		n := namedOf(t)
		ms := types.NewMethodSet(types.NewPointer(n))
		for _, name := range a.names() {
			sel := ms.Lookup(n.Obj().Pkg(), name)
			if sel == nil {
				continue
			}
			a.c.Count("types with an ability", 1)
			m := sel.Obj().(*types.Func)
			if !types.Identical(m.Type(), a.sigs[name]) {
				a.c.Report("signature", a.c.TypeName(n)+"."+name, At(m.Pos()), fmt.Sprintf("%s.%s has type %s, but expressions are asked for %s: the ability is never found", a.c.TypeName(n), name, m.Type(), a.sigs[name]))
			}
		}
	}
	a.c.Obligation("every expression type with a method named like an optional ability (%s) has it with the type asked for", strings.Join(a.names(), ", "))
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// conversions: an expression used by value has the abilities of its pointer.
func (a *abilities) conversions() {
	for _, f := range a.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !types.Implements(mi.Type(), a.expr) {
					continue
				}
				n, ok := mi.X.Type().(*types.Named)
				if !ok {
					continue
				}
				a.c.Count("conversions by value", 1)
				own, ptr := types.NewMethodSet(n), types.NewMethodSet(types.NewPointer(n))
				for _, name := range a.names() {
					if ptr.Lookup(n.Obj().Pkg(), name) != nil && own.Lookup(n.Obj().Pkg(), name) == nil {
						a.c.Report("value", a.c.FuncName(f)+" "+a.c.TypeName(n)+"."+name, in, fmt.Sprintf("%s makes an expression of a %s by value, but %s is a method of its pointer only: the ability is never found", a.c.FuncName(f), a.c.TypeName(n), name))
					}
				}
			}
		}
	}
}

// origin describes where an expression held by the receiver comes from: a field
// of it, or a method of it.
func (a *abilities) origin(f *ssa.Function, v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeInterface:
			return walk(v.X)
		case *ssa.ChangeInterface:
			return walk(v.X)
		case *ssa.Extract:
			return walk(v.Tuple)
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return ""
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, s := range valuesIn(al) {
					if r := walk(s); r != "" {
						return r
					}
				}
			}
			if fa, ok := v.X.(*ssa.FieldAddr); ok && a.receiver(f, fa.X) {
				return fieldOf(fa.X.Type(), fa.Field)
			}
		case *ssa.Field:
			if a.receiver(f, v.X) {
				return fieldOf(v.X.Type(), v.Field)
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if r := walk(e); r != "" {
					return r
				}
			}
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && len(v.Call.Args) == 1 && a.receiver(f, v.Call.Args[0]) && a.c.InRepo(g) {
				if len(g.Params) == 1 && len(g.Blocks) > 0 {
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
							if o := a.origin(g, r.Results[0]); o != "" {
								return o
							}
						}
					}
				}
				return g.Name() + "()"
			}
		}
		return ""
	}
	return walk(v)
}

func valuesIn(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			out = append(out, s.Val)
		}
	}
	return out
}

// receiver: is the value the receiver of the method, or a copy of it?
func (a *abilities) receiver(f *ssa.Function, v ssa.Value) bool {
	if len(f.Params) == 0 || f.Signature.Recv() == nil {
		return false
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return v == f.Params[0]
	case *ssa.Alloc:
		for _, s := range valuesIn(v) {
			if s == f.Params[0] {
				return true
			}
		}
	case *ssa.UnOp:
		return v.Op == token.MUL && a.receiver(f, v.X)
	}
	return false
}

// wrappers: an expression whose value is that of an expression it holds can be
// unwrapped to the expression it holds.
func (a *abilities) wrappers() {
	for _, t := range a.c.Implementers(a.expr) {
		n := namedOf(t)
		inner := a.inner(n)
		if inner == "" {
			continue
		}
		a.c.Count("wrapping expressions", 1)
		name := a.c.TypeName(n)
		u := a.declared(n, a.unwrap)
		if u == nil {
			if types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), a.unwrap) != nil {
				continue
			}
			if a.c.c19Opaque(name) {
				continue
			}
			a.c.Report("wrapper", name, At(n.Obj().Pos()), fmt.Sprintf("%s has the value of the expression it holds (%s), but does not provide %s: whether that is a list, a map, a call or a traversal cannot be found out", name, inner, a.unwrap))
			continue
		}
		a.unwraps(n, u, inner)
	}
	a.c.Obligation("every expression whose value is that of an expression it holds can be unwrapped to that expression")
}

// c19Opaque: wrappers that are deliberately not transparent.
func (c *Ctx) c19Opaque(name string) bool {
	if name == "hclsyntax.TemplateWrapExpr" || strings.HasSuffix(name, ".TemplateWrapExpr") {
		c.Exception("TemplateWrapExpr: a template interpolation is not the static form of what it contains; applications must write the list, map, call or reference without the template")
		return true
	}
	return false
}

func (a *abilities) declared(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return a.c.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (a *abilities) inner(n *types.Named) string {
	f := a.declared(n, "Value")
	if f == nil {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && types.IsInterface(st.Field(i).Type()) && types.Implements(st.Field(i).Type(), a.expr) {
					return st.Field(i).Name()
				}
			}
		}
		return ""
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		v := r.Results[0]
		for {
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
				continue
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if al, ok := u.X.(*ssa.Alloc); ok {
					if st := valuesIn(al); len(st) == 1 {
						v = st[0]
						continue
					}
				}
			}
			break
		}
		call, ok := v.(*ssa.Call)
		if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Value" || !types.Implements(call.Call.Value.Type(), a.expr) {
			continue
		}
		if o := a.origin(f, call.Call.Value); o != "" {
			return o
		}
	}
	return ""
}

// unwraps: the unwrapping method gives the expression the value comes from.
func (a *abilities) unwraps(n *types.Named, u *ssa.Function, inner string) {
	name := a.c.TypeName(n)
	good := false
	for _, b := range u.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			continue
		}
		var vals []ssa.Value
		if phi, ok := r.Results[0].(*ssa.Phi); ok {
			vals = phi.Edges
		} else {
			vals = []ssa.Value{r.Results[0]}
		}
		for _, v := range vals {
			if mi, ok := v.(*ssa.MakeInterface); ok && a.receiver(u, mi.X) {
				a.c.Report("self", name, r, fmt.Sprintf("unwrapping a %s gives the same expression again, without end", name))
			}
			if o := a.origin(u, v); o == inner {
				good = true
			}
		}
	}
	if !good {
		a.c.Report("unwraps", name, At(u.Pos()), fmt.Sprintf("unwrapping a %s does not give the expression (%s) its value comes from", name, inner))
	}
}

// unwrapper describes a function that unwraps its first argument.
type unwrapper struct {
	until bool // stops at the expression its second argument accepts
}

// loopPhi: in a loop, the variable that starts with a parameter and becomes the
// wrapped expression each time round.
func (a *abilities) loopPhi(f *ssa.Function) (*ssa.Phi, ssa.Value) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !types.Implements(phi.Type(), a.expr) || !types.IsInterface(phi.Type()) {
				continue
			}
			var start ssa.Value
			again := false
			for i, e := range phi.Edges {
				if b.Dominates(b.Preds[i]) {
					call, ok := e.(*ssa.Call)
					if ok && call.Call.IsInvoke() && call.Call.Method.Name() == a.unwrap && a.of(call.Call.Value) == ssa.Value(phi) {
						again = true
						continue
					}
					if e == ssa.Value(phi) {
						continue
					}
					again = false
					break
				}
				start = e
			}
			if again && start != nil {
				return phi, start
			}
		}
	}
	return nil, nil
}

// of: the expression an asserted value is asserted of.
func (a *abilities) of(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return v
	}
}

// unwrapperOf: does the function unwrap its parameter again and again, in a loop
// or by calling itself?
func (a *abilities) unwrapperOf(f *ssa.Function) *unwrapper {
	if f == nil || len(f.Blocks) == 0 || len(f.Params) == 0 {
		return nil
	}
	var cur ssa.Value = f.Params[0]
	phi, start := a.loopPhi(f)
	if phi != nil {
		if start != ssa.Value(f.Params[0]) {
			return nil
		}
		cur = phi
	}
	u := &unwrapper{}
	ok, again := false, phi != nil
	var sense func(b *ssa.BasicBlock) (asked, yes bool)
	sense = func(b *ssa.BasicBlock) (asked, yes bool) {
		for _, g := range dominatingTests(b) {
			call, isCall := g.cond.(*ssa.Call)
			if !isCall || call.Call.IsInvoke() || call.Call.StaticCallee() != nil {
				continue
			}
			if p, isParam := call.Call.Value.(*ssa.Parameter); isParam && len(call.Call.Args) == 1 && call.Call.Args[0] == cur && p.Parent() == f {
				return true, g.yes
			}
		}
		return false, false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, isCall := in.(*ssa.Call); isCall && call.Call.IsInvoke() && call.Call.Method.Name() == a.unwrap && a.of(call.Call.Value) == cur {
				asked, yes := sense(b)
				if asked && yes {
					return nil
				}
				u.until = u.until || asked
			}
		}
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || len(r.Results) != 1 || isNilConst(r.Results[0]) {
			continue
		}
		if call, isCall := r.Results[0].(*ssa.Call); isCall && call.Call.StaticCallee() == f {
			inner, isInner := call.Call.Args[0].(*ssa.Call)
			if !isInner || !inner.Call.IsInvoke() || inner.Call.Method.Name() != a.unwrap || a.of(inner.Call.Value) != cur {
				return nil
			}
			for i, arg := range call.Call.Args[1:] {
				if arg != ssa.Value(f.Params[i+1]) {
					return nil
				}
			}
			again = true
			continue
		}
		if r.Results[0] != cur {
			return nil
		}
		if asked, yes := sense(b); asked && !yes {
			return nil
		}
		ok = true
	}
	if !ok || !again {
		return nil
	}
	return u
}

// domTest: a condition decided on every way to a block.
type domTest struct {
	cond ssa.Value
	yes  bool
	at   *ssa.If
}

func dominatingTests(b *ssa.BasicBlock) []domTest {
	var out []domTest
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				cond, yes := iff.Cond, i == 0
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, yes = u.X, !yes
				}
				out = append(out, domTest{cond, yes, iff})
			}
		}
	}
	return out
}

// edgeTest: what is decided by going from one block straight to another.
func edgeTest(from, to *ssa.BasicBlock) []domTest {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || to == nil || from.Succs[0] == from.Succs[1] {
		return nil
	}
	cond, yes := iff.Cond, from.Succs[0] == to
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, yes = u.X, !yes
	}
	return []domTest{{cond, yes, iff}}
}

// accessors: public functions asking an expression for an ability do so after
// unwrapping it until the ability is found.
func (a *abilities) accessors() {
	found := map[string]bool{}
	for _, f := range a.c.Funcs {
		if a.c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !call.Call.IsInvoke() {
					continue
				}
				m := call.Call.Method
				sig := a.sigs[m.Name()]
				if sig == nil || m.Name() == a.unwrap || !types.Identical(sig, m.Type()) {
					continue
				}
				ta, ok := extractedAssert(call.Call.Value)
				if !ok {
					continue
				}
				a.c.Count("accessors", 1)
				found[m.Name()] = true
				a.accessor(f, call, ta)
			}
		}
	}
	for _, name := range a.names() {
		if name != a.unwrap && !found[name] {
			a.c.Report("accessor-gone", name, At(token.NoPos), fmt.Sprintf("nothing asks expressions for %s any more", name))
		}
	}
	for _, f := range a.c.Funcs {
		if a.c.PkgOf(f) != "hcl" || !strings.HasPrefix(strings.ToLower(f.Name()), "unwrapexpression") || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		a.c.Count("unwrapping functions", 1)
		u := a.unwrapperOf(f)
		if u == nil {
			a.c.Report("loop", a.c.FuncName(f), At(f.Pos()), fmt.Sprintf("%s does not unwrap its argument again and again: an expression wrapped more than once is not found", a.c.FuncName(f)))
		}
	}
	a.c.Obligation("every use of an optional ability asks the expression found by unwrapping the given one until it has the ability")
}

func extractedAssert(v ssa.Value) (*ssa.TypeAssert, bool) {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	ta, ok := v.(*ssa.TypeAssert)
	return ta, ok
}

func (a *abilities) accessor(f *ssa.Function, call *ssa.Call, ta *ssa.TypeAssert) {
	name := call.Call.Method.Name()
	key := a.c.FuncName(f) + " " + name
	x := a.of(ta.X)
	switch x := x.(type) {
	case *ssa.Phi:
		if phi, _ := a.loopPhi(f); phi == x {
			a.result(f, call)
			return
		}
		a.c.Report("unwrapped", key, call, fmt.Sprintf("%s asks for %s without unwrapping the expression first", a.c.FuncName(f), name))
		return
	case *ssa.Call:
		g := x.Call.StaticCallee()
		u := a.unwrapperOf(g)
		if u == nil {
			a.c.Report("unwrapped", key, call, fmt.Sprintf("%s asks for %s an expression that is not the result of unwrapping the given one again and again", a.c.FuncName(f), name))
			return
		}
		if !u.until {
			a.c.Report("until", key, call, fmt.Sprintf("%s unwraps the expression completely before asking for %s, passing by a wrapper that has the ability itself", a.c.FuncName(f), name))
			return
		}
		if len(x.Call.Args) < 2 || !a.accepts(x.Call.Args[1], ta.AssertedType) {
			a.c.Report("accepts", key, call, fmt.Sprintf("%s stops unwrapping at an expression other than the first having %s", a.c.FuncName(f), name))
			return
		}
		a.result(f, call)
	default:
		a.c.Report("unwrapped", key, call, fmt.Sprintf("%s asks for %s without unwrapping the expression first", a.c.FuncName(f), name))
	}
}

// accepts: does the function value answer exactly whether its argument has the
// ability?
func (a *abilities) accepts(v ssa.Value, t types.Type) bool {
	if ch, ok := v.(*ssa.ChangeType); ok {
		v = ch.X
	}
	var g *ssa.Function
	switch v := v.(type) {
	case *ssa.Function:
		g = v
	case *ssa.MakeClosure:
		g, _ = v.Fn.(*ssa.Function)
	}
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			continue
		}
		if k, ok := r.Results[0].(*ssa.Const); ok && k.Value != nil {
			agree := false
			for _, d := range dominatingTests(b) {
				if ex, ok := d.cond.(*ssa.Extract); ok && ex.Index == 1 {
					if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && sameMethods(ta.AssertedType, t) && d.yes == (k.Value.String() == "true") {
						agree = true
					}
				}
			}
			if !agree {
				return false
			}
			continue
		}
		ex, ok := r.Results[0].(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || !sameMethods(ta.AssertedType, t) || len(g.Params) == 0 || a.of(ta.X) != ssa.Value(g.Params[len(g.Params)-1]) {
			return false
		}
	}
	return true
}

func sameMethods(s, t types.Type) bool {
	a, ok1 := s.Underlying().(*types.Interface)
	b, ok2 := t.Underlying().(*types.Interface)
	return ok1 && ok2 && types.Identical(a, b)
}

// holds: the value is that of the call, or nil.
func (a *abilities) holds(v ssa.Value, call *ssa.Call) bool {
	if phi, ok := v.(*ssa.Phi); ok {
		some := false
		for _, e := range phi.Edges {
			if a.of(e) == ssa.Value(call) {
				some = true
			} else if !isNilConst(e) {
				return false
			}
		}
		return some
	}
	return a.of(v) == ssa.Value(call)
}

// result: what the ability gives is returned as it is whenever it is not nil.
func (a *abilities) result(f *ssa.Function, call *ssa.Call) {
	key := a.c.FuncName(f) + " " + call.Call.Method.Name()
	sig := f.Signature.Results()
	if sig.Len() == 0 || !types.Identical(sig.At(0).Type(), call.Type()) {
		return
	}
	returned := false
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 || !a.holds(r.Results[0], call) {
			continue
		}
		returned = true
		for _, d := range dominatingTests(b) {
			bo, ok := d.cond.(*ssa.BinOp)
			if ok && !isNamed(call.Type(), hclPath, "Traversal") && (lengthOf(bo.X) == ssa.Value(call) || lengthOf(bo.Y) == ssa.Value(call)) {
				a.c.Report("empty", key, bo, fmt.Sprintf("%s recognises the result of %s depending on its length: an empty one is still one", a.c.FuncName(f), call.Call.Method.Name()))
			}
			if ok && d.yes != (bo.Op == token.NEQ) && (bo.Op == token.NEQ || bo.Op == token.EQL) && (bo.X == ssa.Value(call) && isNilConst(bo.Y) || bo.Y == ssa.Value(call) && isNilConst(bo.X)) {
				a.c.Report("nil", key, bo, fmt.Sprintf("%s returns the result of %s only when it is nil", a.c.FuncName(f), call.Call.Method.Name()))
			}
		}
	}
	if !returned {
		a.c.Report("result", key, call, fmt.Sprintf("%s does not return what %s gives", a.c.FuncName(f), call.Call.Method.Name()))
	}
}

func lengthOf(v ssa.Value) ssa.Value {
	x, off := lenOf(v)
	if off != 0 {
		return nil
	}
	return x
}

func (a *abilities) names() []string {
	var out []string
	for n := range a.sigs {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// lists: an ability giving a sequence gives every element of the sequence it is
// made from, in its place, and an empty one is not nil.
func (a *abilities) lists() {
	for _, t := range a.c.Implementers(a.expr) {
		n := namedOf(t)
		for _, name := range a.names() {
			f := a.declared(n, name)
			if f == nil || name == a.unwrap {
				continue
			}
			a.list(f)
		}
	}
}

func (a *abilities) list(f *ssa.Function) {
	name := a.c.FuncName(f)
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 && isNilConst(r.Results[0]) {
			for _, d := range dominatingTests(b) {
				if bo, ok := d.cond.(*ssa.BinOp); ok && (lengthOf(bo.X) != nil || lengthOf(bo.Y) != nil) {
					a.c.Report("none", name, bo, fmt.Sprintf("%s gives nil depending on the length of the sequence, which means that the expression is not one", name))
				}
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				ia, ok := in.Addr.(*ssa.IndexAddr)
				if !ok {
					if fa, ok2 := in.Addr.(*ssa.FieldAddr); ok2 {
						ia, ok = fa.X.(*ssa.IndexAddr)
					}
				}
				if !ok {
					continue
				}
				l := innermost(f, b)
				if l == nil {
					continue
				}
				if _, made := ia.X.(*ssa.MakeSlice); !made {
					if _, loaded := ia.X.(*ssa.UnOp); !loaded {
						continue
					}
				}
				a.c.Count("ability results", 1)
				a.everyRound(f, name, l, in)
				if idx := loopIndex(l); idx != nil && ia.Index != idx {
					a.c.Report("place", name, in, fmt.Sprintf("%s puts an element elsewhere than in the place it has in what it comes from", name))
				}
			case *ssa.Call:
				bi, ok := in.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || !a.answers(f, in) {
					continue
				}
				l := innermost(f, b)
				if l == nil {
					continue
				}
				a.c.Count("ability results", 1)
				a.everyRound(f, name, l, in)
				if a.startsNil(in) {
					a.c.Report("none", name, in, fmt.Sprintf("%s gives nil for an empty sequence, which means that the expression is not one", name))
				}
			}
		}
	}
}

// answers: does the value reach what the function returns?
func (a *abilities) answers(f *ssa.Function, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value) bool
	walk = func(x ssa.Value) bool {
		if x == v {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		switch x := x.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return walk(x.Call.Args[0])
			}
		case *ssa.ChangeType:
			return walk(x.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, x := range r.Results {
				if walk(x) {
					return true
				}
			}
		}
	}
	return false
}

// startsNil: the sequence appended to may be nil when nothing was appended.
func (a *abilities) startsNil(call *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value) bool
	walk = func(x ssa.Value) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		switch x := x.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		}
		return false
	}
	return walk(call.Call.Args[0])
}

// everyRound: the instruction is reached each time round the loop, and the loop
// is left only where it is decided to go round again.
func (a *abilities) everyRound(f *ssa.Function, name string, l *loop, in ssa.Instruction) {
	for b := range l.blocks {
		for _, s := range b.Succs {
			if s == l.header && !in.Block().Dominates(b) {
				a.c.Report("skipped", name, in, fmt.Sprintf("%s leaves out some of the elements", name))
				return
			}
			if !l.blocks[s] && b != l.header {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
					continue
				}
				a.c.Report("left", name, in, fmt.Sprintf("%s stops before the last element", name))
				return
			}
		}
	}
}

// loopIndex: the index of a loop over a sequence.
func loopIndex(l *loop) ssa.Value {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return nil
	}
	return bo.X
}

// keywords: the names the parser turns into literal values are recovered when
// such a literal is asked for the traversal it was written as.
func (a *abilities) keywords() {
	lit := a.c.LookupType("hcl/hclsyntax", "LiteralValueExpr")
	if lit == nil {
		return
	}
	written := map[string]ssa.Instruction{}
	for _, f := range a.c.Funcs {
		if a.c.PkgOf(f) != "hcl/hclsyntax" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || namedOf(derefType(al.Type())) != lit {
					continue
				}
				for _, d := range dominatingTests(b) {
					bo, ok := d.cond.(*ssa.BinOp)
					if !ok || !d.yes || bo.Op != token.EQL {
						continue
					}
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							if s := constant.StringVal(k.Value); token.IsIdentifier(s) || s == "true" {
								written[s] = in
							}
						}
					}
				}
			}
		}
	}
	var f *ssa.Function
	for _, name := range a.names() {
		if name != a.unwrap {
			if g := a.declared(lit, name); g != nil {
				f = g
			}
		}
	}
	if len(written) == 0 {
		return
	}
	names := a.strings(f)
	a.paired(f)
	for s, in := range written {
		a.c.Count("literal keywords", 1)
		if !names[s] {
			a.c.Report("keyword", s, in, fmt.Sprintf("the parser turns the name %s into a literal value, but that literal is not recognised as the name any more", s))
		}
	}
}

// paired: a literal recognised by comparing it with a named value gets the name
// of that value.
func (a *abilities) paired(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			k, ok := s.Val.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			for _, d := range dominatingTests(b) {
				if !d.yes {
					continue
				}
				var is string
				switch x := d.cond.(type) {
				case *ssa.BinOp:
					if x.Op != token.EQL {
						continue
					}
					for _, v := range []ssa.Value{x.X, x.Y} {
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if ld, ok := v.(*ssa.UnOp); ok {
							if g, ok := ld.X.(*ssa.Global); ok {
								is = strings.ToLower(g.Name())
							}
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Name() == "IsNull" {
						is = "null"
					}
				}
				if is == "" {
					continue
				}
				a.c.Count("literal names recovered", 1)
				if got := constant.StringVal(k.Value); got != is {
					a.c.Report("name", is, in, fmt.Sprintf("the literal %s is recognised as the name %s", is, got))
				}
			}
		}
	}
}

// strings: the string constants a method and the helpers it calls store.
func (a *abilities) strings(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						out[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
		for _, g := range staticCallees(f) {
			if a.c.InRepo(g) {
				visit(g)
			}
		}
	}
	visit(f)
	return out
}

// wraps: bodies that hold another body and change what is read from it.
type wraps struct {
	c     *Ctx
	a     *abilities
	types map[*types.Named]int // the field of the body held
	body  *types.Interface
	said  map[string]bool
}

type wrapRead struct {
	w     *wraps
	t     *types.Named
	attrs bool // expressions are wrapped, too
	root  *ssa.Function
	trail []place // passed on the way back to where the value is made
}

type place struct {
	fr *frame
	at *ssa.BasicBlock
	to *ssa.BasicBlock // the way leads there
}

// frame binds the parameters of a helper to what it is called with.
type frame struct {
	f    *ssa.Function
	call *ssa.CallCommon
	up   *frame
	at   *ssa.BasicBlock
}

func (w *wraps) find() {
	n := w.c.LookupType("hcl", "Body")
	if n == nil {
		w.c.Report("gone", "Body", At(token.NoPos), "the interface hcl.Body is gone")
		return
	}
	w.body = n.Underlying().(*types.Interface)
	w.types = map[*types.Named]int{}
	w.said = map[string]bool{}
	for _, t := range w.c.Implementers(w.body) {
		n := namedOf(t)
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		held, plain := -1, true
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if types.IsInterface(ft) && types.Implements(ft, w.body) {
				held = i
			} else if !isNamed(ft, hclPath, "Diagnostics") && !isErr(ft) {
				plain = false
			}
		}
		if held < 0 || plain && st.NumFields() > 1 {
			continue
		}
		w.types[n] = held
		w.c.Count("wrapping bodies", 1)
	}
	for n := range w.types {
		for _, m := range []string{"Content", "PartialContent", "JustAttributes"} {
			f := w.a.declared(n, m)
			if f == nil {
				w.c.Report("promoted", w.c.TypeName(n)+"."+m, At(n.Obj().Pos()), fmt.Sprintf("%s takes %s from the body it holds: what is read that way is not wrapped", w.c.TypeName(n), m))
				continue
			}
			r := &wrapRead{w: w, t: n, root: f, attrs: !w.bodiesOnly(n)}
			w.c.Count("reads of wrapped bodies", 1)
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				fr := &frame{f: f}
				for _, v := range ret.Results {
					switch {
					case isPtrTo(v.Type(), hclPath, "BodyContent"):
						r.content(v, fr, b)
					case isNamed(v.Type(), hclPath, "Attributes"):
						r.attributes(v, fr, b)
					case types.IsInterface(v.Type()) && types.Implements(v.Type(), w.body):
						r.rest(v, fr, b)
					}
				}
			}
		}
	}
	w.c.Obligation("everything read through a body that wraps another one (attributes, blocks, remaining body) is wrapped in turn, with the same settings")
}

// bodiesOnly: the change is given by the user of the wrapper as a function from
// body to body; expressions are not its concern.
func (w *wraps) bodiesOnly(n *types.Named) bool {
	st := n.Underlying().(*types.Struct)
	bodyToBody := func(s *types.Signature) bool {
		return s.Params().Len() == 1 && s.Results().Len() == 1 && types.IsInterface(s.Params().At(0).Type()) && types.Implements(s.Params().At(0).Type(), w.body) && types.Identical(s.Params().At(0).Type(), s.Results().At(0).Type())
	}
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().Underlying().(type) {
		case *types.Signature:
			if bodyToBody(t) {
				return true
			}
		case *types.Interface:
			if t.NumMethods() == 1 && bodyToBody(t.Method(0).Type().(*types.Signature)) {
				return true
			}
		}
	}
	return false
}

func (r *wrapRead) report(rule string, p Poser, msg string) {
	key := r.w.c.FuncName(r.root) + " " + rule
	if r.w.said[key] {
		return
	}
	r.w.said[key] = true
	r.w.c.Report(rule, r.w.c.FuncName(r.root), p, msg)
}

// back follows a value to where it is made: through conversions, parameters
// (to what they are called with) and results of helpers.
func (r *wrapRead) back(v ssa.Value, fr *frame, at *ssa.BasicBlock, depth int, visit func(v ssa.Value, fr *frame, at *ssa.BasicBlock)) {
	if depth > 12 {
		return
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		r.back(x.X, fr, at, depth+1, visit)
	case *ssa.ChangeType:
		r.back(x.X, fr, at, depth+1, visit)
	case *ssa.Parameter:
		if fr.call == nil {
			visit(v, fr, at)
			return
		}
		r.trail = append(r.trail, place{fr: fr, at: at})
		for i, p := range fr.f.Params {
			if p == x && i < len(fr.call.Args) {
				r.back(fr.call.Args[i], fr.up, fr.at, depth+1, visit)
			}
		}
		r.trail = r.trail[:len(r.trail)-1]
	case *ssa.Phi:
		for i, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			if x.Block().Dominates(x.Block().Preds[i]) {
				// once round a loop: only what is made there matters
				if _, isPhi := e.(*ssa.Phi); isPhi {
					continue
				}
			}
			r.trail = append(r.trail, place{fr, x.Block().Preds[i], x.Block()})
			r.back(e, fr, x.Block().Preds[i], depth+1, visit)
			r.trail = r.trail[:len(r.trail)-1]
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			r.results(call, x.Index, v, fr, at, depth, visit)
			return
		}
		visit(v, fr, at)
	case *ssa.Call:
		r.results(x, 0, v, fr, at, depth, visit)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if vals := valuesIn(al); len(vals) > 0 {
					for _, s := range vals {
						r.back(s, fr, at, depth+1, visit)
					}
					return
				}
			}
		}
		visit(v, fr, at)
	default:
		visit(v, fr, at)
	}
}

func (r *wrapRead) results(call *ssa.Call, i int, v ssa.Value, fr *frame, at *ssa.BasicBlock, depth int, visit func(v ssa.Value, fr *frame, at *ssa.BasicBlock)) {
	g := call.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !r.w.c.InRepo(g) || fr.within(g) {
		visit(v, fr, at)
		return
	}
	sub := &frame{f: g, call: &call.Call, up: fr, at: at}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			r.back(ret.Results[i], sub, b, depth+1, visit)
		}
	}
}

func (fr *frame) within(g *ssa.Function) bool {
	for ; fr != nil; fr = fr.up {
		if fr.f == g {
			return true
		}
	}
	return false
}

// raw: is it what reading the body held gave?
func (r *wrapRead) raw(v ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	call, ok := v.(*ssa.Call)
	return ok && call.Call.IsInvoke() && types.IsInterface(call.Call.Value.Type()) && types.Implements(call.Call.Value.Type(), r.w.body)
}

// excused: at this place the part has no elements, or the setting whose presence
// asks for wrapping is absent.
func (r *wrapRead) excused(part string, v ssa.Value, fr *frame, at *ssa.BasicBlock) bool {
	var places []place
	for ; fr != nil && at != nil; at, fr = fr.at, fr.up {
		places = append(places, place{fr: fr, at: at})
	}
	for _, pl := range append(places, r.trail...) {
		fr, tests := pl.fr, append(dominatingTests(pl.at), edgeTest(pl.at, pl.to)...)
		for _, d := range tests {
			bo, ok := d.cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op := bo.Op
			if !d.yes {
				op = negated(op)
			}
			if n := lengthOf(bo.X); n != nil && op == token.EQL && r.isPart(part, n) {
				if k, ok := constInt(bo.Y); ok && k == 0 {
					return true
				}
			}
			if op == token.EQL && (isNilConst(bo.Y) && r.setting(fr, bo.X) || isNilConst(bo.X) && r.setting(fr, bo.Y)) {
				return true
			}
			if op == token.EQL && isNilConst(bo.Y) && bo.X == v {
				return true
			}
		}
	}
	return false
}

// isPart: the attributes or the blocks of something read.
func (r *wrapRead) isPart(part string, v ssa.Value) bool {
	if part == "Blocks" {
		return isNamed(v.Type(), hclPath, "Blocks")
	}
	return isNamed(v.Type(), hclPath, "Attributes")
}

// setting: a field of the wrapper that the wrapping uses.
func (r *wrapRead) setting(fr *frame, v ssa.Value) bool {
	var fa ssa.Value
	var i int
	switch x := v.(type) {
	case *ssa.UnOp:
		f, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return false
		}
		fa, i = f.X, f.Field
	case *ssa.Field:
		fa, i = x.X, x.Field
	default:
		return false
	}
	if namedOf(derefType(fa.Type())) != r.t && namedOf(fa.Type()) != r.t {
		return false
	}
	st := r.t.Underlying().(*types.Struct)
	if _, isMap := st.Field(i).Type().Underlying().(*types.Map); isMap || i == r.w.types[r.t] {
		return false
	}
	return true
}

func (r *wrapRead) content(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
	r.back(v, fr, at, 0, func(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
		if r.raw(v) {
			if !r.excused("Blocks", v, fr, at) {
				r.report("content", posOf(v), fmt.Sprintf("%s hands on what the body it wraps gave: nested blocks are not wrapped", r.w.c.FuncName(r.root)))
			} else if r.attrs && !r.excused("Attributes", v, fr, at) {
				r.report("content", posOf(v), fmt.Sprintf("%s hands on what the body it wraps gave: attributes are not wrapped", r.w.c.FuncName(r.root)))
			}
			return
		}
		al, ok := v.(*ssa.Alloc)
		if !ok {
			return
		}
		for _, u := range *al.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				// a copy of what was read
				if ld, ok := s.Val.(*ssa.UnOp); ok {
					r.copied(al, ld.X, fr, at)
				}
			}
			fa, ok := u.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, u := range *fa.Referrers() {
				s, ok := u.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(fa) {
					continue
				}
				switch fieldOf(al.Type(), fa.Field) {
				case "Attributes":
					r.attributes(s.Val, fr, s.Block())
				case "Blocks":
					r.blocks(s.Val, fr, s.Block())
				}
			}
		}
	})
}

// copied: the content is a copy; the parts not replaced are those read.
func (r *wrapRead) copied(al *ssa.Alloc, from ssa.Value, fr *frame, at *ssa.BasicBlock) {
	set := map[string]bool{}
	for _, u := range *al.Referrers() {
		if fa, ok := u.(*ssa.FieldAddr); ok {
			for _, u := range *fa.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
					set[fieldOf(al.Type(), fa.Field)] = true
				}
			}
		}
	}
	if !set["Blocks"] || r.attrs && !set["Attributes"] {
		r.content(from, fr, at)
	}
}

func posOf(v ssa.Value) Poser { return At(v.Pos()) }

func (r *wrapRead) partOfRaw(v ssa.Value, fr *frame) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL || !isPtrTo(fa.X.Type(), hclPath, "BodyContent") {
			return false
		}
		raw := false
		r.back(fa.X, fr, x.Block(), 0, func(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
			raw = raw || r.raw(v)
		})
		return raw
	}
	return r.raw(v)
}

func (r *wrapRead) attributes(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
	if !r.attrs {
		return
	}
	r.back(v, fr, at, 0, func(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
		if r.partOfRaw(v, fr) {
			if !r.excused("Attributes", v, fr, at) {
				r.report("attributes", posOf(v), fmt.Sprintf("%s hands on the attributes that the body it wraps gave as they are", r.w.c.FuncName(r.root)))
			}
			return
		}
		mm, ok := v.(*ssa.MakeMap)
		if !ok {
			return
		}
		for _, u := range *mm.Referrers() {
			if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(mm) {
				r.element(mu.Value, "Expr", fr, mu, mu.Block())
			}
		}
	})
}

func (r *wrapRead) blocks(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
	seen := map[ssa.Value]bool{}
	var each func(v ssa.Value, fr *frame, at *ssa.BasicBlock)
	each = func(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
		if seen[v] {
			return
		}
		seen[v] = true
		if r.partOfRaw(v, fr) {
			if !r.excused("Blocks", v, fr, at) {
				r.report("blocks", posOf(v), fmt.Sprintf("%s hands on the blocks that the body it wraps gave as they are", r.w.c.FuncName(r.root)))
			}
			return
		}
		switch x := v.(type) {
		case *ssa.MakeSlice:
			for _, u := range *x.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							r.element(s.Val, "Body", fr, s, s.Block())
						}
					}
				}
				if s, ok := u.(*ssa.Store); ok && s.Val == ssa.Value(x) {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						r.throughField(fa, fr)
					}
				}
			}
		case *ssa.Slice:
			r.back(x.X, fr, at, 0, each)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" {
				return
			}
			r.back(x.Call.Args[0], fr, at, 0, each)
			if els := appendedElements(x); els != nil {
				for _, el := range els {
					r.element(el, "Body", fr, x, x.Block())
				}
			} else {
				r.back(x.Call.Args[1], fr, at, 0, each)
			}
		}
	}
	r.back(v, fr, at, 0, each)
}

// throughField: elements placed in a sequence held in a field of the result.
func (r *wrapRead) throughField(fa *ssa.FieldAddr, fr *frame) {
	for _, b := range fr.f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ld, ok := ia.X.(*ssa.UnOp)
			if !ok {
				continue
			}
			f2, ok := ld.X.(*ssa.FieldAddr)
			if ok && f2.X == fa.X && f2.Field == fa.Field {
				r.element(s.Val, "Body", fr, s, b)
			}
		}
	}
}

// appendedElements: the single elements given to append, if they are.
func appendedElements(call *ssa.Call) []ssa.Value {
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, u := range *ia.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// element: a block or an attribute handed on has had its body or expression
// wrapped.
func (r *wrapRead) element(v ssa.Value, field string, fr *frame, in ssa.Instruction, at *ssa.BasicBlock) {
	r.w.c.Count("elements handed on", 1)
	what := "block"
	if field == "Expr" {
		what = "attribute"
	}
	r.back(v, fr, at, 0, func(x ssa.Value, xf *frame, xat *ssa.BasicBlock) {
		st := r.set(x, xf, field)
		if v != x {
			st = append(st, r.set(v, fr, field)...)
		}
		ok := false
		for _, s := range st {
			if (s.fr != fr || s.st.Block().Dominates(at) || xf == fr && s.st.Block().Dominates(xat)) && r.wrapped(s.st.Val, s.fr, s.st.Block(), field) {
				ok = true
			}
		}
		if !ok && !isNilConst(x) && !r.excused(what, x, fr, at) {
			r.report(strings.ToLower(field), in, fmt.Sprintf("%s hands on a %s whose %s is not wrapped", r.w.c.FuncName(r.root), what, map[string]string{"Expr": "expression", "Body": "body"}[field]))
		}
	})
}

type fieldSet struct {
	st *ssa.Store
	fr *frame
}

// set: the stores to a field of the structure.
func (r *wrapRead) set(v ssa.Value, fr *frame, field string) []fieldSet {
	var out []fieldSet
	if v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok || fa.X != v || fieldOf(v.Type(), fa.Field) != field {
			continue
		}
		for _, u := range *fa.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
				out = append(out, fieldSet{s, fr})
			}
		}
	}
	return out
}

// wrapped: the body is a wrapping one with all its settings; the expression is
// one made here.
func (r *wrapRead) wrapped(v ssa.Value, fr *frame, at *ssa.BasicBlock, field string) bool {
	good, bad := false, false
	r.back(v, fr, at, 0, func(x ssa.Value, xf *frame, xat *ssa.BasicBlock) {
		mi, ok := x.(*ssa.MakeInterface)
		if !ok {
			// something made by a function of another package
			if call, isCall := x.(*ssa.Call); isCall && field == "Expr" && !call.Call.IsInvoke() {
				good = true
				return
			}
			bad = true
			return
		}
		good = true
		if field == "Body" {
			switch n := r.w.typeOf(mi); {
			case n == nil:
				bad = true
			case n == r.t:
				r.settings(mi, xf, v, fr)
			default:
				// another wrapper: what it holds must be wrapped
				held := r.fieldValues(mi, xf, r.w.types[n])
				if len(held) == 0 {
					bad = true
				}
				for _, h := range held {
					if !r.heldWrapped(h, at) {
						bad = true
					}
				}
			}
		}
	})
	return good && !bad
}

// heldWrapped: the body put into another wrapper is itself a wrapped one, maybe
// by an earlier store to the same block.
func (r *wrapRead) heldWrapped(h framed, at *ssa.BasicBlock) bool {
	if ld, ok := h.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			for _, s := range r.set(fa.X, h.fr, fieldOf(fa.X.Type(), fa.Field)) {
				if instrBefore(s.st, ld) && r.wrapped(s.st.Val, s.fr, s.st.Block(), "Body") {
					return true
				}
			}
			return false
		}
	}
	return r.wrapped(h.v, h.fr, at, "Body")
}

// instrBefore: on every way to b, a comes first.
func instrBefore(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func (w *wraps) typeOf(mi *ssa.MakeInterface) *types.Named {
	n := namedOf(mi.X.Type())
	if n == nil {
		return nil
	}
	if _, ok := w.types[n]; !ok {
		return nil
	}
	return n
}

func (r *wrapRead) rest(v ssa.Value, fr *frame, at *ssa.BasicBlock) {
	r.back(v, fr, at, 0, func(x ssa.Value, xf *frame, xat *ssa.BasicBlock) {
		if isNilConst(x) {
			return
		}
		mi, ok := x.(*ssa.MakeInterface)
		if ok && namedOf(mi.X.Type()) == r.t {
			r.settings(mi, xf, v, fr)
			return
		}
		if r.raw(x) && r.nilAt(x, xat) {
			return
		}
		r.report("remain", posOf(v), fmt.Sprintf("%s returns a remaining body that is not wrapped", r.w.c.FuncName(r.root)))
	})
}

// nilAt: at the end of the block the value is known to be nil.
func (r *wrapRead) nilAt(v ssa.Value, at *ssa.BasicBlock) bool {
	check := func(cond ssa.Value, yes bool) bool {
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.X != v && bo.Y != v || !isNilConst(bo.X) && !isNilConst(bo.Y) {
			return false
		}
		return bo.Op == token.EQL && yes || bo.Op == token.NEQ && !yes
	}
	for _, d := range dominatingTests(at) {
		if check(d.cond, d.yes) {
			return true
		}
	}
	if iff, ok := at.Instrs[len(at.Instrs)-1].(*ssa.If); ok {
		bo, isBin := iff.Cond.(*ssa.BinOp)
		return isBin && (bo.X == v || bo.Y == v)
	}
	return false
}

// settings: a wrapper made while reading has every setting of the one read
// from: each field holding no body and no map is set from the same field.
func (r *wrapRead) settings(mi *ssa.MakeInterface, fr *frame, outer ssa.Value, outerFr *frame) {
	n := r.w.typeOf(mi)
	if n != r.t {
		return
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, isMap := ft.Underlying().(*types.Map); isMap {
			continue
		}
		vals := r.fieldValues(mi, fr, i)
		for v, f := outer, outerFr; ; {
			vals = append(vals, r.laterValues(v, f, i)...)
			// the same value inside the helper that returned it
			call, ok := v.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				break
			}
			g := call.Call.StaticCallee()
			sub := &frame{f: g, call: &call.Call, up: f, at: call.Block()}
			var next ssa.Value
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					next = ret.Results[0]
				}
			}
			if next == nil || !r.w.c.InRepo(g) {
				break
			}
			v, f = next, sub
		}
		r.w.c.Count("settings handed on", 1)
		if len(vals) == 0 {
			r.report("setting "+st.Field(i).Name(), posOf(outer), fmt.Sprintf("%s makes a wrapping body without its %s", r.w.c.FuncName(r.root), st.Field(i).Name()))
			continue
		}
		if i == r.w.types[n] {
			continue
		}
		ok := false
		for _, v := range vals {
			if r.derives(v.v, v.fr, i, 0) {
				ok = true
			}
		}
		if !ok {
			r.report("setting "+st.Field(i).Name(), posOf(outer), fmt.Sprintf("%s makes a wrapping body whose %s does not come from that of the body read", r.w.c.FuncName(r.root), st.Field(i).Name()))
		}
	}
}

type framed struct {
	v  ssa.Value
	fr *frame
}

func (r *wrapRead) fieldValues(mi *ssa.MakeInterface, fr *frame, i int) []framed {
	v := mi.X
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		v = ld.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []framed
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.FieldAddr:
			if u.Field != i {
				continue
			}
			for _, x := range *u.Referrers() {
				if s, ok := x.(*ssa.Store); ok && s.Addr == ssa.Value(u) {
					out = append(out, framed{s.Val, fr})
				}
			}
		case *ssa.Store:
			if u.Addr == ssa.Value(al) {
				// a copy of the whole wrapper
				out = append(out, framed{u.Val, fr})
			}
		}
	}
	return out
}

// laterValues: stores to the field after the wrapper was made, through the
// interface.
func (r *wrapRead) laterValues(v ssa.Value, fr *frame, i int) []framed {
	var out []framed
	if v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		ta, ok := u.(*ssa.TypeAssert)
		if !ok {
			continue
		}
		ends := []ssa.Value{ta}
		for _, x := range *ta.Referrers() {
			if ex, ok := x.(*ssa.Extract); ok && ex.Index == 0 {
				ends = append(ends, ex)
			}
		}
		for _, e := range ends {
			for _, x := range *e.Referrers() {
				if fa, ok := x.(*ssa.FieldAddr); ok && fa.Field == i {
					for _, y := range *fa.Referrers() {
						if s, ok := y.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							out = append(out, framed{s.Val, fr})
						}
					}
				}
			}
		}
	}
	return out
}

// derives: does the value depend on the field of the wrapper read from?
func (r *wrapRead) derives(v ssa.Value, fr *frame, i int, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if namedOf(derefType(fa.X.Type())) == r.t && fa.Field == i {
				return true
			}
			return false
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, s := range valuesIn(al) {
				if r.derives(s, fr, i, depth+1) {
					return true
				}
			}
		}
		if namedOf(derefType(x.X.Type())) == r.t {
			return true // the whole wrapper
		}
	case *ssa.Field:
		return namedOf(x.X.Type()) == r.t && x.Field == i
	case *ssa.Parameter:
		if namedOf(derefType(x.Type())) == r.t || namedOf(x.Type()) == r.t {
			return true
		}
		if fr == nil || fr.call == nil {
			return false
		}
		for k, p := range fr.f.Params {
			if p == x && k < len(fr.call.Args) {
				return r.derives(fr.call.Args[k], fr.up, i, depth+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if r.derives(e, fr, i, depth+1) {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return r.derives(x.X, fr, i, depth+1)
	case *ssa.Extract:
		return r.derives(x.Tuple, fr, i, depth+1)
	case *ssa.Call:
		for _, arg := range x.Call.Args {
			if n := namedOf(arg.Type()); n == r.t {
				continue
			}
			if r.derives(arg, fr, i, depth+1) {
				return true
			}
		}
		if x.Call.IsInvoke() {
			return r.derives(x.Call.Value, fr, i, depth+1)
		}
	}
	return false
}
