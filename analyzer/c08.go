package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "for every kind of expression and decoding specification, every part (access path) that evaluation or decoding evaluates must be among the parts whose variables are reported, under no narrower condition, without leaving loops early, and inside a scope that hides exactly the names evaluation binds there", runC08)
}

// treated is one place where a path is evaluated or has its variables
// reported.
type treated struct {
	path   string
	with   string // second path: the specification used for a body
	guards map[string]bool
	loops  int
	early  bool
	child  bool // in a child scope
	in     ssa.Instruction
}

type varsCheck struct {
	c       *Ctx
	expr    *types.Interface
	filters []nameFilter
}

func runC08(c *Ctx) {
	v := &varsCheck{c: c}
	en := c.LookupType("hcl", "Expression")
	if en == nil {
		c.Report("anchor", "Expression", nil, "interface hcl.Expression not found")
		return
	}
	v.expr = en.Underlying().(*types.Interface)
	for _, t := range c.Implementers(v.expr) {
		v.expression(t)
	}
	v.walker()
	v.specs()
	v.iterations()
	scopeHandedOn(c)
	c.Floor("expression types", 18)
	c.Floor("evaluated parts", 35)
	c.Floor("specification types", 12)
}

// method gives a method declared for the type itself.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{t, derefType(t), types.NewPointer(derefType(t))} {
		for i := 0; i < p.SSA.MethodSets.MethodSet(u).Len(); i++ {
			sel := p.SSA.MethodSets.MethodSet(u).At(i)
			if sel.Obj().Name() != name || len(sel.Index()) != 1 {
				continue
			}
			if f := p.SSA.FuncValue(sel.Obj().(*types.Func)); f != nil && len(f.Blocks) > 0 {
				return f
			}
		}
	}
	return nil
}

func (v *varsCheck) isExpr(t types.Type) bool {
	return types.Implements(t, v.expr) || types.Implements(types.NewPointer(t), v.expr)
}

func guardSet(e *pathEnv, in ssa.Instruction) map[string]bool {
	m := map[string]bool{}
	for _, g := range append(append([]string(nil), e.guard...), e.guards(in)...) {
		m[g] = true
	}
	return m
}

func (v *varsCheck) add(out *[]treated, e *pathEnv, in ssa.Instruction, val ssa.Value, with string, child bool) {
	// a wrapper made on the spot stands for what it wraps
	var paths []string
	if al, ok := val.(*ssa.Alloc); ok {
		if st, ok := derefType(al.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				paths = append(paths, e.fieldPathOnly(al, i)...)
			}
		}
		if len(paths) == 0 {
			paths = e.of(val)
		}
	} else {
		paths = e.of(val)
	}
	l, early := e.around(in)
	for _, p := range paths {
		*out = append(*out, treated{path: p, with: with, guards: guardSet(e, in), loops: l + e.loops, early: early || e.early, child: child, in: in})
	}
}

// fieldPathOnly: what a literal puts into a field, which may be another
// literal.
func (e *pathEnv) fieldPathOnly(al *ssa.Alloc, i int) []string {
	var out []string
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != i {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				val := st.Val
				if mi, ok := val.(*ssa.MakeInterface); ok {
					val = mi.X
				}
				if in, ok := val.(*ssa.Alloc); ok {
					if s, ok := derefType(in.Type()).Underlying().(*types.Struct); ok {
						for k := 0; k < s.NumFields(); k++ {
							out = append(out, e.fieldPathOnly(in, k)...)
						}
						continue
					}
				}
				out = append(out, e.of(val)...)
			}
		}
	}
	return out
}

func callee(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		return g.Name()
	}
	return ""
}

// evaluated: the parts that are evaluated, and the traversals looked up.
func (v *varsCheck) evaluated(f *ssa.Function) (parts, lookups []treated) {
	newPathEnv(v.c, f).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
		cc := call.Common()
		switch callee(cc) {
		case "Value":
			if len(args) == 2 && v.isExpr(args[0].Type()) {
				child := false
				if ps := e.of(args[1]); len(ps) != 1 || ps[0] != "p1" {
					child = true
				}
				if !v.constant(args[0].Type()) {
					v.add(&parts, e, call, args[0], "", child)
				}
			}
		case "TraverseAbs":
			v.add(&lookups, e, call, args[0], "", false)
		}
	})
	return parts, lookups
}

// constant: a type of expression that evaluates nothing else and looks up
// nothing in the scope.
func (v *varsCheck) constant(t types.Type) bool {
	if types.IsInterface(t) {
		return false
	}
	f := v.c.method(t, "Value")
	if f == nil {
		return false
	}
	ok := true
	newPathEnv(v.c, f).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
		if n := callee(call.Common()); n == "Value" || n == "TraverseAbs" {
			ok = false
		}
	})
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, k := in.(*ssa.FieldAddr); k && fieldOf(fa.X.Type(), fa.Field) == "Variables" {
				ok = false
			}
		}
	}
	return ok
}

// reported: the parts whose variables are reported.
func (v *varsCheck) reported(f *ssa.Function) (parts []treated) {
	newPathEnv(v.c, f).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
		if callee(call.Common()) == "Variables" && len(args) == 1 && v.isExpr(args[0].Type()) {
			v.add(&parts, e, call, args[0], "", false)
		}
	})
	return parts
}

// walked: the parts a node hands to the walk.
func (v *varsCheck) walked(f *ssa.Function) (parts []treated) {
	newPathEnv(v.c, f).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
		cc := call.Common()
		if cc.IsInvoke() || cc.StaticCallee() != nil || len(args) != 1 {
			return
		}
		if ps := e.of(cc.Value); len(ps) != 1 || ps[0] != "p1" {
			return
		}
		val := args[0]
		if mi, ok := val.(*ssa.MakeInterface); ok {
			if n, ok := mi.X.Type().(*types.Named); ok && n.Obj().Name() == "ChildScope" {
				if u, ok := isLoad(mi.X); ok {
					v.add(&parts, e, call, u.X, "", true)
					return
				}
			}
		}
		v.add(&parts, e, call, val, "", false)
	})
	return parts
}

func (v *varsCheck) expression(t types.Type) {
	c := v.c
	value := c.method(t, "Value")
	if value == nil || c.generated(value) {
		return
	}
	vars := c.method(t, "Variables")
	name := c.TypeName(derefType(t))
	c.Count("expression types", 1)
	ev, lookups := v.evaluated(value)
	if vars == nil {
		if len(ev)+len(lookups) > 0 && !v.promoted(t) {
			c.Report("variables", name, value, "the type evaluates parts but does not report variables")
		}
		return
	}
	var rep []treated
	walk := c.method(t, "walkChildNodes")
	if walk != nil {
		// the common walk has to start at this node
		ok := false
		newPathEnv(c, vars).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
			if e.up == nil && len(args) == 1 && e.one(args[0]) == "p0" {
				ok = true
			}
		})
		if !ok {
			c.Report("variables", name, vars, "variables are not collected from the node itself")
		}
		rep = v.walked(walk)
		v.scope(name, value, walk, ev, rep)
	} else {
		rep = v.reported(vars)
		if len(lookups) > 0 && len(rep) == 0 && returnsNothing(vars) {
			c.Report("variables", name, vars, "evaluation looks up a variable, but none is reported")
		}
	}
	v.compare(name, ev, rep, vars, "evaluated", "reported")
}

func (v *varsCheck) promoted(t types.Type) bool {
	ms := v.c.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Variables" {
			return len(ms.At(i).Index()) > 1
		}
	}
	return false
}

func returnsNothing(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !isNilConst(r.Results[0]) {
			return false
		}
	}
	return true
}

// compare: every path of a must be in b, at least as often.
func (v *varsCheck) compare(name string, a, b []treated, at *ssa.Function, did, want string) {
	c := v.c
	done := map[string]bool{}
	for _, x := range a {
		p := strings.ReplaceAll(x.path, "[:]", "")
		key := p
		if x.with != "" {
			key += " with " + x.with
		}
		if !done[key] {
			done[key] = true
			c.Count(did+" parts", 1)
			c.Obligation("%s: %s is %s", name, key, did)
		}
		found, bad := false, ""
		for _, y := range b {
			if y.path != p || y.with != x.with {
				continue
			}
			why := ""
			for g := range y.guards {
				if !x.guards[g] && !harmless(g, p) {
					why = fmt.Sprintf("only if %s", g)
				}
			}
			if x.loops > 0 && y.early && !x.early {
				why = "in a loop that can be left early"
			}
			if x.loops > 0 && y.loops == 0 && strings.Contains(p, "[]") {
				why = "for one element only"
			}
			if why == "" {
				found = true
			} else {
				bad = why
			}
		}
		switch {
		case found:
		case bad != "":
			c.Report("condition", name+" "+key, at, fmt.Sprintf("%s is %s, but %s %s", readable(key), did, want, bad))
		default:
			c.Report("missing", name+" "+key, at, fmt.Sprintf("%s is %s, but not %s", readable(key), did, want))
		}
	}
}

// harmless: the part is missing altogether, or the body is invalid so that
// decoding it fails anyway.
func harmless(g, path string) bool {
	return strings.Contains(g, ".HasErrors(") || g == "!("+path+"==nil)" || g == "!(nil=="+path+")" ||
		strings.HasPrefix(g, "!(") && strings.HasSuffix(g, "==nil)") && strings.HasPrefix(path, strings.TrimSuffix(strings.TrimPrefix(g, "!("), "==nil)")) ||
		strings.HasPrefix(g, "in(") && strings.HasPrefix(path, strings.SplitN(strings.TrimPrefix(g, "in("), ",", 2)[0])
}

func readable(p string) string {
	return strings.ReplaceAll(strings.ReplaceAll(p, "p0.", ""), "p1.", "")
}

// scope: the names hidden while a part is walked are those bound while it is
// evaluated.
func (v *varsCheck) scope(name string, value, walk *ssa.Function, ev, rep []treated) {
	c := v.c
	bound := mapKeys(c, value, "Variables")
	hidden := mapKeys(c, walk, "LocalNames")
	for _, p := range diff(hidden, bound) {
		c.Report("scope", name+" "+p, walk, readable(p)+" hides outer variables, but evaluation does not bind it")
	}
	for _, p := range diff(bound, hidden) {
		c.Report("scope", name+" "+p, walk, readable(p)+" is bound by evaluation, but references to it are reported")
	}
	if len(bound) > 0 {
		c.Count("scopes", 1)
	}
	if len(bound)+len(hidden) == 0 {
		return // a child scope without names is like the outer one
	}
	for _, x := range ev {
		for _, y := range rep {
			if x.path == y.path && x.child != y.child {
				if y.child {
					c.Report("scope", name+" "+x.path, x.in, readable(x.path)+" is evaluated outside the child scope, but its variables are reported inside it")
				} else {
					c.Report("scope", name+" "+x.path, x.in, readable(x.path)+" is evaluated in a child scope, but its variables are reported outside it")
				}
			}
		}
	}
}

// mapKeys: the paths of the names put into the map that is, or becomes, the
// named field.
func mapKeys(c *Ctx, f *ssa.Function, field string) map[string]bool {
	out := map[string]bool{}
	var visit func(g *ssa.Function, e *pathEnv)
	visit = func(g *ssa.Function, e *pathEnv) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if becomes(x.Map, field) {
						for _, p := range e.of(x.Key) {
							out[p] = true
						}
					}
				case *ssa.MakeClosure:
					h := x.Fn.(*ssa.Function)
					visit(h, e.enter(h, nil, in))
				}
			}
		}
	}
	visit(f, newPathEnv(c, f))
	return out
}

func becomes(m ssa.Value, field string) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == field {
				return true
			}
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if walk(ed) {
					return true
				}
			}
		}
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if fa, ok := r.Addr.(*ssa.FieldAddr); ok && r.Val == v && fieldOf(fa.X.Type(), fa.Field) == field {
					return true
				}
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, u := range *al.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && walk(ld) {
							return true
						}
					}
				}
			case *ssa.Phi:
				if walk(r) {
					return true
				}
			}
		}
		return false
	}
	return walk(m)
}

func diff(a, b map[string]bool) []string {
	var out []string
	for x := range a {
		if !b[x] {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

// walker: the walk that collects variables. What is pushed when a scope is
// entered is popped when it is left, and every traversal is looked for in all
// scopes.
func (v *varsCheck) walker() {
	c := v.c
	wt := c.LookupType("hcl/hclsyntax", "Walker")
	if wt == nil {
		c.Report("anchor", "Walker", nil, "interface hclsyntax.Walker not found")
		return
	}
	n := 0
	for _, t := range c.Implementers(wt.Underlying().(*types.Interface)) {
		enter, exit := c.method(t, "Enter"), c.method(t, "Exit")
		if enter == nil || exit == nil {
			continue
		}
		n++
		name := c.TypeName(derefType(t))
		push, pop := v.stack(enter, true), v.stack(exit, false)
		for _, p := range diff(push, pop) {
			c.Report("walker", name+" "+p, exit, p+": what is pushed on entry is not popped on exit")
		}
		for _, p := range diff(pop, push) {
			c.Report("walker", name+" "+p, enter, p+": what is popped on exit was not pushed on entry")
		}
		if len(push) == 0 {
			c.Report("walker", name, enter, "no scope is entered")
		}
		// traversals: reported unless the name is in one of the scopes
		asserted := map[string]bool{}
		called := false
		e := newPathEnv(c, enter)
		for _, b := range enter.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.TypeAssert:
					asserted[x.AssertedType.String()] = true
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					p := e.one(x.X)
					l, _ := e.around(in)
					if !strings.HasSuffix(p, "[]") || strings.Contains(p, "[:]") || l == 0 {
						c.Report("walker", name+" lookup", in, "the name is not looked for in every scope")
					}
				case *ssa.Call:
					if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
						called = true
						for g := range guardSet(e, in) {
							if !strings.HasPrefix(g, "is(") && !strings.HasPrefix(g, "!is(") && !strings.HasPrefix(g, "!in(") {
								c.Report("walker", name+" condition", in, "a traversal is reported only if "+g)
							}
						}
					}
				}
			}
		}
		if !called {
			c.Report("walker", name+" callback", enter, "no traversal is reported")
		}
		for _, t := range c.Implementers(v.expr) {
			value := c.method(t, "Value")
			if value == nil || c.method(t, "walkChildNodes") == nil {
				continue
			}
			if _, lookups := v.evaluated(value); len(lookups) > 0 && !asserted[t.String()] {
				c.Report("walker", name+" "+c.TypeName(derefType(t)), enter, "variables looked up by "+c.TypeName(derefType(t))+" are not reported")
			}
		}
	}
	// walks go on to the children of every node
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !call.Call.IsInvoke() || callee(&call.Call) != "walkChildNodes" {
					continue
				}
				if gs := guardSet(newPathEnv(c, f), in); len(gs) > 0 {
					c.Report("walk", c.FuncName(f), in, fmt.Sprintf("child nodes are visited only if %v", gs))
				}
				for _, g := range visitors(call.Call.Args[0]) {
					c.Count("walks", 1)
					e := newPathEnv(c, g)
					again := false
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if k, ok := in.(*ssa.Call); ok && len(k.Call.Args) > 0 && e.one(k.Call.Args[0]) == "p0" && len(guardSet(e, in)) == 0 {
								again = true
							}
						}
					}
					if !again {
						c.Report("walk", c.FuncName(g), g, "the walk does not go on from child nodes")
					}
				}
			}
		}
	}
	c.Floor("walks", 2)
	if n == 0 {
		c.Report("anchor", "walker", nil, "no implementation of hclsyntax.Walker found")
	}
}

func (v *varsCheck) stack(f *ssa.Function, push bool) map[string]bool {
	out := map[string]bool{}
	e := newPathEnv(v.c, f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			what := ""
			if push && appended(st.Val) {
				what = fieldOf(fa.X.Type(), fa.Field)
			}
			if sl, ok := st.Val.(*ssa.Slice); ok && !push && sl.Low == nil && sl.High != nil {
				what = fieldOf(fa.X.Type(), fa.Field)
			}
			if what == "" {
				continue
			}
			for g := range guardSet(e, in) {
				if strings.HasPrefix(g, "is(") {
					out[what+" "+g] = true
				}
			}
		}
	}
	return out
}

// specs compares decoding with the variables it needs.
func (v *varsCheck) specs() {
	c := v.c
	st := c.LookupType("hcldec", "Spec")
	if st == nil {
		c.Report("anchor", "Spec", nil, "interface hcldec.Spec not found")
		return
	}
	iface := st.Underlying().(*types.Interface)
	for _, t := range c.Implementers(iface) {
		dec, visit, vars := c.method(t, "decode"), c.method(t, "visitSameBodyChildren"), c.method(t, "variablesNeeded")
		if dec == nil || visit == nil {
			continue
		}
		name := c.TypeName(derefType(t))
		c.Count("specification types", 1)
		var ev, children []treated
		newPathEnv(c, dec).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
			cc := call.Common()
			switch {
			case callee(cc) == "Value" && len(args) == 2 && v.isExpr(args[0].Type()) && e.one(args[1]) == "p3":
				v.add(&ev, e, call, args[0], "", false)
			case cc.IsInvoke() && types.Identical(cc.Value.Type(), st):
				if callee(cc) == "decode" && e.one(args[1]) == "p1" {
					v.add(&children, e, call, args[0], "", false)
				}
			case callee(cc) == "decode" && len(args) == 5:
				v.add(&ev, e, call, args[0], e.one(args[3]), false)
			}
		})
		v.compare(name, children, v.walked(visit), visit, "decoded from the same body", "visited")
		var rep []treated
		if vars != nil {
			newPathEnv(c, vars).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
				cc := call.Common()
				if callee(cc) != "Variables" {
					return
				}
				if len(args) == 2 {
					v.add(&rep, e, call, args[0], e.one(args[1]), false)
				} else if len(args) == 1 {
					v.add(&rep, e, call, args[0], "", false)
				}
			})
			v.compare(name, ev, rep, vars, "evaluated", "reported")
		} else if len(ev) > 0 {
			c.Report("variables", name, dec, readable(ev[0].path)+" is evaluated, but the specification does not report variables")
		}
	}
	// visitors of nested specifications must go on to their children
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcldec" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || callee(&call.Call) != "visitSameBodyChildren" {
					continue
				}
				args := call.Call.Args
				for _, g := range visitors(args[len(args)-1]) {
					c.Count("visitors", 1)
					again := false
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if k, ok := in.(*ssa.Call); ok && callee(&k.Call) == "visitSameBodyChildren" {
								again = true
								e := newPathEnv(c, g)
								if gs := guardSet(e, in); len(gs) > 0 {
									c.Report("visit", c.FuncName(g), in, fmt.Sprintf("children are visited only if %v", gs))
								}
							}
						}
					}
					if !again {
						c.Report("visit", c.FuncName(g), g, "nested specifications are not visited")
					}
				}
			}
		}
	}
	c.Floor("visitors", 3)
	v.root(st)
}

// root: the variables of a body are those of the specification itself and of
// all nested ones on the same body.
func (v *varsCheck) root(spec types.Type) {
	c := v.c
	f := c.LookupFunc("hcldec", "Variables")
	if f == nil {
		c.Report("anchor", "hcldec.Variables", nil, "function not found")
		return
	}
	self, nested := false, false
	note := func(g *ssa.Function, e *pathEnv, want string) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				var recv ssa.Value
				if call.Call.IsInvoke() {
					recv = call.Call.Value
				} else if len(call.Call.Args) > 0 {
					recv = call.Call.Args[0]
				}
				if recv == nil || e.one(recv) != want {
					continue
				}
				n := callee(&call.Call)
				switch {
				case n == "variablesNeeded":
					for gd := range guardSet(e, in) {
						if !strings.HasPrefix(gd, "is(") {
							c.Report("condition", c.FuncName(g), in, "variables of a specification are reported only if "+gd)
						}
					}
					if g == f {
						self = true
					} else {
						nested = true
					}
				case n == "" && types.Identical(recv.Type(), spec):
					self = true
				}
			}
		}
	}
	note(f, newPathEnv(c, f), "p1")
	for _, g := range f.AnonFuncs {
		note(g, newPathEnv(c, g), "p0")
	}
	if !self {
		c.Report("missing", "root", f, "the variables of the specification itself are not reported")
	}
	if !nested {
		c.Report("missing", "nested", f, "the variables of nested specifications are not reported")
	}
}

// visitors: the functions a value can be.
func visitors(v ssa.Value) []*ssa.Function {
	seen := map[ssa.Value]bool{}
	var out []*ssa.Function
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, x)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			if vals, ok := storedIn(x.X); ok {
				for _, s := range vals {
					walk(s)
				}
			}
		}
	}
	walk(v)
	return out
}

// iterations: the names that generated blocks bind.
func (v *varsCheck) iterations() {
	c := v.c
	ctxT := c.LookupType("hcl", "EvalContext")
	if ctxT == nil {
		c.Report("anchor", "EvalContext", nil, "type hcl.EvalContext not found")
		return
	}
	const pkg = "ext/dynblock"
	// the methods that bind the names of an iteration
	bind := map[*ssa.Function]map[string]bool{}
	var owner types.Type
	for _, f := range c.Funcs {
		if c.PkgOf(f) != pkg || f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 || !types.Identical(derefType(f.Signature.Results().At(0).Type()), ctxT) {
			continue
		}
		if keys := mapKeys(c, f, "Variables"); len(keys) > 0 {
			bind[f] = keys
			owner = derefType(f.Signature.Recv().Type())
		}
	}
	if len(bind) != 1 {
		c.Report("anchor", "iteration", nil, fmt.Sprintf("%d functions bind the names of generated blocks, expected one", len(bind)))
		return
	}
	var binder *ssa.Function
	own, inherited := map[string]bool{}, map[string]bool{}
	for f, keys := range bind {
		binder = f
		for k := range keys {
			if strings.HasSuffix(k, "{}") {
				inherited[lastField(strings.TrimSuffix(k, "{}"))] = true
			} else {
				own[lastField(k)] = true
			}
		}
	}
	// what a nested iteration inherits is what was bound around it
	for _, f := range c.Funcs {
		if c.PkgOf(f) != pkg || f.Signature.Recv() == nil || !types.Identical(derefType(f.Signature.Recv().Type()), owner) || f.Signature.Results().Len() != 1 || !types.Identical(derefType(f.Signature.Results().At(0).Type()), owner) {
			continue
		}
		for inh := range inherited {
			got := mapKeys(c, f, inh)
			for _, p := range diff(bind[binder], got) {
				c.Report("inherit", c.FuncName(f)+" "+p, f, readable(p)+" is bound around nested blocks, but not inherited by them")
			}
			c.Count("inheritances", 1)
		}
	}
	// attributes of dynamic blocks that are evaluated before anything is bound
	outer, evaluated, reported := map[string]bool{}, map[string]bool{}, map[string]bool{}
	attr := func(p string) string {
		i := strings.LastIndex(p, ".Attributes[\"")
		if i < 0 {
			return ""
		}
		return strings.SplitN(p[i+len(".Attributes[\""):], "\"", 2)[0]
	}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != pkg {
			continue
		}
		e := newPathEnv(c, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					v.iterationStore(f, e, x, owner, ctxT, binder)
				case *ssa.Call:
					args := x.Call.Args
					if x.Call.IsInvoke() {
						args = append([]ssa.Value{x.Call.Value}, args...)
					}
					if len(args) == 0 || !v.isExpr(args[0].Type()) {
						continue
					}
					k := attr(e.one(args[0]))
					switch callee(&x.Call) {
					case "Value":
						if k != "" {
							evaluated[k] = true
							if !strings.Contains(e.one(args[1]), "."+binder.Name()+"(") {
								outer[k] = true
							}
						}
					case "ExprList", "ExprMap":
						if k != "" {
							evaluated[k] = true
						}
					case "Variables":
						if k != "" {
							reported[k] = true
							for g := range guardSet(e, in) {
								if strings.Contains(g, "nil") || strings.Contains(g, "in(") || strings.Contains(g, "len(") || strings.Contains(g, "==\"dynamic\"") || strings.Contains(g, "\"dynamic\"==") {
									continue
								}
								c.Report("condition", c.FuncName(f)+" "+k, in, fmt.Sprintf("the variables of %q are reported only if %s", k, g))
							}
						}
						v.filter(f, e, x, k, own, inherited, outer)
					}
				}
			}
		}
	}
	for k := range evaluated {
		c.Count("attributes of dynamic blocks", 1)
		if !reported[k] {
			c.Report("missing", "dynamic "+k, nil, fmt.Sprintf("%q of dynamic blocks is evaluated, but its variables are not reported", k))
		}
	}
	// filters of attributes evaluated outside the iteration
	for _, x := range v.filters {
		if x.own && outer[x.attr] {
			c.Report("filter", c.FuncName(x.f)+" "+x.attr, x.in, fmt.Sprintf("%q is evaluated outside the iteration, but references to the name of the iterator are left out", x.attr))
		}
	}
	c.Floor("attributes of dynamic blocks", 2)
	c.Floor("filters", 3)
	c.Floor("nested iterations", 2)
}

func lastField(p string) string { return p[strings.LastIndex(p, ".")+1:] }

type nameFilter struct {
	f    *ssa.Function
	in   ssa.Instruction
	attr string
	own  bool
}

// filter: traversals are left out only if their root name is one that the
// iteration binds.
func (v *varsCheck) filter(f *ssa.Function, e *pathEnv, vars *ssa.Call, attr string, own, inherited, outer map[string]bool) {
	c := v.c
	for _, l := range loopsOf(f) {
		iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if seq, _ := lenOf(cmp.Y); seq == nil || !derivesFrom(seq, vars) {
			continue
		}
		c.Obligation("%s: references of %q are left out by name only", c.FuncName(f), attr)
		for b := range l.blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if ok && b != l.header && !byName(iff.Cond, map[ssa.Value]bool{}) {
				c.Report("filter", c.FuncName(f)+" other", At(iff.Cond.Pos()), "references are left out by something else than their name")
			}
		}
	}
	root := func(x ssa.Value) bool {
		call, ok := plainValue(x).(*ssa.Call)
		if !ok || callee(&call.Call) != "RootName" || len(call.Call.Args) == 0 {
			return false
		}
		return derivesFrom(call.Call.Args[0], vars)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				var other ssa.Value
				if root(x.X) {
					other = x.Y
				} else if root(x.Y) {
					other = x.X
				} else {
					continue
				}
				c.Count("filters", 1)
				v.filters = append(v.filters, nameFilter{f, in, attr, true})
				ok := false
				if u, l := isLoad(other); l {
					if fa, k := u.X.(*ssa.FieldAddr); k && own[fieldOf(fa.X.Type(), fa.Field)] {
						ok = true
					}
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if call, k := in.(*ssa.Call); k {
							for _, a := range call.Call.Args {
								if a == other {
									ok = true // the name given to the iteration
								}
							}
						}
					}
				}
				if !ok {
					c.Report("filter", c.FuncName(f)+" name", in, "references are left out by a name that the iteration does not bind")
				}
			case *ssa.Lookup:
				if !root(x.Index) {
					continue
				}
				c.Count("filters", 1)
				v.filters = append(v.filters, nameFilter{f, in, attr, false})
				p := e.one(x.X)
				ok := false
				for i := range inherited {
					if strings.HasSuffix(p, "."+i) {
						ok = true
					}
				}
				if !ok {
					c.Report("filter", c.FuncName(f)+" set", in, "references are left out by names that the iteration does not bind")
				}
			}
		}
	}
}

// derivesFrom: the value is, or is an element of, the other one.
func derivesFrom(v, src ssa.Value) bool {
	for i := 0; i < 12; i++ {
		if v == src {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if vals, ok := storedIn(x.X); ok && len(vals) == 1 {
				v = vals[0]
				continue
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			vals, ok := storedIn(x)
			if !ok || len(vals) != 1 {
				return false
			}
			v = vals[0]
		default:
			return false
		}
	}
	return false
}

// iterationStore: a body that gets an iteration also gets the scope in which
// the names of that iteration are bound.
func (v *varsCheck) iterationStore(f *ssa.Function, e *pathEnv, st *ssa.Store, owner, ctxT types.Type, binder *ssa.Function) {
	c := v.c
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !types.Identical(derefType(derefType(fa.Type())), owner) || isNilConst(st.Val) {
		return
	}
	str := derefType(fa.X.Type()).Underlying().(*types.Struct)
	ctxField := -1
	for i := 0; i < str.NumFields(); i++ {
		if types.Identical(derefType(str.Field(i).Type()), ctxT) {
			ctxField = i
		}
	}
	if ctxField < 0 {
		return
	}
	c.Count("nested iterations", 1)
	it := e.one(st.Val)
	var scopes []string
	switch base := fa.X.(type) {
	case *ssa.Alloc:
		scopes = e.fieldPathOnly(base, ctxField)
	case *ssa.TypeAssert:
		if call, ok := base.X.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				if types.Identical(derefType(a.Type()), ctxT) {
					scopes = append(scopes, e.of(a)...)
				}
			}
		}
	default:
		return
	}
	for _, s := range scopes {
		if strings.HasPrefix(s, it+"."+binder.Name()+"(") {
			continue
		}
		i := strings.LastIndex(it, ".")
		if i > 0 && s == it[:i]+"."+str.Field(ctxField).Name() {
			continue
		}
		c.Report("nested", c.FuncName(f), st, "nested bodies refer to the iteration, but are expanded in a scope that does not bind its names")
	}
}

// byName: a condition is about a name being the same as another or among others.
func byName(cond ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[cond] {
		return true
	}
	seen[cond] = true
	switch x := cond.(type) {
	case *ssa.Const, *ssa.Lookup:
		return true
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !byName(ed, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return x.Op != token.NOT || byName(x.X, seen)
	case *ssa.BinOp:
		if seq, k := lenOf(x.X); seq != nil && k == 0 {
			n, ok := constInt(x.Y)
			return ok && n == 0 // nothing to report
		}
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if isNilConst(x.X) || isNilConst(x.Y) {
			return true
		}
		_, plain := x.Y.(*ssa.Const)
		_, plainX := x.X.(*ssa.Const)
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric == 0 && !plain && !plainX
	case *ssa.Extract:
		switch x.Tuple.(type) {
		case *ssa.Lookup, *ssa.Next:
			return true
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "strings" // parts of names
	}
	return false
}
