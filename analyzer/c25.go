package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "a value that a nil constant, a failed look-up, a failed type test or a failed call can have produced must be shown not to be nil, on every path, before it is dereferenced, called, written to as a map, or given to a function that does so unconditionally", runC25)
}

func runC25(c *Ctx) {
	fs := c.Facts()
	needs := fs.needsNonnil()
	for _, f := range c.Funcs {
		a := fs.done[f]
		if a == nil || fs.exempt(f) || c.generated(f) {
			continue
		}
		a.walk(func(st *fstate, in ssa.Instruction) {
			for _, v := range derefs(in) {
				c.Count("dereferences", 1)
				c25judge(c, a, st, in, v, "is used")
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := call.Common().StaticCallee()
			if g == nil || !fs.open[g] {
				return
			}
			for i, pa := range g.Params {
				if i < len(call.Common().Args) && needs[pa] {
					c.Count("arguments", 1)
					c25judge(c, a, st, in, call.Common().Args[i], "is given to "+c.FuncName(g)+", which uses it unconditionally")
				}
			}
		})
	}
	c.Floor("dereferences", 1500)
	c.Floor("possibly nil", 150)
}

// derefs is what an instruction needs not to be nil.
func derefs(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return sources(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return sources(x.X)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return sources(x.X)
		}
	case *ssa.Store:
		return sources(x.Addr)
	case *ssa.MapUpdate:
		return sources(x.Map)
	case ssa.CallInstruction:
		cc := x.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil
		}
		if cc.IsInvoke() {
			return sources(cc.Value)
		}
		g := cc.StaticCallee()
		if g == nil {
			return sources(cc.Value)
		}
		if len(g.Blocks) == 0 && g.Signature.Recv() != nil && len(cc.Args) > 0 {
			if _, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				return sources(cc.Args[0])
			}
		}
	}
	return nil
}

// sources leaves out addresses of places, which are never nil themselves.
func sources(v ssa.Value) []ssa.Value {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar, *ssa.Function, *ssa.MakeClosure:
		return nil
	}
	return []ssa.Value{v}
}

func mayBeNil(x fact) bool {
	return !x.bot() && !x.has(fNonnil) && (x.has(fNil) || x.mask&tNilEv != 0)
}

func c25judge(c *Ctx, a *ffunc, st *fstate, in ssa.Instruction, v ssa.Value, what string) {
	x := a.get(st, v)
	if x.mask&tNilEv != 0 || a.nilSource(v) {
		c.Count("possibly nil", 1)
		c.Obligation("%s %s", c.PosString(in.Pos()), describeValue(v))
	}
	if !mayBeNil(x) {
		return
	}
	if l, ok := a.origin(st, v).(*ssa.Lookup); ok && !l.CommaOk && ownKey(l) {
		return // there is no nil in these maps
	}
	if a.pathwise(in, func(st *fstate) bool { return !mayBeNil(a.get(st, v)) || requiredAttr(a, st, v) }) {
		return
	}
	key := c.FuncName(a.f) + " " + describeValue(v)
	for fn, why := range c25Exceptions {
		if c.Within(a.f, fn[0]) && describeValue(v) == fn[1] {
			c.Exception(key + ": " + why)
			return
		}
	}
	c.Report("nil", fmt.Sprintf("%s %s", c.FuncName(a.f), describeValue(v)), in,
		fmt.Sprintf("%s can be nil here and %s", describeValue(v), what))
}

var c25Exceptions = map[[2]string]string{
	{"(*cmd/hclspecsuite.Runner).LoadTestFile", "the result of a look-up in hcl.Attributes"}: "there is a result only if the attribute was set",
	{"cmd/hcldec.realmain", "field specFileContent.RootSpec"}:                                "a specification file without a usable root is reported as an error, after which nothing is decoded",
}

// requiredAttr: the value is an attribute that the schema requires, of content
// that was obtained without errors.
func requiredAttr(a *ffunc, st *fstate, v ssa.Value) bool {
	l, ok := a.origin(st, v).(*ssa.Lookup)
	if !ok || l.CommaOk {
		return false
	}
	name, ok := l.Index.(*ssa.Const)
	if !ok || name.Value == nil || name.Value.Kind() != constant.String {
		return false
	}
	u, ok := isLoad(a.origin(st, l.X))
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa) != "BodyContent.Attributes" {
		return false
	}
	e, ok := a.origin(st, fa.X).(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	call, ok := e.Tuple.(*ssa.Call)
	if !ok || len(call.Call.Args) == 0 {
		return false
	}
	name2 := ""
	if call.Call.IsInvoke() {
		name2 = call.Call.Method.Name()
	} else if g := call.Call.StaticCallee(); g != nil {
		name2 = g.Name()
	}
	last := call.Call.Signature().Results().Len() - 1
	if name2 != "Content" && name2 != "PartialContent" {
		return false
	}
	d := extractOf(call, last)
	if d == nil || !a.isOK(st, d) {
		return false
	}
	return schemaRequires(call.Call.Args[len(call.Call.Args)-1], constant.StringVal(name.Value), 0)
}

// origin is the value that was stored in the local variable a value is read
// from.
func (a *ffunc) origin(st *fstate, v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if w := st.cell(fkey{al, "*"}); w != nil {
					v = w
					continue
				}
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Phi:
			if w := st.cell(fkey{x, ""}); w != nil {
				v = w
				continue
			}
		}
		break
	}
	return v
}

// schemaRequires: does every schema the value can be require the attribute?
func schemaRequires(v ssa.Value, name string, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			if !schemaRequires(e, name, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			for _, w := range globalStores(g) {
				if !schemaRequires(w, name, depth+1) {
					return false
				}
			}
			return len(globalStores(g)) > 0
		}
	case *ssa.Alloc:
		return literalRequires(x, x.Parent(), name)
	case *ssa.Global:
		if init := x.Pkg.Func("init"); init != nil {
			return literalRequires(x, init, name)
		}
	}
	return false
}

func globalStores(g *ssa.Global) []ssa.Value {
	var l []ssa.Value
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					l = append(l, s.Val)
				}
			}
		}
	}
	return l
}

// literalRequires looks for {Name: name, Required: true} in the schema built
// at an address.
func literalRequires(base ssa.Value, f *ssa.Function, name string) bool {
	elems := map[ssa.Value]bool{} // arrays of attribute schemata of this schema
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != base || fieldName(fa) != "BodySchema.Attributes" {
				continue
			}
			if sl, ok := s.Val.(*ssa.Slice); ok {
				elems[sl.X] = true
			}
		}
	}
	// elements are built in place or in a temporary that is copied
	parts := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if elems[in.X] {
					parts[in] = true
				}
			case *ssa.Store:
				if u, ok := isLoad(in.Val); ok && parts[in.Addr] {
					parts[u.X] = true
				}
			}
		}
	}
	names, required := map[ssa.Value]string{}, map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !parts[fa.X] {
				continue
			}
			c, ok := s.Val.(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			switch fieldName(fa) {
			case "AttributeSchema.Name":
				names[fa.X] = constant.StringVal(c.Value)
			case "AttributeSchema.Required":
				required[fa.X] = constant.BoolVal(c.Value)
			}
		}
	}
	for k, n := range names {
		if n == name && required[k] {
			return true
		}
	}
	return false
}

// nilSource: the value comes straight from something that can yield nil.
func (a *ffunc) nilSource(v ssa.Value) bool {
	return mayBeNil(a.intrinsic(newState(), v))
}

func describeValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Extract:
		return describeValue(x.Tuple)
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return "the result of " + x.Call.Method.Name()
		}
		if g := x.Call.StaticCallee(); g != nil {
			return "the result of " + g.Name()
		}
		return "the result of a call"
	case *ssa.Lookup:
		return "the result of a look-up in " + typeString(x.X.Type())
	case *ssa.TypeAssert:
		return "the result of a test for " + typeString(x.AssertedType)
	case *ssa.Parameter:
		return "parameter " + x.Name()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "field " + fieldName(fa)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			return "variable " + al.Comment
		}
	case *ssa.Phi:
		if x.Comment != "" {
			return "variable " + x.Comment
		}
	case *ssa.MakeInterface:
		return describeValue(x.X)
	case *ssa.ChangeInterface:
		return describeValue(x.X)
	}
	return "a value of type " + typeString(v.Type())
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// needsNonnil: the parameters a function dereferences without having
// established that they are not nil.
func (fs *facts) needsNonnil() map[*ssa.Parameter]bool {
	needs := map[*ssa.Parameter]bool{}
	for changed := true; changed; {
		changed = false
		for f, a := range fs.done {
			if fs.exempt(f) {
				continue
			}
			a.walk(func(st *fstate, in ssa.Instruction) {
				use := func(v ssa.Value) {
					pa, ok := a.valKey(st, v).root.(*ssa.Parameter)
					if !ok || needs[pa] || a.valKey(st, v).path != "" || !nilable(pa.Type()) {
						return
					}
					x := a.get(st, v)
					if !x.has(fNonnil) {
						needs[pa] = true
						changed = true
					}
				}
				for _, v := range derefs(in) {
					use(v)
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						for i, pa := range g.Params {
							if i < len(call.Common().Args) && needs[pa] {
								use(call.Common().Args[i])
							}
						}
					}
				}
			})
		}
	}
	return needs
}
