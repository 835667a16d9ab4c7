package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "for every kind of specification, what its methods do is compared by access paths and by terms for value types: items read with items in the schema, nested specifications and labels in decoding, schema and source ranges, the type of every value returned with the implied type, limits with the errors that enforce them, and registration for serialisation", runC17)
}

const decPkg = "hcldec"

func runC17(c *Ctx) {
	st := c.LookupType(decPkg, "Spec")
	if st == nil {
		c.Report("anchor", "Spec", nil, "interface hcldec.Spec not found")
		return
	}
	registered := gobTypes(c)
	for _, t := range c.Implementers(st.Underlying().(*types.Interface)) {
		n, ok := derefType(t).(*types.Named)
		if !ok || relPkg(n.Obj().Pkg()) != decPkg {
			continue
		}
		s := &specCheck{c: c, t: t, named: n, name: c.TypeName(n)}
		s.dec, s.implied, s.src = c.method(t, "decode"), c.method(t, "impliedType"), c.method(t, "sourceRange")
		s.attrs, s.blocks, s.nested = c.method(t, "attrSchemata"), c.method(t, "blockHeaderSchemata"), c.method(t, "nestedSpec")
		if s.dec == nil || s.implied == nil {
			continue
		}
		if _, isPtr := t.(*types.Pointer); isPtr && s.dec.Signature.Recv() != nil {
			if _, ok := s.dec.Signature.Recv().Type().(*types.Pointer); !ok {
				continue // seen as a value type
			}
		}
		c.Count("kinds of specification", 1)
		if token.IsExported(n.Obj().Name()) {
			c.Obligation("%s is registered for serialisation", s.name)
			if !registered[t.String()] {
				c.Report("register", s.name, s.dec, "specifications of this kind cannot be serialised: the type is not registered")
			}
		}
		s.schema()
		s.filter(s.dec)
		s.filter(s.src)
		s.filter(c.method(t, "variablesNeeded"))
		s.nesting()
		s.types()
		s.limits()
		s.fields()
	}
	c17entry(c)
	decodedValues(c, func(pkg string) bool { return pkg == decPkg })
	c.Floor("values gathered", 4)
	c.Floor("kinds of specification", 12)
	c.Floor("items read", 6)
	c.Floor("nested decodings", 5)
	c.Floor("result types compared", 25)
	c.Floor("blocks selected", 8)
	c.Floor("limits", 8)
}

type specCheck struct {
	c                            *Ctx
	t                            types.Type
	named                        *types.Named
	name                         string
	dec, implied, src            *ssa.Function
	attrs, blocks, nested        *ssa.Function
	readAttrs, readBlocks, below map[string]bool
}

// gobTypes: the types registered for serialisation when the package is loaded.
func gobTypes(c *Ctx) map[string]bool {
	out := map[string]bool{}
	for _, f := range c.AllFuncs() {
		if c.PkgOf(f) != decPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/gob" || !strings.HasPrefix(g.Name(), "Register") {
					continue
				}
				if mi, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.MakeInterface); ok {
					out[mi.X.Type().String()] = true
				} else if registersAll(call.Call.Args[len(call.Call.Args)-1]) {
					for _, t := range madeInterfaces(f) {
						out[t.String()] = true
					}
				}
			}
		}
	}
	return out
}

// registersAll: the argument is an element of a list gone through.
func registersAll(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.IndexAddr)
		return ok
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.ChangeInterface:
		return registersAll(x.X)
	}
	return false
}

func madeInterfaces(f *ssa.Function) []types.Type {
	var out []types.Type
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				out = append(out, mi.X.Type())
			}
		}
	}
	return out
}

// each visits every instruction of a function and of the functions of its
// package that it calls, with paths from the parameters of the first one.
func (e *pathEnv) each(visit func(e *pathEnv, in ssa.Instruction)) {
	if e.depth() > 6 {
		return
	}
	live := liveBlocks(e.f)
	for _, b := range e.f.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			visit(e, in)
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if g := mc.Fn.(*ssa.Function); !e.inside(g) {
					e.enter(g, nil, in).each(visit)
				}
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := call.Common().StaticCallee()
			if g == nil || e.c.generated(g) || len(g.Blocks) == 0 || e.inside(g) || g.Parent() != nil {
				continue
			}
			if e.c.InRepo(g) && e.c.PkgOf(g) == e.c.PkgOf(e.f) {
				e.enter(g, call.Common().Args, in).each(visit)
			}
		}
	}
}

// liveBlocks: the blocks that are not cut off by constant conditions.
func liveBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, ok := iff.Cond.(*ssa.Const); ok && k.Value != nil {
				if k.Value.String() == "true" {
					visit(b.Succs[0])
				} else {
					visit(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	if len(f.Blocks) > 0 {
		visit(f.Blocks[0])
	}
	if f.Recover != nil {
		visit(f.Recover)
	}
	return live
}

// filter: of the blocks in the content only those of the type in question are
// used.
func (s *specCheck) filter(f *ssa.Function) {
	c := s.c
	if f == nil {
		return
	}
	newPathEnv(c, f).each(func(e *pathEnv, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || e.one(u) != "p1.Blocks[]" || u.Referrers() == nil {
			return
		}
		c.Count("blocks selected", 1)
		same := []*ssa.If{}
		eq := map[*ssa.If]int{}
		uses := map[ssa.Instruction]bool{}
		live := liveBlocks(e.f)
		for _, b := range e.f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !live[b] {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
				continue
			}
			for _, o := range []ssa.Value{cmp.X, cmp.Y} {
				l, ok := isLoad(o)
				if !ok {
					continue
				}
				fa, ok := l.X.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(u) || fieldOf(fa.X.Type(), fa.Field) != "Type" {
					continue
				}
				other := cmp.X
				if o == cmp.X {
					other = cmp.Y
				}
				if !strings.HasPrefix(e.one(other), "p0.") {
					continue
				}
				uses[fa] = true
				same = append(same, iff)
				if cmp.Op == token.NEQ {
					eq[iff] = 1
				}
			}
		}
		guarded := func(b, to *ssa.BasicBlock) bool {
			for _, iff := range same {
				t := iff.Block().Succs[eq[iff]]
				if t == to && b == iff.Block() || len(t.Preds) == 1 && t.Dominates(b) {
					return true
				}
			}
			return false
		}
		for _, r := range *u.Referrers() {
			if uses[r] {
				continue
			}
			ok := true
			if phi, isPhi := r.(*ssa.Phi); isPhi {
				for i, ed := range phi.Edges {
					if ed == ssa.Value(u) && live[phi.Block().Preds[i]] && !guarded(phi.Block().Preds[i], phi.Block()) {
						ok = false
					}
				}
			} else if live[r.Block()] {
				ok = guarded(r.Block(), nil)
			}
			if fa, isField := r.(*ssa.FieldAddr); isField && fieldOf(fa.X.Type(), fa.Field) == "Type" {
				ok = true
			}
			if !ok {
				c.Report("filter", s.name+" "+f.Name(), r, "a block is used although it may be of another type")
				return
			}
		}
	})
}

// schema: the items read from the content are those in the schema.
func (s *specCheck) schema() {
	c := s.c
	s.readAttrs, s.readBlocks = map[string]bool{}, map[string]bool{}
	newPathEnv(c, s.dec).each(func(e *pathEnv, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Lookup:
			if e.one(x.X) == "p1.Attributes" {
				s.readAttrs[e.one(x.Index)] = true
				c.Count("items read", 1)
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return
			}
			l, r := e.one(x.X), e.one(x.Y)
			if l == "p1.Blocks[].Type" {
				l, r = r, l
			}
			if r == "p1.Blocks[].Type" && strings.HasPrefix(l, "p0") {
				s.readBlocks[l] = true
				c.Count("items read", 1)
			}
		}
	})
	names := s.literal(s.attrs, "AttributeSchema", "Name")
	s.compare("attributes", s.readAttrs, names, s.attrs)
	s.compare("blocks", s.readBlocks, s.literal(s.blocks, "BlockHeaderSchema", "Type"), s.blocks)
	if len(s.readAttrs) > 0 && s.attrs != nil && s.hasField("Required") {
		if req := s.literal(s.attrs, "AttributeSchema", "Required"); keysText(req) != "p0.Required" {
			c.Report("schema", s.name+" Required", s.attrs, "whether the attribute is required is not what the specification says")
		}
	}
}

func (s *specCheck) compare(what string, read, asked map[string]bool, at *ssa.Function) {
	c := s.c
	c.Obligation("%s: %s read %s, asked for %s", s.name, what, keysText(read), keysText(asked))
	if keysText(read) == keysText(asked) {
		return
	}
	if at == nil {
		at = s.dec
	}
	c.Report("schema", s.name+" "+what, at, fmt.Sprintf("the %s read are %s, but the schema asks for %s", what, list(read), list(asked)))
}

func list(m map[string]bool) string {
	if len(m) == 0 {
		return "none"
	}
	return readable(keysText(m))
}

func (s *specCheck) hasField(name string) bool {
	st, ok := s.named.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// literal: the values given to a field of schema literals.
func (s *specCheck) literal(f *ssa.Function, typ, field string) map[string]bool {
	out := map[string]bool{}
	if f == nil {
		return out
	}
	newPathEnv(s.c, f).each(func(e *pathEnv, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fieldOf(fa.X.Type(), fa.Field) != field {
			return
		}
		if n, ok := derefType(fa.X.Type()).(*types.Named); ok && n.Obj().Name() == typ {
			for _, p := range e.parts(st.Val) {
				out[p] = true
			}
		}
	})
	return out
}

// parts: the paths of what a list was put together from.
func (e *pathEnv) parts(v ssa.Value) []string {
	if call, ok := v.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return append(append([]string(nil), e.parts(call.Call.Args[0])...), e.parts(call.Call.Args[1])...)
		}
	}
	if sl, ok := v.(*ssa.Slice); ok {
		if n, ok := constInt(sl.Low); sl.Low == nil || ok && n == 0 {
			if sl.High == nil || strings.HasSuffix(e.one(sl.High), ".len()") {
				return e.parts(sl.X)
			}
		}
	}
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return nil
		}
		return []string{k.Value.ExactString()}
	}
	return e.of(v)
}

type nestedUse struct {
	spec, labels, body, partial string
	at                          ssa.Instruction
	many                        bool
}

// labelsSkipped: which of the labels of a block are left out.
func labelsSkipped(e *pathEnv, v ssa.Value) string {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return ""
	}
	if sl.High != nil {
		return "other"
	}
	if sl.Low == nil {
		return ""
	}
	return e.one(sl.Low)
}

// nesting: nested specifications are used with the same labels and bodies in
// decoding, schema, and source ranges.
func (s *specCheck) nesting() {
	c := s.c
	uses := func(f *ssa.Function, callName string, specAt, labelsAt int) []nestedUse {
		var out []nestedUse
		if f == nil {
			return nil
		}
		newPathEnv(c, f).calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
			cc := call.Common()
			if cc.IsInvoke() || callee(cc) != callName || cc.StaticCallee() == nil || cc.StaticCallee().Signature.Recv() != nil || len(args) <= specAt || e.f != f {
				return
			}
			u := nestedUse{spec: e.one(args[specAt]), labels: labelsSkipped(e, args[labelsAt]), body: e.one(args[0]), at: call}
			if specAt == 3 && len(args) > 4 {
				if k, ok := args[4].(*ssa.Const); ok {
					u.partial = k.Value.String()
				} else {
					u.partial = "?"
				}
			}
			out = append(out, u)
		})
		return out
	}
	dec := uses(s.dec, "decode", 3, 1)
	src := uses(s.src, "sourceRange", 2, 1)
	if len(dec) == 0 {
		return
	}
	c.Count("nested decodings", len(dec))
	d := dec[0]
	for _, u := range dec {
		if u.partial != "false" {
			c.Report("nested", s.name, u.at, "a nested block is decoded only in part, so other items in it are not reported")
		}
		if u.body != "p1.Blocks[].Body" {
			c.Report("nested", s.name+" body", u.at, "the body of the nested block is not the one decoded")
		}
		if u.spec != d.spec || u.labels != d.labels {
			c.Report("nested", s.name+" labels", u.at, "blocks are decoded with different specifications or labels")
		}
	}
	for _, u := range src {
		c.Obligation("%s: source range uses labels %q as decoding does", s.name, d.labels)
		if u.spec != d.spec {
			c.Report("nested", s.name+" range", u.at, "the source range is that of another specification than the one decoded")
		}
		if u.labels != d.labels {
			c.Report("nested", s.name+" range", u.at, "the labels used to find the source range are not those used for decoding")
		}
	}
	if s.nested != nil {
		e := newPathEnv(c, s.nested)
		for _, b := range s.nested.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && e.one(ret.Results[0]) != d.spec {
				c.Report("nested", s.name+" spec", ret, "the nested specification reported is not the one decoded with")
			}
		}
	} else {
		c.Report("nested", s.name+" spec", s.dec, "the nested specification is not reported")
	}
	if s.blocks != nil {
		want := map[string]bool{d.spec + ".findLabelSpecs()": true}
		labels := s.literal(s.blocks, "BlockHeaderSchema", "LabelNames")
		got := map[string]bool{}
		for p := range labels {
			if strings.HasPrefix(p, d.spec+".") && strings.HasSuffix(p, ")") {
				p = d.spec + ".findLabelSpecs()"
			}
			got[strings.TrimSuffix(p, "[:]")] = true
		}
		if d.labels != "" {
			want[strings.TrimSuffix(d.labels, ".len()")] = true
		}
		c.Obligation("%s: labels %s", s.name, keysText(got))
		if keysText(want) != keysText(got) {
			c.Report("labels", s.name, s.blocks, fmt.Sprintf("blocks are decoded with the labels %s, but the schema asks for %s", list(want), list(got)))
		}
	}
}

// Terms for types.
//
// The type of a value is described by how it was made: List(T) for a list
// with elements of type T, implied(p) for the implied type of the
// specification at a path, and so on; _ stands for any type, dyn for the
// value that can stand for anything.

type termEnv struct {
	c     *Ctx
	e     *pathEnv
	seen  map[ssa.Value]bool
	funcs map[*ssa.Function]bool
}

func ctor(name string) string {
	switch {
	case strings.HasPrefix(name, "List"):
		return "List"
	case strings.HasPrefix(name, "Set"):
		return "Set"
	case strings.HasPrefix(name, "Map"):
		return "Map"
	case strings.HasPrefix(name, "Tuple"):
		return "Tuple"
	case strings.HasPrefix(name, "Object"):
		return "Object"
	}
	return ""
}

func isCty(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "go-cty/cty")
}

func cross(name string, args []string) []string {
	var out []string
	for _, a := range args {
		out = append(out, name+"("+a+")")
	}
	return out
}

// terms gives the terms of a value of type cty.Type or cty.Value.
func (t *termEnv) terms(v ssa.Value) []string {
	if t.seen[v] {
		return nil
	}
	t.seen[v] = true
	defer delete(t.seen, v)
	switch x := v.(type) {
	case *ssa.Phi:
		var out []string
		for _, ed := range x.Edges {
			out = append(out, t.terms(ed)...)
		}
		// a level of a collection for each round of a loop
		for _, l := range loopsOf(x.Parent()) {
			if l.header != x.Block() {
				continue
			}
			for i, ed := range x.Edges {
				if !l.blocks[x.Block().Preds[i]] {
					continue
				}
				if call, ok := ed.(*ssa.Call); ok && isCty(call.Call.StaticCallee()) && len(call.Call.Args) == 1 && call.Call.Args[0] == ssa.Value(x) {
					over := rangedOver(l)
					n := "?"
					if over != nil {
						n = t.e.one(over)
					}
					var base []string
					for j, b := range x.Edges {
						if j != i {
							base = append(base, t.terms(b)...)
						}
					}
					return cross(call.Call.StaticCallee().Name()+"^"+n, base)
				}
			}
		}
		return uniqPaths(out)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			switch g.Name() {
			case "DynamicVal":
				return []string{"dyn"}
			case "DynamicPseudoType":
				return []string{"any"}
			case "EmptyTupleVal", "EmptyTuple":
				return []string{"Tuple(_)"}
			case "EmptyObjectVal", "EmptyObject":
				return []string{"Object(_)"}
			}
			return []string{g.Name()}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			var out []string
			if vals, ok := storedIn(al); ok {
				for _, s := range vals {
					out = append(out, t.terms(s)...)
				}
				return uniqPaths(out)
			}
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return cross("element", []string{t.e.one(ia.X)})
		}
		return t.named(v)
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return t.named(v)
		}
		if ts := t.call(call, x.Index); ts != nil {
			return ts
		}
		return t.named(v)
	case *ssa.Call:
		if ts := t.call(x, 0); ts != nil {
			return ts
		}
		return t.named(v)
	}
	return t.named(v)
}

func (t *termEnv) named(v ssa.Value) []string {
	ps := t.e.of(v)
	if len(ps) == 0 {
		return []string{"?"}
	}
	if n, ok := v.Type().(*types.Named); ok && n.Obj().Name() == "Value" {
		return cross("typeof", ps)
	}
	return ps
}

func (t *termEnv) call(x *ssa.Call, i int) []string {
	g := x.Call.StaticCallee()
	name := callee(&x.Call)
	args := x.Call.Args
	if x.Call.IsInvoke() {
		switch name {
		case "impliedType", "decode":
			return cross("implied", t.e.of(x.Call.Value))
		case "Value":
			return cross("result", t.e.of(x.Call.Value))
		}
		return nil
	}
	if g == nil {
		// a function literal
		var out []string
		for _, h := range visitors(x.Call.Value) {
			out = append(out, t.results(h, x, i)...)
		}
		return uniqPaths(out)
	}
	if isCty(g) {
		recv := g.Signature.Recv()
		if recv != nil {
			switch name {
			case "Type":
				return t.terms(args[0])
			case "ElementType":
				var out []string
				for _, s := range t.terms(args[0]) {
					out = append(out, elementOf(s))
				}
				return out
			}
			return nil
		}
		switch {
		case name == "NullVal" || name == "UnknownVal":
			return t.terms(args[0])
		case strings.HasSuffix(name, "ValEmpty"):
			return cross(ctor(name), t.terms(args[0]))
		case strings.HasSuffix(name, "Val") && ctor(name) != "":
			return []string{ctor(name) + "(_)"}
		case name == "StringVal":
			return []string{"String"}
		case name == "BoolVal":
			return []string{"Bool"}
		case strings.HasPrefix(name, "Number") && strings.HasSuffix(name, "Val"):
			return []string{"Number"}
		case name == "Object" || name == "Tuple":
			return []string{name + "(_)"}
		case ctor(name) == name:
			return cross(name, t.terms(args[0]))
		}
		return nil
	}
	if g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "cty/convert") && name == "Convert" && i == 0 {
		return t.terms(args[1])
	}
	if g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "cty/function") && (name == "Call" || name == "ReturnType") && i == 0 {
		return cross("result", t.e.of(args[0]))
	}
	if t.c.PkgOf(g) == decPkg {
		switch {
		case g.Signature.Recv() == nil && (name == "decode" || name == "ImpliedType" || name == "impliedType"):
			for k, p := range g.Params {
				if strings.HasSuffix(p.Type().String(), "hcldec.Spec") {
					if mi, ok := args[k].(*ssa.MakeInterface); ok && t.e.one(mi.X) == "p0" {
						if h := t.c.method(mi.X.Type(), "impliedType"); h != nil {
							return t.results(h, x, i)
						}
					}
					return cross("implied", t.e.of(args[k]))
				}
			}
		}
		return t.results(g, x, i)
	}
	return nil
}

// results: the terms of what a function returns.
func (t *termEnv) results(g *ssa.Function, at *ssa.Call, i int) []string {
	if t.funcs[g] || len(g.Blocks) == 0 {
		return nil
	}
	t.funcs[g] = true
	defer delete(t.funcs, g)
	n := &termEnv{c: t.c, e: t.e.enter(g, at.Call.Args, at), seen: map[ssa.Value]bool{}, funcs: t.funcs}
	var out []string
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			out = append(out, n.terms(ret.Results[i])...)
		}
	}
	return uniqPaths(out)
}

// elementOf takes one level off a collection type.
func elementOf(s string) string {
	i := strings.Index(s, "(")
	if i < 0 {
		return "_"
	}
	head, rest := s[:i], s[i+1:len(s)-1]
	if j := strings.Index(head, "^"); j >= 0 {
		return head + "-1(" + rest + ")"
	}
	return rest
}

// sameTerm compares two terms; _ is anything.
func sameTerm(a, b string) bool {
	if a == b || a == "_" || b == "_" || a == "dyn" || a == "any" && b == "dyn" {
		return true
	}
	i, j := strings.Index(a, "("), strings.Index(b, "(")
	if i < 0 || j < 0 {
		return false
	}
	ha, hb := a[:i], b[:j]
	ra, rb := a[i+1:len(a)-1], b[j+1:len(b)-1]
	if strings.Contains(hb, "^") && !strings.Contains(ha, "^") {
		// Map(Map^n-1(x)) is Map^n(x)
		k := strings.Index(hb, "^")
		if ha != hb[:k] {
			return false
		}
		return sameTerm(ra, hb+"-1("+rb+")")
	}
	return ha == hb && (ra == rb || sameTerm(ra, rb))
}

// types: every value returned has the implied type.
func (s *specCheck) types() {
	c := s.c
	get := func(f *ssa.Function) []string {
		t := &termEnv{c: c, e: newPathEnv(c, f), seen: map[ssa.Value]bool{}, funcs: map[*ssa.Function]bool{f: true}}
		var out []string
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, t.terms(ret.Results[0])...)
			}
		}
		return uniqPaths(out)
	}
	want := get(s.implied)
	f := s.dec
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		t := &termEnv{c: c, e: newPathEnv(c, f), seen: map[ssa.Value]bool{}, funcs: map[*ssa.Function]bool{f: true}}
		for _, g := range uniqPaths(t.terms(ret.Results[0])) {
			c.Count("result types compared", 1)
			c.Obligation("%s: %s is %s", s.name, g, strings.Join(want, " or "))
			found := g == "dyn" && (len(want) == 1 && want[0] == "any" || afterError(b))
			for _, w := range want {
				if g != "dyn" && (w == "any" || sameTerm(g, w)) {
					found = true
				}
			}
			if !found && s.default_(g) {
				c.Exception(s.name + ": the alternative is documented to have the same type as the primary specification")
				found = true
			}
			if !found {
				c.Report("type", s.name+" "+g, ret, fmt.Sprintf("a value of type %s is returned, but the implied type is %s", readable(g), readable(strings.Join(want, " or "))))
			}
		}
	}
}

// afterError: an error was made before.
func afterError(b *ssa.BasicBlock) bool {
	for ; b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && strings.HasSuffix(al.Type().String(), "hcl.Diagnostic") {
				return true
			}
		}
	}
	return false
}

// default_: the value of another nested specification on the same body, used
// when the first is null.
func (s *specCheck) default_(g string) bool {
	if !strings.HasPrefix(g, "implied(p0.") || s.hasField("Nested") {
		return false
	}
	st, ok := s.named.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return false
	}
	for i := 0; i < 2; i++ {
		if !strings.HasSuffix(st.Field(i).Type().String(), "hcldec.Spec") {
			return false
		}
	}
	return true
}

// limits: the number of blocks and the presence of items that a specification
// demands are enforced by errors.
func (s *specCheck) limits() {
	c := s.c
	if len(s.readBlocks) == 0 {
		return
	}
	found := map[string]bool{}
	newPathEnv(c, s.dec).each(func(e *pathEnv, in ssa.Instruction) {
		iff, ok := in.(*ssa.If)
		if !ok {
			return
		}
		for _, cond := range conjuncts(e, iff) {
			found[cond] = true
		}
	})
	need := func(field, cond, what string) {
		if !s.hasField(field) {
			return
		}
		c.Count("limits", 1)
		c.Obligation("%s: %s leads to an error", s.name, cond)
		if !found[cond] {
			c.Report("limit", s.name+" "+field, s.dec, what)
		}
	}
	need("MinItems", "count<p0.MinItems", "too few blocks are not reported exactly when there are fewer than MinItems")
	need("MaxItems", "count>p0.MaxItems", "too many blocks are not reported exactly when there are more than MaxItems")
	need("MaxItems", "p0.MaxItems>0", "a limit of zero does not stand for no limit")
	need("Required", "p0.Required", "a missing block is not reported exactly when it is required")
	if len(s.readBlocks) > 0 && !s.hasField("MinItems") && !s.hasField("LabelNames") {
		// a single block
		c.Count("limits", 1)
		if !found["second"] {
			c.Report("limit", s.name+" second", s.dec, "a second block is not reported")
		}
	}
	if s.hasField("LabelNames") {
		c.Count("limits", 1)
		if !found["exists"] {
			c.Report("limit", s.name+" duplicate", s.dec, "a second block with the same labels is not reported")
		}
	}
}

// conjuncts: the conditions that lead to an error, in normal form.
func conjuncts(e *pathEnv, iff *ssa.If) []string {
	b := iff.Block()
	var out []string
	for side := 0; side < 2; side++ {
		if !errorFrom(b.Succs[side], b) {
			continue
		}
		switch x := iff.Cond.(type) {
		case *ssa.BinOp:
			op, l, r := x.Op, x.X, x.Y
			if side == 1 {
				op = negated(op)
			}
			lp, rp := sizeOrPath(e, l), sizeOrPath(e, r)
			if rp == "count" || lp == "0" {
				lp, rp = rp, lp
				op = swapped(op)
			}
			if strings.HasPrefix(lp, "p1.Blocks[]") && rp == "nil" && op == token.NEQ {
				out = append(out, "second")
			}
			if isNilConst(r) && op == token.NEQ && isBlock(l) || isNilConst(l) && op == token.NEQ && isBlock(r) {
				out = append(out, "second")
			}
			// integers: a >= b+1 and the like are left alone
			if op == token.NEQ && rp == "0" {
				op = token.GTR
			}
			out = append(out, lp+op.String()+rp)
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Lookup); ok && side == 0 && x.Index == 1 {
				out = append(out, "exists")
			}
		default:
			p := e.one(iff.Cond)
			if side == 0 {
				out = append(out, p)
			} else {
				out = append(out, "!"+p)
			}
		}
	}
	return out
}

func isBlock(v ssa.Value) bool { return strings.HasSuffix(v.Type().String(), "hcl.Block") }

func negated(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func swapped(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GEQ:
		return token.LEQ
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	}
	return op
}

func sizeOrPath(e *pathEnv, v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return "nil"
		}
		return k.Value.ExactString()
	}
	if call, ok := v.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return "count"
		}
	}
	if p := e.one(v); p != "" {
		return p
	}
	return "count"
}

// errorFrom: an error is made in the region entered by the branch, before the
// branches meet again.
func errorFrom(b, branch *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 {
		return false
	}
	var dom func(x *ssa.BasicBlock) bool
	dom = func(x *ssa.BasicBlock) bool {
		for _, in := range x.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && strings.HasSuffix(al.Type().String(), "hcl.Diagnostic") {
				return true
			}
		}
		for _, d := range x.Dominees() {
			if dom(d) {
				return true
			}
		}
		return false
	}
	return dom(b)
}

// fields: every exported field has an influence.
func (s *specCheck) fields() {
	c := s.c
	st, ok := s.named.Underlying().(*types.Struct)
	if !ok {
		return
	}
	used := map[string]bool{}
	for _, f := range []*ssa.Function{s.dec, s.attrs, s.blocks} {
		if f == nil {
			continue
		}
		newPathEnv(c, f).each(func(e *pathEnv, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if types.Identical(derefType(x.X.Type()), s.named) {
					used[fieldOf(x.X.Type(), x.Field)] = true
				}
			case *ssa.Field:
				if types.Identical(derefType(x.X.Type()), s.named) {
					used[fieldOf(x.X.Type(), x.Field)] = true
				}
			}
		})
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() || used[f.Name()] {
			continue
		}
		if len(s.readAttrs) == 0 && len(s.readBlocks) == 0 && f.Name() == "Name" {
			continue // only used for messages, by what asks for labels
		}
		c.Report("field", s.name+" "+f.Name(), s.dec, "the field has no influence on decoding")
	}
}

// c17entry: bodies are read with the schema of the specification they are
// decoded with, and completely unless a partial decoding was asked for.
func c17entry(c *Ctx) {
	reads := 0
	for _, f := range c.Funcs {
		if c.PkgOf(f) != decPkg || f.Parent() != nil {
			continue
		}
		e := newPathEnv(c, f)
		var schemas []string
		full, part := []string(nil), []string(nil)
		var at ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !call.Call.IsInvoke() {
					continue
				}
				switch n := callee(&call.Call); n {
				case "Content", "PartialContent":
					reads++
					at = in
					schemas = append(schemas, e.one(call.Call.Args[0]))
					g := strings.Join(e.guards(in), "&")
					if n == "Content" {
						full = append(full, g)
					} else {
						part = append(part, g)
					}
				}
			}
		}
		if at == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !call.Call.IsInvoke() {
					continue
				}
				switch callee(&call.Call) {
				case "decode", "sourceRange", "variablesNeeded":
					spec := e.one(call.Call.Value)
					for _, s := range schemas {
						if !strings.HasPrefix(s, spec+".") || !strings.HasSuffix(s, ")") {
							c.Report("entry", c.FuncName(f), in, "the body was read with the schema of something else than the specification it is used with")
						}
					}
				}
			}
		}
		if len(full) > 0 && len(part) > 0 {
			flag := ""
			for i, p := range f.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					flag = fmt.Sprintf("(p%d)", i)
				}
			}
			if flag == "" || full[0] != "!"+flag || part[0] != flag {
				c.Report("entry", c.FuncName(f)+" partial", at, "reading a body in part does not depend on whether a partial decoding was asked for")
			}
			for _, g := range c.Funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(*ssa.Call)
						if !ok || call.Call.StaticCallee() != f {
							continue
						}
						k, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.Const)
						wants := "false"
						if token.IsExported(g.Name()) && g.Signature.Recv() == nil && g.Signature.Results().Len() == 3 {
							wants = "true"
						}
						if ok && k.Value.String() != wants {
							c.Report("entry", c.FuncName(g), in, "decoding is partial only when the rest of the body is returned")
						}
					}
				}
			}
		}
	}
	c.Count("bodies read", reads)
	c.Floor("bodies read", 3)
	// the schema is put together from all specifications
	f := c.LookupFunc(decPkg, "ImpliedSchema")
	if f == nil {
		c.Report("anchor", "ImpliedSchema", nil, "function hcldec.ImpliedSchema not found")
		return
	}
	for field, from := range map[string]string{"Attributes": "attrSchemata", "Blocks": "blockHeaderSchemata"} {
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isStore := in.(*ssa.Store)
				if !isStore {
					continue
				}
				fa, isField := st.Addr.(*ssa.FieldAddr)
				if !isField || fieldOf(fa.X.Type(), fa.Field) != field {
					continue
				}
				ok = ok || comesFrom(st.Val, from, map[ssa.Value]bool{})
			}
		}
		if !ok {
			c.Report("entry", "ImpliedSchema "+field, f, fmt.Sprintf("the %s of the schema are not those the specifications ask for", strings.ToLower(field)))
		}
	}
}

// comesFrom: the list was put together from results of a method.
func comesFrom(v ssa.Value, method string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if vals, ok := storedIn(x.X); ok {
			for _, s := range vals {
				if comesFrom(s, method, seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if comesFrom(e, method, seen) {
				return true
			}
		}
	case *ssa.Call:
		if callee(&x.Call) == method {
			return true
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return comesFrom(x.Call.Args[0], method, seen) || comesFrom(x.Call.Args[1], method, seen)
		}
	}
	return false
}
