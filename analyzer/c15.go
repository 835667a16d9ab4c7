package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// C15: generated tokens.
//
// For every kind of value, and every kind of traversal step, the sequences of
// tokens a generating function can return are found as regular expressions:
// appending is concatenation, joining paths are alternatives, loops are
// repetitions. They are compared with the grammar. The bytes that the escaping
// of strings emits for a character are found in the same way and are read back
// with the table of the reader.

func init() {
	register("C15", "generated tokens represent all of a value or traversal", runC15)
}

func runC15(c *Ctx) {
	w := &tokenWriter{c: c, kinds: map[int]string{}, escapers: map[*ssa.Function]bool{}}
	pkg := c.ByPat["hclwrite"]
	syn := c.ByPat["hcl/hclsyntax"]
	if pkg == nil || syn == nil {
		c.Report("anchor", "packages", nil, "the packages hclwrite and hclsyntax are not found")
		return
	}
	for _, n := range syn.Types.Scope().Names() {
		if k, ok := syn.Types.Scope().Lookup(n).(*types.Const); ok && isNamed(k.Type(), synPath, "TokenType") {
			if i, ok := constant.Int64Val(k.Val()); ok {
				w.kinds[int(i)] = strings.TrimPrefix(n, "Token")
			}
		}
	}
	w.literals()
	w.discarded()
	w.lost()
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hclwrite" || c.generated(f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !isWriterTokens(resultType(f)) {
			continue
		}
		if f.Signature.Recv() != nil || len(f.Params) != 1 {
			continue
		}
		switch {
		case isNamed(f.Params[0].Type(), ctyPath, "Value"):
			w.valueWriter(f)
		case isNamed(f.Params[0].Type(), hclPath, "Traversal"):
			w.traversalWriter(f)
		}
	}
	w.trees()
	w.escapes()
	c.Floor("token literals", 6)
	c.Floor("value kinds", 9)
	c.Floor("traversal steps", 6)
}

type tokenWriter struct {
	c        *Ctx
	kinds    map[int]string
	escapers map[*ssa.Function]bool
	quiet    bool
}

func isWriterTokens(t types.Type) bool {
	return t != nil && isNamed(t, modPath+"/hclwrite", "Tokens")
}

func resultType(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() != 1 {
		return nil
	}
	return f.Signature.Results().At(0).Type()
}

// texts of the token kinds that have just one.
var tokenTexts = map[string]string{
	"OBrace": "{", "CBrace": "}", "OBrack": "[", "CBrack": "]", "OParen": "(", "CParen": ")",
	"OQuote": `"`, "CQuote": `"`, "Star": "*", "Slash": "/", "Plus": "+", "Minus": "-", "Percent": "%",
	"Equal": "=", "EqualOp": "==", "NotEqual": "!=", "LessThan": "<", "LessThanEq": "<=", "GreaterThan": ">", "GreaterThanEq": ">=",
	"And": "&&", "Or": "||", "Bang": "!", "Dot": ".", "Comma": ",", "Ellipsis": "...", "FatArrow": "=>", "Question": "?", "Colon": ":",
	"TemplateInterp": "${", "TemplateControl": "%{", "TemplateSeqEnd": "}", "Newline": "\n",
}

// literals: a token of a kind with a fixed text has that text.
func (w *tokenWriter) literals() {
	for _, f := range w.c.AllFuncs() {
		if w.c.PkgOf(f) != "hclwrite" || w.c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !isNamed(derefType(al.Type()), modPath+"/hclwrite", "Token") {
					continue
				}
				typ, bytes := tokenParts(al)
				k, ok := constInt(typ)
				if typ == nil || !ok || w.kinds[k] == "" || bytes == nil {
					continue
				}
				text, ok := constBytes(bytes)
				if !ok {
					continue
				}
				w.c.Count("token literals", 1)
				want, fixed := tokenTexts[w.kinds[k]]
				switch {
				case fixed && text != want && !(w.kinds[k] == "TemplateInterp" && text == "${~") && !(w.kinds[k] == "TemplateSeqEnd" && text == "~}"):
					w.c.Report("text", w.c.FuncName(f)+" "+w.kinds[k], al, fmt.Sprintf("%s makes a %s token of the text %q", w.c.FuncName(f), w.kinds[k], text))
				case w.kinds[k] == "Ident" && !identifier.MatchString(text):
					w.c.Report("text", w.c.FuncName(f)+" "+w.kinds[k], al, fmt.Sprintf("%s makes an identifier of the text %q", w.c.FuncName(f), text))
				}
			}
		}
	}
}

var identifier = regexp.MustCompile(`^[\pL_][\pL\pN_-]*$`)

// tokenParts: the kind and the text a token is given.
func tokenParts(al *ssa.Alloc) (typ, bytes ssa.Value) {
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				switch fieldOf(al.Type(), fa.Field) {
				case "Type":
					typ = st.Val
				case "Bytes":
					bytes = st.Val
				}
			}
		}
	}
	return typ, bytes
}

func constBytes(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Convert:
		if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	case *ssa.Slice:
		if st, ok := x.Type().Underlying().(*types.Slice); !ok || !isByte(st.Elem()) {
			return "", false
		}
		out := ""
		args := literalArgs(x)
		for _, a := range args {
			k, ok := constInt(a)
			if !ok {
				return "", false
			}
			out += string([]byte{byte(k)})
		}
		return out, len(args) > 0
	}
	return "", false
}

// discarded: what comes back from an appending function is kept.
func (w *tokenWriter) discarded() {
	for _, f := range w.c.AllFuncs() {
		if w.c.PkgOf(f) != "hclwrite" || w.c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !isWriterTokens(call.Type()) {
					continue
				}
				g := call.Call.StaticCallee()
				if g != nil && (!w.c.InRepo(g) || !takesTokens(g) && g.Signature.Recv() != nil) {
					continue
				}
				if _, builtin := call.Call.Value.(*ssa.Builtin); g == nil && !builtin {
					continue
				}
				w.c.Count("token appends", 1)
				if refs := call.Referrers(); refs == nil || len(*refs) == 0 {
					w.c.Report("discarded", w.c.FuncName(f), call, w.c.FuncName(f)+" appends tokens and drops the result")
				}
			}
		}
	}
}

// lost: a part of a tree that is made becomes part of something.
func (w *tokenWriter) lost() {
	t := w.c.LookupType("hclwrite", "nodeContent")
	var it *types.Interface
	if t != nil {
		it, _ = t.Underlying().(*types.Interface)
	}
	if it == nil {
		return
	}
	for _, f := range w.c.AllFuncs() {
		if w.c.PkgOf(f) != "hclwrite" || w.c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := call.Call.StaticCallee()
				if h == nil || w.c.PkgOf(h) != "hclwrite" || !types.Implements(call.Type(), it) || h.Signature.Recv() != nil {
					continue
				}
				w.c.Count("nodes made", 1)
				if !escapes(call, map[ssa.Value]bool{}) {
					w.c.Report("lost", w.c.FuncName(f)+" "+shortType(call.Type()), call, w.c.FuncName(f)+" makes a node that does not become part of anything")
				}
			}
		}
	}
}

// escapes: is the value given to something or returned?
func escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return, *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure:
			return true
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.MakeInterface:
			if escapes(x, seen) {
				return true
			}
		case *ssa.ChangeType:
			if escapes(x, seen) {
				return true
			}
		case *ssa.Slice:
			if escapes(x, seen) {
				return true
			}
		case *ssa.Phi:
			if escapes(x, seen) {
				return true
			}
		case ssa.CallInstruction:
			for i, a := range x.Common().Args {
				if a == v && (i > 0 || x.Common().Signature().Recv() == nil) {
					return true
				}
			}
		}
	}
	return false
}

func takesTokens(g *ssa.Function) bool {
	for _, p := range g.Params {
		if isWriterTokens(p.Type()) {
			return true
		}
	}
	return false
}

// A genFrame is a generating function entered with certain arguments.
type genFrame struct {
	w    *tokenWriter
	p    *pathEnv
	a    *assumed
	kind string                 // of the value p0, or of the steps
	base map[ssa.Value][]string // what tokens parameters and loop variables hold
	up   *genFrame
	n    *int // work done
}

const unknownSeq = "?"

func (w *tokenWriter) enter(f *ssa.Function, p *pathEnv, kind string, up *genFrame) *genFrame {
	g := &genFrame{w: w, p: p, kind: kind, base: map[ssa.Value][]string{}, up: up}
	if up != nil {
		g.n = up.n
	} else {
		g.n = new(int)
	}
	g.a = assume(f, g.given)
	return g
}

// given: what is known about the kind of value.
func (g *genFrame) given(v ssa.Value) constant.Value {
	yes, no := constant.MakeBool(true), constant.MakeBool(false)
	is := func(b bool) constant.Value {
		if b {
			return yes
		}
		return no
	}
	typed := g.kind != "null" && !strings.HasPrefix(g.kind, "Traverse")
	class := g.kind
	if class == "true" || class == "false" {
		class = "Bool"
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && strings.HasPrefix(g.kind, "Traverse") && isNamed(ta.X.Type(), hclPath, "Traverser") && !types.IsInterface(ta.AssertedType) {
			return is(isNamed(ta.AssertedType, hclPath, g.kind))
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if n := ctyTypeName(x.X, x.Y); n != "" && typed && (g.p.one(x.X) == "p0.Type()" || g.p.one(x.Y) == "p0.Type()") {
				return is((class == n) == (x.Op == token.EQL))
			}
		}
		if k, ok := constInt(x.Y); ok && k == 0 {
			if s := g.p.one(x.X); s == "p0.LengthInt()" || strings.HasPrefix(s, "p0.AsString()") && strings.HasSuffix(s, ".len()") {
				return foldBinary(x.Op, constant.MakeInt64(1), constant.MakeInt64(0))
			}
		}
	case *ssa.Call:
		h := x.Call.StaticCallee()
		if h == nil || len(x.Call.Args) == 0 || h.Pkg == nil || !strings.HasPrefix(h.Pkg.Pkg.Path(), ctyPath) {
			return nil
		}
		switch g.p.one(x.Call.Args[0]) {
		case "p0":
			switch h.Name() {
			case "IsKnown", "IsWhollyKnown":
				return yes
			case "IsNull":
				return is(g.kind == "null")
			case "True":
				if class == "Bool" {
					return is(g.kind == "true")
				}
			case "False":
				if class == "Bool" {
					return is(g.kind == "false")
				}
			case "CanIterateElements":
				return is(typed && class != "Bool" && class != "Number" && class != "String")
			}
		case "p0.Type()":
			if !typed {
				return nil
			}
			switch h.Name() {
			case "IsListType", "IsSetType", "IsTupleType", "IsMapType", "IsObjectType", "IsCapsuleType":
				return is(h.Name() == "Is"+class+"Type")
			case "IsPrimitiveType":
				return is(class == "Bool" || class == "Number" || class == "String")
			case "IsCollectionType":
				return is(class == "List" || class == "Set" || class == "Map")
			case "Equals":
				if n := ctyTypeName(x.Call.Args[1], nil); n != "" {
					return is(class == n)
				}
			}
		}
	}
	return nil
}

func ctyTypeName(vs ...ssa.Value) string {
	for _, v := range vs {
		if v == nil {
			continue
		}
		if ld, ok := isLoad(v); ok {
			if gl, ok := ld.X.(*ssa.Global); ok && gl.Pkg.Pkg.Path() == ctyPath {
				return gl.Name()
			}
		}
	}
	return ""
}

// results: the sequences a function returns.
func (g *genFrame) results() []string {
	var out []string
	for _, b := range g.a.f.Blocks {
		if !g.a.reach[b] {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
			out = append(out, g.seq(ret.Results[0])...)
		}
	}
	return uniqPaths(out)
}

func product(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			out = append(out, x+y)
			if len(out) > 200 {
				return []string{unknownSeq}
			}
		}
	}
	return out
}

// seq: the tokens a value can hold.
func (g *genFrame) seq(v ssa.Value) []string {
	*g.n++
	if *g.n > 20000 {
		return []string{unknownSeq}
	}
	if s, ok := g.base[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		return []string{""}
	case *ssa.MakeSlice:
		if k, ok := constInt(x.Len); ok && k == 0 {
			return []string{""}
		}
	case *ssa.ChangeType:
		return g.seq(x.X)
	case *ssa.Slice:
		if args := literalArgs(x); x.Low == nil && x.High == nil && len(args) > 0 {
			out := []string{""}
			for _, a := range args {
				out = product(out, g.token(a))
			}
			return out
		}
		if k, ok := constInt(x.Low); x.High == nil && (x.Low == nil || ok && k == 0) {
			return g.seq(x.X)
		}
	case *ssa.Phi:
		into := g.a.edgesInto(x)
		var first, again []string
		looping := false
		var l *loop
		for _, q := range loopsOf(g.a.f) {
			if q.header == x.Block() {
				l = q
			}
		}
		for p, e := range into {
			if l == nil || !l.blocks[p] {
				first = append(first, g.seq(e)...)
			}
		}
		if l != nil {
			g.base[x] = []string{"@"}
			for p, e := range into {
				if l.blocks[p] {
					looping = true
					again = append(again, g.seq(e)...)
				}
			}
			delete(g.base, x)
			if looping {
				g.exits(l)
			}
		}
		first, again = uniqPaths(first), uniqPaths(again)
		if !looping || len(again) == 0 {
			return first
		}
		var body []string
		for _, s := range again {
			if !strings.HasPrefix(s, "@") {
				s = "!" + s // what was there is replaced
			}
			body = append(body, strings.TrimPrefix(s, "@"))
		}
		if len(body) == 1 && body[0] == "" {
			return first
		}
		return product(first, []string{"(" + strings.Join(body, "|") + ")*"})
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			return product(g.seq(x.Call.Args[0]), g.seq(x.Call.Args[1]))
		}
		h := x.Call.StaticCallee()
		if h == nil || !g.w.c.InRepo(h) || !isWriterTokens(x.Type()) || len(h.Blocks) == 0 {
			break
		}
		for i, p := range h.Params {
			if !isNamed(p.Type(), ctyPath, "Value") || i >= len(x.Call.Args) {
				continue
			}
			// another value is written by a function for all values
			path := g.p.one(x.Call.Args[i])
			if path != "p0" && (g.p.inside(h) || entersAll(h)) || strings.HasPrefix(g.kind, "Traverse") {
				out := []string{"V<" + path + ">"}
				for j, q := range h.Params {
					if isWriterTokens(q.Type()) {
						out = product(g.seq(x.Call.Args[j]), out)
					}
				}
				return out
			}
		}
		if g.p.inside(h) || g.p.depth() > 6 {
			break
		}
		n := g.w.enter(h, g.p.enter(h, x.Call.Args, x), g.kind, g)
		for i, q := range h.Params {
			if isWriterTokens(q.Type()) {
				n.base[q] = g.seq(x.Call.Args[i])
			}
		}
		return n.results()
	}
	return []string{unknownSeq}
}

func entersAll(h *ssa.Function) bool { return h.Object() != nil && h.Object().Exported() }

// exits: a loop over the parts of something is not left early.
func (g *genFrame) exits(l *loop) {
	for b := range l.blocks {
		if b == l.header || !g.a.reach[b] {
			continue
		}
		for _, s := range b.Succs {
			if l.blocks[s] || !g.a.edges[edge{b, s}] {
				continue
			}
			if _, panics := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); panics {
				continue
			}
			if g.endTest(l, b) {
				continue
			}
			f := g.a.f
			g.w.c.Report("early", g.w.c.FuncName(f)+" "+g.kind, At(lastPos(b)), g.w.c.FuncName(f)+" can leave the loop over the parts before all are written")
		}
	}
}

// endTest: the first test in a loop without condition.
func (g *genFrame) endTest(l *loop, b *ssa.BasicBlock) bool {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		return false
	}
	return len(l.header.Succs) == 1 && l.header.Succs[0] == b
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for d := b; d != nil; d = d.Idom() {
		for i := len(d.Instrs) - 1; i >= 0; i-- {
			if p := d.Instrs[i].Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

// token: one token as a symbol.
func (g *genFrame) token(v ssa.Value) []string {
	if p, ok := v.(*ssa.Phi); ok {
		var out []string
		for _, e := range g.a.edgesInto(p) {
			out = append(out, g.token(e)...)
		}
		return uniqPaths(out)
	}
	if call, ok := v.(*ssa.Call); ok {
		// a function making a token
		h := call.Call.StaticCallee()
		if h != nil && g.w.c.InRepo(h) && len(h.Blocks) > 0 && h.Signature.Results().Len() == 1 && !g.p.inside(h) && g.p.depth() < 6 {
			n := g.w.enter(h, g.p.enter(h, call.Call.Args, call), g.kind, g)
			var out []string
			for _, b := range h.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && n.a.reach[b] {
					out = append(out, n.token(ret.Results[0])...)
				}
			}
			return uniqPaths(out)
		}
		return []string{unknownSeq}
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return []string{unknownSeq}
	}
	typ, bytes := tokenParts(al)
	k, ok := g.constOf(typ)
	if !ok {
		return []string{unknownSeq}
	}
	if bytes == nil {
		return []string{"<empty>"}
	}
	name := g.w.kinds[k]
	switch name {
	case "OBrace", "CBrace", "OBrack", "CBrack", "OParen", "CParen", "Comma", "Equal", "Dot", "OQuote", "CQuote", "Newline":
		if name == "Comma" {
			g.comma(al)
		}
		if name == "OParen" || name == "CParen" {
			return []string{"\\" + tokenTexts[name]}
		}
		return []string{tokenTexts[name]}
	case "Ident":
		if name := g.textOf(bytes); name != "" {
			g.name(al, bytes, name)
			return []string{"I<" + name + ">"}
		}
	case "NumberLit":
		g.number(bytes)
		return []string{"N<" + g.textOf(bytes) + ">"}
	case "QuotedLit":
		return []string{"Q<" + g.quoted(bytes) + ">"}
	}
	return []string{name + "<" + g.textOf(bytes) + ">"}
}

func (g *genFrame) constOf(v ssa.Value) (int, bool) {
	if v == nil {
		return 0, false
	}
	if k, ok := constInt(v); ok {
		return k, true
	}
	if p, ok := v.(*ssa.Parameter); ok && g.up != nil {
		for i, q := range g.a.f.Params {
			if q == p && i < len(g.p.actual) {
				return g.up.constOf(g.p.actual[i])
			}
		}
	}
	if k := g.a.value(v); k != nil && k.Kind() == constant.Int {
		n, ok := constant.Int64Val(k)
		return int(n), ok
	}
	return 0, false
}

// textOf: a text written out, or where it comes from.
func (g *genFrame) textOf(v ssa.Value) string {
	if t, ok := constBytes(v); ok {
		return fmt.Sprintf("%q", t)
	}
	switch x := v.(type) {
	case *ssa.Phi:
		var out []string
		for _, e := range g.a.edgesInto(x) {
			out = append(out, g.textOf(e))
		}
		return strings.Join(uniqPaths(out), "|")
	case *ssa.Convert:
		return g.textOf(x.X)
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return x.Value.ExactString()
		}
	case *ssa.Parameter:
		if g.up != nil {
			for i, q := range g.a.f.Params {
				if q == x && i < len(g.p.actual) {
					return g.up.textOf(g.p.actual[i])
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return g.textOf(x.Call.Args[1])
		}
		if h := x.Call.StaticCallee(); h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "strconv" && len(x.Call.Args) == 1 {
			if h.Name() == "FormatBool" && g.p.one(x.Call.Args[0]) == "p0.True()" {
				return fmt.Sprintf("%q", g.kind)
			}
		}
	}
	if s := g.p.one(v); s != "" {
		return s
	}
	return "*"
}

// name: text taken from a value is a name only if it was found to be one.
func (g *genFrame) name(al *ssa.Alloc, bytes ssa.Value, path string) {
	if strings.HasPrefix(path, `"`) || strings.HasPrefix(g.kind, "Traverse") || !strings.HasPrefix(path, "p0") {
		return
	}
	valid, loop := false, false
	for fr, b := g, al.Block(); fr != nil; fr = fr.up {
		for _, d := range dominatingTests(b) {
			switch x := d.cond.(type) {
			case *ssa.Call:
				if h := x.Call.StaticCallee(); h != nil && h.Name() == "ValidIdentifier" && d.yes && fr.p.one(x.Call.Args[0]) == path {
					valid = true
				} else if h != nil && g.w.c.InRepo(h) && len(x.Call.Args) > 0 && d.yes && fr.p.one(x.Call.Args[0]) == path {
					v, l := nameTests(h)
					valid, loop = valid || v, loop || l
				}
			case *ssa.BinOp:
				if comparesWith(x, "for") && d.yes == (x.Op == token.NEQ) {
					loop = true
				}
			}
		}
		if fr.p.at == nil {
			break
		}
		b = fr.p.at.Block()
	}
	f := g.w.c.FuncName(g.a.f)
	if !valid {
		g.w.c.Report("name", f+" identifier", al, f+" writes text as a name that was not found to be a valid identifier")
	}
	if !loop {
		g.w.c.Report("name", f+" for", al, f+" writes a key as a name without making sure that it is not for, which starts another kind of expression")
	}
}

func comparesWith(x *ssa.BinOp, text string) bool {
	for _, v := range []ssa.Value{x.X, x.Y} {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == text {
			return x.Op == token.EQL || x.Op == token.NEQ
		}
	}
	return false
}

// nameTests: what a helper deciding about a name looks at.
func nameTests(h *ssa.Function) (valid, loop bool) {
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if s := call.Call.StaticCallee(); s != nil && s.Name() == "ValidIdentifier" {
					valid = true
				}
			}
			if bo, ok := in.(*ssa.BinOp); ok {
				if comparesWith(bo, "for") {
					loop = true
				}
			}
		}
	}
	return valid, loop
}

// number: all digits are written.
func (g *genFrame) number(v ssa.Value) {
	for _, o := range originsOf(v, g.a.f) {
		for {
			cv, ok := o.(*ssa.Convert)
			if !ok {
				break
			}
			o = cv.X
		}
		call, ok := o.(*ssa.Call)
		if !ok {
			continue
		}
		h := call.Call.StaticCallee()
		if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "math/big" && h.Pkg.Pkg.Path() != "strconv" {
			continue
		}
		prec := -1
		switch {
		case (h.Name() == "Text" || h.Name() == "Append") && len(call.Call.Args) >= 3:
			prec, _ = constInt(call.Call.Args[len(call.Call.Args)-1])
		case h.Name() == "FormatFloat" || h.Name() == "FormatInt" || h.Name() == "String":
			prec = 10 // machine numbers, or ten digits
		}
		if prec >= 0 {
			g.w.c.Report("digits", g.w.c.FuncName(g.a.f), call, g.w.c.FuncName(g.a.f)+" writes a number with a limited number of digits")
		}
	}
}

// quoted: the text of a quoted string goes through escaping.
func (g *genFrame) quoted(v ssa.Value) string {
	fr := g
	for i := 0; i < 8; i++ {
		if p, ok := v.(*ssa.Parameter); ok && fr.up != nil {
			for i, q := range fr.a.f.Params {
				if q == p && i < len(fr.p.actual) {
					v = fr.p.actual[i]
				}
			}
			fr = fr.up
			continue
		}
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	if call, ok := v.(*ssa.Call); ok {
		for _, a := range call.Call.Args {
			if fr.p.one(a) == "p0.AsString()" {
				if h := call.Call.StaticCallee(); h != nil && g.w.c.InRepo(h) {
					g.w.escapers[h] = true
				}
				return "escaped"
			}
		}
	}
	return fr.p.one(v)
}

// comma: separators are written in all rounds but the first, if they come
// before the element.
func (g *genFrame) comma(al *ssa.Alloc) {
	fr, b := g, al.Block()
	l := innermost(fr.a.f, b)
	for l == nil && fr.up != nil {
		b = fr.p.at.Block()
		fr = fr.up
		l = innermost(fr.a.f, b)
	}
	if l == nil {
		return
	}
	leading := true // is the element written afterwards?
	for _, d := range b.Instrs {
		if call, ok := d.(*ssa.Call); ok && call.Call.StaticCallee() != nil && isWriterTokens(call.Type()) {
			leading = false
		}
	}
	for d := b.Idom(); d != nil && l.blocks[d]; d = d.Idom() {
		for _, in := range d.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && isWriterTokens(call.Type()) {
				leading = false
			}
		}
	}
	name := fr.w.c.FuncName(fr.a.f) + " " + g.kind
	first, later := true, true
	known := true
	for _, d := range dominatingTests(b) {
		if !l.blocks[d.at.Block()] || d.at.Block() == l.header {
			continue
		}
		v0, v1 := roundValue(fr, l, d.cond, 0), roundValue(fr, l, d.cond, 1)
		if v0 == nil || v1 == nil {
			known = false
			continue
		}
		if constant.BoolVal(v0) != d.yes {
			first = false
		}
		if constant.BoolVal(v1) != d.yes {
			later = false
		}
	}
	if !later {
		fr.w.c.Report("separator", name, al, name+": no separator is written between the elements")
	} else if known && first && leading {
		fr.w.c.Report("separator", name, al, name+": a separator is written before the first element")
	}
}

// roundValue: a condition in the first round of a loop, or in one after that.
func roundValue(g *genFrame, l *loop, cond ssa.Value, round int) constant.Value {
	a := &assumed{f: g.a.f, edges: g.a.edges, reach: g.a.reach, busy: map[ssa.Value]bool{}}
	a.given = func(v ssa.Value) constant.Value {
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != l.header {
			return g.given(v)
		}
		var init constant.Value
		for i, pred := range p.Block().Preds {
			if !l.blocks[pred] {
				if k, ok := p.Edges[i].(*ssa.Const); ok {
					init = k.Value
				}
			}
		}
		if round == 0 || init == nil {
			return init
		}
		var next constant.Value
		for i, pred := range p.Block().Preds {
			if !l.blocks[pred] {
				continue
			}
			b := &assumed{f: g.a.f, edges: g.a.edges, reach: g.a.reach, busy: map[ssa.Value]bool{}}
			b.given = func(v ssa.Value) constant.Value {
				if v == ssa.Value(p) {
					return init
				}
				return nil
			}
			k := b.value(p.Edges[i])
			if k == nil || next != nil && !constant.Compare(next, token.EQL, k) {
				return nil
			}
			next = k
		}
		return next
	}
	k := a.value(cond)
	if k == nil || k.Kind() != constant.Bool {
		return nil
	}
	return k
}

// valueWriter: each kind of value is written as the grammar has it.
func (w *tokenWriter) valueWriter(f *ssa.Function) {
	for _, kind := range []string{"null", "true", "false", "Number", "String", "List", "Set", "Tuple", "Map", "Object"} {
		g := w.enter(f, newPathEnv(w.c, f), kind, nil)
		got := g.results()
		w.c.Count("value kinds", 1)
		w.c.Obligation("%s writes %s as %v", w.c.FuncName(f), kind, got)
		if len(got) == 0 {
			w.c.Report("kind", w.c.FuncName(f)+" "+kind, f, fmt.Sprintf("%s writes nothing for a value of the kind %s", w.c.FuncName(f), kind))
		}
		for _, s := range got {
			if strings.Contains(s, unknownSeq) {
				continue
			}
			if why := wrongFor(kind, s); why != "" {
				w.c.Report("tokens", w.c.FuncName(f)+" "+kind, f, fmt.Sprintf("%s can write a value of the kind %s as %s: %s", w.c.FuncName(f), kind, s, why))
			}
		}
	}
}

var (
	elemSym = regexp.MustCompile(`^V<p0[^>]*(#1|\[\])>$`)
	keySym  = regexp.MustCompile(`^[VI]<p0[^>]*(#0|\{\})(\.AsString\(\))?>$`)
)

// wrongFor: what is wrong with a sequence for a kind of value.
func wrongFor(kind, s string) string {
	switch kind {
	case "null", "true", "false":
		if s != `I<"`+kind+`">` {
			return "not the keyword"
		}
	case "Number":
		if !strings.HasPrefix(s, "N<") || strings.Count(s, "<") != 1 {
			return "not one number"
		} else if !strings.Contains(s, "p0.") && !strings.Contains(s, "*") {
			return "not the number given"
		}
	case "String":
		switch {
		case s == `"Q<escaped>"`:
		case strings.Contains(s, "Q<p0.AsString()>"):
			return "the text is not escaped"
		default:
			return "not the text in quotes"
		}
	case "List", "Set", "Tuple":
		return wrongSeries(s, "[", "]", func(e string) bool { return elemSym.MatchString(e) }, ",")
	case "Map", "Object":
		return wrongSeries(s, "{", "}", func(e string) bool {
			kv := strings.SplitN(e, "=", 2)
			return len(kv) == 2 && keySym.MatchString(kv[0]) && elemSym.MatchString(kv[1])
		}, ",\n")
	}
	return ""
}

// wrongSeries: brackets around elements with something between them.
func wrongSeries(s, open, close string, elem func(string) bool, seps string) string {
	if !strings.HasPrefix(s, open) || !strings.HasSuffix(s, close) {
		return "not in brackets"
	}
	s = s[1 : len(s)-1]
	if close == "}" {
		s = strings.TrimPrefix(s, "\n")
	}
	first := ""
	if i := strings.Index(s, "("); i > 0 && !strings.Contains(s[:i], "<") {
		first, s = "", s[i:]
	} else if j := topStar(s); j > 0 {
		first, s = s[:j], s[j:]
	}
	if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")*") {
		return "the elements are not written"
	}
	if first != "" && !elem(first) {
		return "the first element is not written properly"
	}
	sep := 0
	for _, alt := range splitAlts(s[1 : len(s)-2]) {
		t := strings.TrimLeft(alt, seps)
		t = strings.TrimRight(t, seps)
		if t != alt {
			sep++
		}
		if !elem(t) {
			return fmt.Sprintf("%q is not an element", t)
		}
	}
	if sep == 0 {
		return "there are no separators"
	}
	return ""
}

func topStar(s string) int {
	depth := 0
	for i, r := range s {
		switch r {
		case '<':
			depth++
		case '>':
			depth--
		case '(':
			if depth == 0 {
				return i
			}
		}
	}
	return -1
}

func splitAlts(s string) []string {
	var out []string
	depth, from := 0, 0
	for i, r := range s {
		switch r {
		case '<', '(':
			depth++
		case '>', ')':
			depth--
		case '|':
			if depth == 0 {
				out = append(out, s[from:i])
				from = i + 1
			}
		}
	}
	return append(out, s[from:])
}

// steps: the kinds of traversal steps.
func (w *tokenWriter) steps() []string {
	var out []string
	t := w.c.LookupType("hcl", "Traverser")
	if t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, n := range w.c.Implementers(it) {
		if nm := namedOf(n); nm != nil && nm.Obj().Pkg().Path() == hclPath && strings.HasPrefix(nm.Obj().Name(), "Traverse") {
			out = append(out, nm.Obj().Name())
		}
	}
	sort.Strings(out)
	return uniqPaths(out)
}

func wrongStep(kind, s string) string {
	field := func(name string) bool { return strings.Contains(s, "<p0[].(hcl."+kind+")."+name+">") }
	switch kind {
	case "TraverseRoot":
		if !strings.HasPrefix(s, "I<") || strings.Count(s, "<") != 1 || !field("Name") {
			return "not the name"
		}
	case "TraverseAttr":
		if !strings.HasPrefix(s, ".I<") || strings.Count(s, "<") != 1 || !field("Name") {
			return "not a dot and the name"
		}
	case "TraverseIndex":
		if !strings.HasPrefix(s, "[V<") || !strings.HasSuffix(s, ">]") || strings.Count(s, "<") != 1 || !field("Key") {
			return "not the key in brackets"
		}
	default:
		if s == "" {
			return "the step is left out"
		}
	}
	return ""
}

// traversalWriter: each step of a traversal is written.
func (w *tokenWriter) traversalWriter(f *ssa.Function) {
	for _, kind := range w.steps() {
		g := w.enter(f, newPathEnv(w.c, f), kind, nil)
		got := g.results()
		w.c.Count("traversal steps", 1)
		w.c.Obligation("%s writes a %s as %v", w.c.FuncName(f), kind, got)
		for _, s := range got {
			if strings.Contains(s, unknownSeq) {
				continue
			}
			if s == "" && kind != "TraverseRoot" && kind != "TraverseAttr" && kind != "TraverseIndex" && w.refuses(f, kind) {
				continue
			}
			why := ""
			if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")*") {
				why = "the steps are not written one after the other"
			} else {
				for _, alt := range splitAlts(s[1 : len(s)-2]) {
					if why == "" {
						why = wrongStep(kind, alt)
					}
				}
			}
			if why != "" {
				w.c.Report("step", w.c.FuncName(f)+" "+kind, f, fmt.Sprintf("%s can write a %s as %s: %s", w.c.FuncName(f), kind, s, why))
			}
		}
	}
}

// refuses: does a function panic on such a step?
func (w *tokenWriter) refuses(f *ssa.Function, kind string) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		g := w.enter(f, newPathEnv(w.c, f), kind, nil)
		for _, b := range f.Blocks {
			if !g.a.reach[b] {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				for _, d := range dominatingTests(b) {
					if ta, ok := extractedAssert(d.cond); ok && isNamed(ta.X.Type(), hclPath, "Traverser") {
						return true
					}
				}
			}
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if h := call.Call.StaticCallee(); h != nil && w.c.PkgOf(h) == "hclwrite" && visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

// trees: functions that make nodes for the steps of a traversal.
func (w *tokenWriter) trees() {
	for _, f := range w.c.Funcs {
		if w.c.PkgOf(f) != "hclwrite" || w.c.generated(f) || isWriterTokens(resultType(f)) {
			continue
		}
		switched := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && isNamed(ta.X.Type(), hclPath, "Traverser") && len(w.made(f, nil, false)) > 0 {
					switched = true
				}
			}
		}
		if !switched {
			continue
		}
		rooted := false
		if root := w.enter(f, newPathEnv(w.c, f), "TraverseRoot", nil); len(w.made(f, root, false)) > 0 {
			rooted = true
		}
		w.allSteps(f, rooted)
		for _, kind := range w.steps() {
			g := w.enter(f, newPathEnv(w.c, f), kind, nil)
			w.c.Count("traversal steps", 1)
			if kind == "TraverseRoot" && !rooted {
				continue // comes first, and only there
			}
			s := ""
			for _, e := range w.made(f, g, false) {
				s += e
			}
			w.c.Obligation("%s makes %q of a %s", w.c.FuncName(f), s, kind)
			if strings.Contains(s, unknownSeq) || s == "" && kind != "TraverseAttr" && kind != "TraverseIndex" && w.refuses(f, kind) {
				continue
			}
			s = stepPath.ReplaceAllString(s, "<p0[].")
			if why := wrongStep(kind, s); why != "" {
				w.c.Report("step", w.c.FuncName(f)+" "+kind, f, fmt.Sprintf("%s makes %q of a %s: %s", w.c.FuncName(f), s, kind, why))
			}
		}
	}
}

// allSteps: no step is passed over, other than the first if it is treated apart.
func (w *tokenWriter) allSteps(f *ssa.Function, rooted bool) {
	want := 1
	if rooted {
		want = 0
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || !isNamed(ta.X.Type(), hclPath, "Traverser") {
				continue
			}
			ld, ok := isLoad(ta.X)
			if !ok {
				continue
			}
			ia, ok := ld.X.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			skipped := 0
			if p, ok := ia.Index.(*ssa.Phi); ok {
				for _, e := range p.Edges {
					if k, ok := constInt(e); ok && k > 0 {
						skipped += k
					}
				}
			}
			v := ia.X
			for {
				sl, ok := v.(*ssa.Slice)
				if !ok {
					break
				}
				if sl.Low != nil {
					n, ok := constInt(sl.Low)
					if !ok {
						return
					}
					skipped += n
				}
				v = sl.X
			}
			if _, ok := v.(*ssa.Parameter); ok && skipped != want {
				w.c.Report("steps", w.c.FuncName(f), ta, fmt.Sprintf("%s starts with step %d of the traversal, where %d are treated apart", w.c.FuncName(f), skipped, want))
				return
			}
		}
	}
}

var stepPath = regexp.MustCompile(`<p[0-9][^>(]*\.`)

// made: the tokens and expressions made for a step, in the order of dominance.
func (w *tokenWriter) made(f *ssa.Function, g *genFrame, stepped bool) []string {
	type made struct {
		in ssa.Instruction
		s  string
	}
	var out []made
	for _, b := range f.Blocks {
		if g != nil && !g.a.reach[b] {
			continue
		}
		here := stepped
		for _, d := range dominatingTests(b) {
			if ta, ok := extractedAssert(d.cond); ok && isNamed(ta.X.Type(), hclPath, "Traverser") && d.yes {
				here = true
			}
		}
		if g != nil && !here {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if isNamed(derefType(x.Type()), modPath+"/hclwrite", "Token") {
					if g == nil {
						return []string{"x"}
					}
					out = append(out, made{in, strings.Join(g.token(x), "|")})
				}
			case *ssa.Call:
				h := x.Call.StaticCallee()
				if h == nil || !w.c.InRepo(h) || g == nil {
					continue
				}
				if len(w.made(h, nil, false)) > 0 && !g.p.inside(h) && g.p.depth() < 4 {
					n := w.enter(h, g.p.enter(h, x.Call.Args, x), g.kind, g)
					for _, s := range w.made(h, n, true) {
						out = append(out, made{in, s})
					}
					continue
				}
				for i, p := range h.Params {
					if isNamed(p.Type(), ctyPath, "Value") {
						out = append(out, made{in, "V<" + g.p.one(x.Call.Args[i]) + ">"})
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].in != out[j].in && instrBefore(out[i].in, out[j].in) })
	var s []string
	for _, m := range out {
		s = append(s, m.s)
	}
	return s
}

// escapes: what the escaping of strings makes of each character is read back
// as that character.
func (w *tokenWriter) escapes() {
	readers := w.c.escapeReaders()
	if len(readers) == 0 {
		w.c.Report("anchor", "reader", nil, "no function decoding escapes is found")
		return
	}
	for h := range w.escapers {
		e := &escaper{w: w, f: h, readers: readers}
		e.check()
	}
}

type escaper struct {
	w       *tokenWriter
	f       *ssa.Function
	readers []*escapeReader
	str     *ssa.Parameter
	char    rune
	next    rune // the character that follows, 0 for the end
	rest    int  // how many follow
}

func (e *escaper) check() {
	for _, p := range e.f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			e.str = p
		}
	}
	if e.str == nil {
		return
	}
	var lp *loop
	for _, l := range loopsOf(e.f) {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if ok && e.current(v) && (lp == nil || len(l.blocks) > len(lp.blocks)) {
					lp = l
				}
			}
		}
	}
	if lp == nil {
		return
	}
	chars := []rune{'\n', '\r', '\t', '"', '\\', '$', '%', '{', 'a', '~', '\'', 'é', '世', 1, 0x7f, 0x85, 0x200b, 0xffff, 0x10000, 0x1d173, 0x1f600, 0x1fffe, 0xe0001}
	for _, ch := range chars {
		for rest, next := range []rune{0, '{', 'x', '$', '{'} {
			e.char, e.next, e.rest = ch, next, rest
			a := assume(e.f, e.given)
			var acc *ssa.Phi
			for _, in := range lp.header.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					if sl, ok := p.Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
						acc = p
					}
				}
			}
			if acc == nil {
				return
			}
			var got []string
			for i, p := range lp.header.Preds {
				if lp.blocks[p] && a.edges[edge{p, lp.header}] {
					got = append(got, e.bytes(a, acc, acc.Edges[i], map[ssa.Value]bool{})...)
				}
			}
			e.w.c.Count("characters", 1)
			e.w.c.Obligation("%s writes %q before %q as %q", e.w.c.FuncName(e.f), ch, next, got)
			for _, s := range uniqPaths(got) {
				if strings.Contains(s, "\x00?") {
					continue
				}
				if why := e.readBack(s); why != "" {
					e.w.c.Report("escape", fmt.Sprintf("%s %q", e.w.c.FuncName(e.f), ch), e.f, fmt.Sprintf("%s can write the character %q, before %q, as %q: %s", e.w.c.FuncName(e.f), ch, next, s, why))
				}
			}
		}
	}
}

// current: the character of this round.
func (e *escaper) current(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			r, ok := n.Iter.(*ssa.Range)
			return ok && (r.X == ssa.Value(e.str) || isRunes(r.X, e.str))
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && isRunes(ia.X, e.str) {
			_, isConst := constInt(ia.Index)
			off, ok := e.offset(ia.Index)
			return ok && off == 0 && !isConst
		}
	case *ssa.Convert:
		return e.current(x.X)
	}
	return false
}

func isRunes(v ssa.Value, s *ssa.Parameter) bool {
	cv, ok := v.(*ssa.Convert)
	return ok && cv.X == ssa.Value(s)
}

// offset: a position relative to that of the character of this round.
func (e *escaper) offset(v ssa.Value) (int, bool) {
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			r, ok := n.Iter.(*ssa.Range)
			return 0, ok && r.X == ssa.Value(e.str)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if k, ok := constInt(x.Y); ok {
				if n, ok := e.offset(x.X); ok {
					return n + k, true
				}
			}
			if k, ok := constInt(x.X); ok {
				if n, ok := e.offset(x.Y); ok {
					return n + k, true
				}
			}
			if call, ok := x.Y.(*ssa.Call); ok {
				if h := call.Call.StaticCallee(); h != nil && h.Name() == "RuneLen" {
					if n, ok := e.offset(x.X); ok {
						return n + 1, true
					}
				}
			}
		}
	case *ssa.Phi:
		return 0, len(x.Edges) == 2 && isInt(x.Type())
	}
	return 0, false
}

// at: the character at a position of the string or of a rest of it.
func (e *escaper) at(s ssa.Value, idx ssa.Value) (rune, bool) {
	off := 0
	if sl, ok := s.(*ssa.Slice); ok && sl.X == ssa.Value(e.str) && sl.Low != nil {
		n, ok1 := e.offset(sl.Low)
		k, ok2 := constInt(idx)
		if !ok1 || !ok2 {
			return 0, false
		}
		off = n + k
	} else if s == ssa.Value(e.str) || isRunes(s, e.str) {
		n, ok := e.offset(idx)
		if !ok {
			return 0, false
		}
		off = n
	} else {
		return 0, false
	}
	switch off {
	case 0:
		return e.char, true
	case 1:
		return e.next, true
	}
	return 0, false
}

func (e *escaper) given(v ssa.Value) constant.Value {
	if e.current(v) {
		return constant.MakeInt64(int64(e.char))
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		if r, ok := e.at(x.X, x.Index); ok {
			return constant.MakeInt64(int64(r))
		}
	case *ssa.Index:
		if r, ok := e.at(x.X, x.Index); ok {
			return constant.MakeInt64(int64(r))
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if r, ok := e.at(ia.X, ia.Index); ok {
				return constant.MakeInt64(int64(r))
			}
		}
	case *ssa.BinOp:
		// is there another character?
		y, op := x.Y, x.Op
		n, ok := e.offset(x.X)
		if !ok {
			n, ok = e.offset(x.Y)
			y = x.X
			op = swapped(op)
		}
		if l := lenName(y); ok && n == 1 && l != nil && (l == ssa.Value(e.str) || isRunes(l, e.str)) {
			k := int64(0)
			if e.next == 0 {
				k = 1
			}
			return foldBinary(op, constant.MakeInt64(k), constant.MakeInt64(1))
		}
	case *ssa.Call:
		if l := lenName(x); l != nil {
			if sl, ok := l.(*ssa.Slice); ok && sl.X == ssa.Value(e.str) && sl.Low != nil && sl.High == nil {
				if n, ok := e.offset(sl.Low); ok && n == 1 {
					return constant.MakeInt64(int64(e.rest))
				}
			}
			if l == ssa.Value(e.str) {
				return constant.MakeInt64(100)
			}
		}
		h := x.Call.StaticCallee()
		if h == nil || h.Pkg == nil {
			return nil
		}
		switch h.Pkg.Pkg.Path() {
		case "unicode":
			if !e.current(x.Call.Args[0]) {
				return nil
			}
			switch h.Name() {
			case "IsPrint":
				return constant.MakeBool(unicode.IsPrint(e.char))
			case "IsGraphic":
				return constant.MakeBool(unicode.IsGraphic(e.char))
			case "IsControl":
				return constant.MakeBool(unicode.IsControl(e.char))
			case "IsSpace":
				return constant.MakeBool(unicode.IsSpace(e.char))
			}
		case "strings":
			if h.Name() == "HasPrefix" {
				if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Value != nil && len(constant.StringVal(k.Value)) == 1 {
					if r, ok := e.at(x.Call.Args[0], ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int])); ok {
						return constant.MakeBool(string(r) == constant.StringVal(k.Value))
					}
				}
			}
		}
	}
	return nil
}

// bytes: what is added in this round.
func (e *escaper) bytes(a *assumed, acc *ssa.Phi, v ssa.Value, busy map[ssa.Value]bool) []string {
	if v == ssa.Value(acc) {
		return []string{""}
	}
	if busy[v] {
		return nil
	}
	busy[v] = true
	defer delete(busy, v)
	unknown := []string{"\x00?"}
	switch x := v.(type) {
	case *ssa.Phi:
		var out []string
		for _, ed := range a.edgesInto(x) {
			out = append(out, e.bytes(a, acc, ed, busy)...)
		}
		return uniqPaths(out)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			return product(e.bytes(a, acc, x.Call.Args[0], busy), e.text(a, x.Call.Args[1], busy))
		}
		// a helper appending the character
		if len(x.Call.Args) == 2 && !x.Call.IsInvoke() {
			if sl, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) && e.current(x.Call.Args[1]) {
				return product(e.bytes(a, acc, x.Call.Args[0], busy), []string{string(e.char)})
			}
		}
	}
	return unknown
}

// text: bytes appended together.
func (e *escaper) text(a *assumed, v ssa.Value, busy map[ssa.Value]bool) []string {
	if t, ok := constBytes(v); ok {
		return []string{t}
	}
	if k := a.value(v); k != nil && k.Kind() == constant.String {
		return []string{constant.StringVal(k)}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		var out []string
		for _, ed := range a.edgesInto(x) {
			out = append(out, e.text(a, ed, busy)...)
		}
		return uniqPaths(out)
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if k := a.value(x.X); k != nil && k.Kind() == constant.Int {
				n, _ := constant.Int64Val(k)
				return []string{string(rune(n))}
			}
		}
		return e.text(a, x.X, busy)
	case *ssa.Slice:
		if x.X == ssa.Value(e.str) && x.Low != nil && x.High != nil {
			lo, ok1 := e.offset(x.Low)
			hi, ok2 := e.offset(x.High)
			if ok1 && ok2 && lo == 0 && hi == 1 {
				return []string{string(e.char)}
			}
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var out []string
			lo, _ := constInt(x.Low)
			for _, t := range e.text(a, x.X, busy) {
				hi := len(t)
				if n, ok := constInt(x.High); ok && x.High != nil {
					hi = n
				} else if x.High != nil {
					return []string{"\x00?"}
				}
				if strings.Contains(t, "\x00?") || lo > hi || hi > len(t) {
					return []string{"\x00?"}
				}
				out = append(out, t[lo:hi])
			}
			return out
		}
		out := ""
		args := literalArgs(x)
		for _, p := range args {
			k := a.value(p)
			if k == nil || k.Kind() != constant.Int {
				return []string{"\x00?"}
			}
			n, _ := constant.Int64Val(k)
			out += string([]byte{byte(n)})
		}
		if len(args) > 0 {
			return []string{out}
		}
	case *ssa.Call:
		h := x.Call.StaticCallee()
		if h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "fmt" && h.Name() == "Sprintf" {
			k, ok := x.Call.Args[0].(*ssa.Const)
			sl, ok2 := x.Call.Args[1].(*ssa.Slice)
			if ok && ok2 && k.Value != nil {
				args := literalArgs(sl)
				if len(args) == 1 {
					if mi, ok := args[0].(*ssa.MakeInterface); ok && e.current(mi.X) {
						return []string{fmt.Sprintf(constant.StringVal(k.Value), e.char)}
					}
				}
			}
		}
	}
	return []string{"\x00?"}
}

// readBack: what a reader makes of the text, followed by the next character.
func (e *escaper) readBack(s string) string {
	for _, r := range e.readers {
		got, why := r.decode(s, e.next)
		if why != "" {
			return why
		}
		if got != string(e.char) {
			return fmt.Sprintf("that is read as %q", got)
		}
	}
	return ""
}

// decode follows the tables of a reader.
func (r *escapeReader) decode(s string, next rune) (string, string) {
	out := ""
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == '\\':
			if i+1 >= len(s) {
				return "", "the escape is not complete"
			}
			k := int(s[i+1])
			if n, ok := r.lengths[k]; ok {
				digits := s[i+2:]
				for j, d := range digits {
					if !strings.ContainsRune("0123456789abcdefABCDEF", d) {
						digits = digits[:j]
						break
					}
				}
				if len(digits) < n-2 {
					return "", fmt.Sprintf("the escape needs %d digits", n-2)
				}
				var v int64
				fmt.Sscanf(digits[:n-2], "%x", &v)
				out += string(rune(v))
				i += n
				continue
			}
			t, ok := r.table[k]
			if !ok {
				return "", "there is no such escape"
			}
			out += t
			i += 2
		case ch == '"' || ch == '\n' || ch == '\r':
			return "", "the character ends the string"
		case ch == '$' || ch == '%':
			after := func(j int) rune {
				if j < len(s) {
					return rune(s[j])
				}
				if j == len(s) {
					return next
				}
				return 0
			}
			if after(i+1) == '{' {
				return "", "the characters start a template sequence"
			}
			if after(i+1) == rune(ch) && i+1 < len(s) && after(i+2) == '{' {
				out += string(rune(ch))
				i += 2
				continue
			}
			out += string(rune(ch))
			i++
		default:
			out += string([]byte{ch})
			i++
		}
	}
	return out, ""
}
