package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "the names and constructors that type expressions are read by are those that types are written with, in every reader and writer; elements are read and written completely and the wildcard is refused at every depth where exact types are asked for", runC23)
}

func runC23(c *Ctx) {
	t := &nameCheck{c: c}
	for _, f := range c.Funcs {
		if f.Parent() == nil && t.isReader(f) {
			t.reader(f)
		}
	}
	for _, f := range c.Funcs {
		if f.Parent() == nil && t.isWriter(f) {
			t.writer(f)
		}
	}
	t.tables()
	t.compare()
	c.Floor("names read", 6)
	c.Floor("names written", 6)
	c.Floor("elements read", 3)
}

// typeEntry: a name and what it stands for.
type typeEntry struct {
	where string
	name  string
	is    string // the name of the type or of its constructor in cty
	form  string // how its elements are given: "", one, map, list
	at    Poser
}

type nameCheck struct {
	c       *Ctx
	read    []typeEntry
	written []typeEntry
}

// isReader: an expression in, a type and diagnostics out, asking for keywords
// or calls itself.
func (t *nameCheck) isReader(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 2 || !isCtyType(r.At(0).Type()) || !isDiags(r.At(1).Type()) || t.exprParam(f) == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if pkg, name := calleePkg(&call.Call); pkg == hclPath && (name == "ExprAsKeyword" || name == "ExprCall") {
					return true
				}
			}
		}
	}
	return false
}

func (t *nameCheck) exprParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if isNamed(p.Type(), hclPath, "Expression") {
			return p
		}
	}
	return nil
}

func (t *nameCheck) flagParam(f *ssa.Function) (int, *ssa.Parameter) {
	for i, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return i, p
		}
	}
	return -1, nil
}

// isWriter: a type in, a string out, comparing the type with known ones.
func (t *nameCheck) isWriter(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 || f.Signature.Params().Len() != 1 || !isCtyType(f.Signature.Params().At(0).Type()) {
		return false
	}
	if b, ok := r.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ctyVar(in) != "" {
				return true
			}
		}
	}
	return false
}

// ctyGlobal: the name of the cty variable that an instruction reads.
func ctyVar(in any) string {
	if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == ctyPath {
			return g.Name()
		}
	}
	return ""
}

// namesAt: the strings one of which something equals whenever the block is
// reached.
func namesAt(b *ssa.BasicBlock) []string {
	var names map[string]bool
	what := ""
	for d := b; d != nil; d = d.Idom() {
		here := map[string]bool{}
		ok := len(d.Preds) > 0
		for _, p := range d.Preds {
			iff, isIf := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !isIf || p.Succs[0] == p.Succs[1] {
				ok = false
				break
			}
			k, of, isEq := stringTest(iff.Cond)
			if !isEq || p.Succs[0] != d || what != "" && of != what {
				ok = false
				break
			}
			here[k] = true
		}
		if !ok {
			continue
		}
		if names == nil {
			names = here
			_, what, _ = stringTest(d.Preds[0].Instrs[len(d.Preds[0].Instrs)-1].(*ssa.If).Cond)
		}
		for k := range names {
			if !here[k] {
				delete(names, k)
			}
		}
	}
	for _, d := range dominatingTests(b) {
		if k, of, isEq := stringTest(d.cond); isEq && !d.yes && of == what {
			delete(names, k)
		}
	}
	var out []string
	for k := range names {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// stringTest: a comparison with a constant string, and what is compared.
func stringTest(cond ssa.Value) (k, of string, ok bool) {
	bo, isBin := cond.(*ssa.BinOp)
	if !isBin || bo.Op != token.EQL {
		return "", "", false
	}
	x, y := bo.X, bo.Y
	if _, isConst := x.(*ssa.Const); isConst {
		x, y = y, x
	}
	kc, isConst := y.(*ssa.Const)
	if !isConst || kc.Value == nil || kc.Value.Kind() != constant.String {
		return "", "", false
	}
	of = x.Name()
	if ld, isLd := isLoad(x); isLd {
		if fa, isField := ld.X.(*ssa.FieldAddr); isField {
			of = fa.X.Name() + "." + fieldOf(fa.X.Type(), fa.Field)
		}
	}
	return constant.StringVal(kc.Value), of, true
}

func (t *nameCheck) reader(f *ssa.Function) {
	c := t.c
	where := c.FuncName(f)
	flagIndex, flag := t.flagParam(f)
	c.Count("readers", 1)
	anyOK := false
	accept := 0 // the value of the flag that lets the wildcard pass
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		t.leaves(f, r.Results[0], r.Results[1], b, nil, 0, func(x ssa.Value, b *ssa.BasicBlock, fr *frame) {
			names := namesAt(b)
			for fr := fr; names == nil && fr != nil; fr = fr.up {
				names = namesAt(fr.at)
			}
			is, form := t.describe(f, x, fr)
			if is == "" {
				return
			}
			if len(names) == 0 {
				c.Report("unnamed", where+" "+is, At(x.Pos()), fmt.Sprintf("%s gives %s without looking at the name", where, is))
				return
			}
			for _, n := range names {
				if n == "" {
					continue
				}
				c.Count("names read", 1)
				t.read = append(t.read, typeEntry{where, n, is, form, At(x.Pos())})
			}
			if is == "DynamicPseudoType" {
				anyOK = true
				sense := 0
				for _, d := range dominatingTests(b) {
					if d.cond == ssa.Value(flag) && flag != nil {
						sense = -1
						if d.yes {
							sense = 1
						}
					}
				}
				if sense == 0 && flag != nil {
					c.Report("wildcard", where, At(x.Pos()), fmt.Sprintf("%s accepts the wildcard also where exact types are asked for", where))
				}
				accept = sense
			}
		})
	}
	if !anyOK && flag != nil {
		c.Report("wildcard-gone", where, At(f.Pos()), fmt.Sprintf("%s never accepts the wildcard", where))
	}
	// the wish for exact types is handed on
	if flag != nil {
		for _, g := range t.group(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() == nil {
						continue
					}
					h := call.Call.StaticCallee()
					i := flagIndex
					if h != f {
						if !t.inGroup(f, h) {
							continue
						}
						if i, _ = t.flagParam(h); i < 0 {
							continue
						}
					}
					c.Count("nested reads", 1)
					_, own := t.flagParam(g)
					if call.Call.Args[i] != ssa.Value(own) {
						c.Report("nested", c.FuncName(g), in, fmt.Sprintf("%s reads the types inside a type with other wishes than it was given", c.FuncName(g)))
					}
				}
			}
		}
		for _, g := range c.Funcs {
			if g.Parent() != nil || t.inGroup(f, g) || !g.Object().Exported() {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() != f {
						continue
					}
					k, ok := call.Call.Args[flagIndex].(*ssa.Const)
					if !ok || accept == 0 {
						continue
					}
					c.Count("entry points", 1)
					lets := constant.BoolVal(k.Value) == (accept > 0)
					if want := strings.Contains(g.Name(), "Constraint"); want != lets {
						msg := "refuses the wildcard in type constraints"
						if lets {
							msg = "accepts the wildcard where exact types are asked for"
						}
						c.Report("entry", c.FuncName(g), in, fmt.Sprintf("%s %s", c.FuncName(g), msg))
					}
				}
			}
		}
	}
	for _, g := range t.group(f) {
		t.elementsRead(f, g)
	}
}

// group: the reader and the helpers of its package that call it back.
func (t *nameCheck) group(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, g := range t.c.Funcs {
		if g != f && g.Pkg == f.Pkg && t.inGroup(f, g) {
			out = append(out, g)
		}
	}
	return out
}

func (t *nameCheck) inGroup(f, g *ssa.Function) bool {
	if f == g {
		return true
	}
	if g.Pkg != f.Pkg || g.Object() != nil && g.Object().Exported() {
		return false
	}
	for _, h := range staticCallees(g) {
		if h == f {
			return true
		}
	}
	return false
}

// leaves: the types a function returns without an error of its own.
func (t *nameCheck) leaves(f *ssa.Function, v, diags ssa.Value, b *ssa.BasicBlock, fr *frame, depth int, visit func(x ssa.Value, b *ssa.BasicBlock, fr *frame)) {
	if depth > 8 {
		return
	}
	if madeError(diags) {
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			d := diags
			if dp, ok := diags.(*ssa.Phi); ok && dp.Block() == x.Block() {
				d = dp.Edges[i]
			}
			t.leaves(f, e, d, x.Block().Preds[i], fr, depth+1, visit)
		}
		return
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			break
		}
		g := call.Call.StaticCallee()
		if g == nil || g == f || len(g.Blocks) == 0 || !t.c.InRepo(g) || fr.within(g) {
			break
		}
		sub := &frame{f: g, call: &call.Call, up: fr, at: b}
		for _, gb := range g.Blocks {
			if r, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 2 {
				t.leaves(f, r.Results[0], r.Results[1], gb, sub, depth+1, visit)
			}
		}
		return
	}
	visit(v, b, fr)
}

// madeError: diagnostics written out on the spot.
func madeError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		_, ok := x.X.(*ssa.Alloc)
		return ok
	case *ssa.ChangeType:
		return madeError(x.X)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if els := appendedElements(x); els != nil && innermost(x.Parent(), x.Block()) == nil {
				return true
			}
			return false
		}
		if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && isDiags(x.Type()) {
			// a helper that makes them
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(r.Results) != 1 || !madeError(r.Results[0])) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// describe: the cty name a type value goes by, and how its elements come.
func (t *nameCheck) describe(reader *ssa.Function, v ssa.Value, fr *frame) (string, string) {
	if g := ctyVar(v); g != "" {
		return g, ""
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return "", ""
	}
	name := ""
	if g := call.Call.StaticCallee(); g != nil {
		if g.Pkg == nil || g.Pkg.Pkg.Path() != ctyPath {
			return "", ""
		}
		name = g.Name()
	} else if p, ok := call.Call.Value.(*ssa.Parameter); ok && fr != nil {
		for i, q := range fr.f.Params {
			if q == p && i < len(fr.call.Args) {
				a := fr.call.Args[i]
				if ch, ok := a.(*ssa.ChangeType); ok {
					a = ch.X
				}
				if g, ok := a.(*ssa.Function); ok {
					name = g.Name()
				}
			}
		}
	}
	if name == "" || len(call.Call.Args) != 1 {
		return name, ""
	}
	switch call.Call.Args[0].Type().Underlying().(type) {
	case *types.Map:
		return name, "map"
	case *types.Slice:
		return name, "list"
	}
	return name, "one"
}

// elementsRead: sequences of element types are filled completely, each from its
// own element.
func (t *nameCheck) elementsRead(f, g *ssa.Function) {
	c := t.c
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				ia, ok := in.Addr.(*ssa.IndexAddr)
				if !ok || !isCtyType(in.Val.Type()) {
					continue
				}
				if _, given := ia.X.(*ssa.Alloc); given {
					// the argument of append
					if l := innermost(g, b); l != nil {
						c.Count("elements read", 1)
						(&abilities{c: c}).everyRound(g, c.FuncName(g), l, in)
					}
					continue
				}
				l := innermost(g, b)
				if l == nil {
					continue
				}
				c.Count("elements read", 1)
				(&abilities{c: c}).everyRound(g, c.FuncName(g), l, in)
				if idx := loopIndex(l); idx != nil && ia.Index != idx {
					c.Report("place", c.FuncName(g), in, fmt.Sprintf("%s puts an element type elsewhere than in its place", c.FuncName(g)))
				}
			case *ssa.MapUpdate:
				if !isCtyType(in.Value.Type()) {
					continue
				}
				l := innermost(g, b)
				if l == nil {
					continue
				}
				c.Count("elements read", 1)
				t.named(f, g, l, in)
			case *ssa.Call:
				if isReadOf(f, in) {
					c.Count("elements read", 1)
				}
			}
		}
	}
}

func isReadOf(f *ssa.Function, call *ssa.Call) bool { return call.Call.StaticCallee() == f }

// named: an attribute type is entered under the attribute's own name, and an
// attribute that is left out has been complained about.
func (t *nameCheck) named(f, g *ssa.Function, l *loop, mu *ssa.MapUpdate) {
	c := t.c
	if fk, fv := pairField(mu.Key, 0), pairField(mu.Value, 0); fk == "Value" || fv == "Key" {
		c.Report("own", c.FuncName(g), mu, fmt.Sprintf("%s mixes up the name and the type of an attribute", c.FuncName(g)))
	}
	key := basesOf(mu.Key, 0)
	val := basesOf(mu.Value, 0)
	same := len(key) == 0 || len(val) == 0
	for k := range key {
		if val[k] {
			same = true
		}
	}
	if !same {
		c.Report("own", c.FuncName(g), mu, fmt.Sprintf("%s enters the type of one attribute under the name of another", c.FuncName(g)))
	}
	for b := range l.blocks {
		for _, s := range b.Succs {
			if s != l.header || mu.Block().Dominates(b) {
				continue
			}
			told := false
			for d := b; d != nil && l.blocks[d]; d = d.Idom() {
				for _, in := range d.Instrs {
					if call, ok := in.(*ssa.Call); ok && isDiags(call.Type()) {
						told = true
					}
				}
				if d == l.header {
					break
				}
			}
			if !told {
				c.Report("skipped", c.FuncName(g), mu, fmt.Sprintf("%s leaves out an attribute without a complaint", c.FuncName(g)))
			}
		}
	}
}

// pairField: the part of a key and value pair that a value is computed from.
func pairField(v ssa.Value, depth int) string {
	if depth > 8 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if r := pairField(a, depth+1); r != "" {
				return r
			}
		}
	case *ssa.Extract:
		return pairField(x.Tuple, depth+1)
	case *ssa.UnOp:
		return pairField(x.X, depth+1)
	case *ssa.FieldAddr:
		if isNamed(derefType(x.X.Type()), hclPath, "KeyValuePair") {
			return fieldOf(x.X.Type(), x.Field)
		}
	case *ssa.Field:
		if isNamed(x.X.Type(), hclPath, "KeyValuePair") {
			return fieldOf(x.X.Type(), x.Field)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if r := pairField(e, depth+1); r != "" {
				return r
			}
		}
	}
	return ""
}

// basesOf: the elements of sequences that a value is computed from.
func basesOf(v ssa.Value, depth int) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if depth > 8 || v == nil {
		return out
	}
	add := func(m map[ssa.Value]bool) {
		for k := range m {
			out[k] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			add(basesOf(a, depth+1))
		}
		if x.Call.IsInvoke() {
			add(basesOf(x.Call.Value, depth+1))
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			out[x.Tuple] = true
			return out
		}
		add(basesOf(x.Tuple, depth+1))
	case *ssa.UnOp:
		add(basesOf(x.X, depth+1))
	case *ssa.FieldAddr:
		add(basesOf(x.X, depth+1))
	case *ssa.Field:
		add(basesOf(x.X, depth+1))
	case *ssa.IndexAddr:
		out[x.Index] = true
	case *ssa.Lookup:
		add(basesOf(x.Index, depth+1))
	case *ssa.Alloc:
		for _, s := range valuesIn(x) {
			add(basesOf(s, depth+1))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(basesOf(e, depth+1))
		}
	}
	return out
}

// writer: what each known type and each kind of type is written as.
func (t *nameCheck) writer(f *ssa.Function) {
	c := t.c
	where := c.FuncName(f)
	c.Count("writers", 1)
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		is, form, sense := "", "", true
		cond := iff.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, sense = u.X, !sense
		}
		switch x := cond.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			for _, v := range []ssa.Value{x.X, x.Y} {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if g := ctyVar(v); g != "" {
					is = g
				}
			}
			if x.Op == token.NEQ {
				sense = !sense
			}
		case *ssa.Call:
			pkg, name := calleePkg(&x.Call)
			if pkg != ctyPath {
				continue
			}
			switch {
			case name == "Equals":
				for _, a := range x.Call.Args {
					if g := ctyVar(a); g != "" {
						is = g
					}
				}
			case strings.HasPrefix(name, "Is") && strings.HasSuffix(name, "Type"):
				is = strings.TrimSuffix(strings.TrimPrefix(name, "Is"), "Type")
				form = map[string]string{"List": "one", "Set": "one", "Map": "one", "Object": "map", "Tuple": "list"}[is]
				if form == "" {
					continue
				}
			}
		}
		if is == "" {
			continue
		}
		s := b.Succs[0]
		if !sense {
			s = b.Succs[1]
		}
		if len(s.Preds) != 1 {
			continue
		}
		text := t.text(f, f, s, nil, map[*ssa.Function]bool{f: true})
		if text == "" {
			continue
		}
		c.Count("names written", 1)
		t.written = append(t.written, typeEntry{where, text, is, form, At(iff.Cond.Pos())})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != f {
				continue
			}
			c.Count("elements written", 1)
			if l := innermost(f, b); l != nil {
				(&abilities{c: c}).everyRound(f, where, l, call)
				if idx := loopIndex(l); idx != nil && !basesOf(call.Call.Args[0], 0)[idx] {
					c.Report("own-written", where, call, fmt.Sprintf("%s does not write the type of the element at hand", where))
				}
			}
		}
	}
}

// text: the characters written in the part of a function that a block leads
// into, in the order of the source.
func (t *nameCheck) text(w, f *ssa.Function, from *ssa.BasicBlock, given []ssa.Value, seen map[*ssa.Function]bool) string {
	type piece struct {
		pos token.Pos
		s   string
	}
	var out []piece
	var str func(v ssa.Value) string
	str = func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return ""
			}
			switch x.Value.Kind() {
			case constant.String:
				return constant.StringVal(x.Value)
			case constant.Int:
				if n, ok := constant.Int64Val(x.Value); ok && n > 0 && n < 0x10ffff {
					return string(rune(n))
				}
			}
		case *ssa.MakeInterface:
			return str(x.X)
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x && i < len(given) {
					if k, ok := given[i].(*ssa.Const); ok {
						return str(k)
					}
				}
			}
		}
		return ""
	}
	add := func(pos token.Pos, s string) {
		if s != "" {
			out = append(out, piece{pos, s})
		}
	}
	for _, b := range f.Blocks {
		if from != nil && !from.Dominates(b) {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				for _, r := range x.Results {
					add(x.Pos(), str(r))
				}
			case *ssa.BinOp:
				if x.Op == token.ADD {
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						add(x.Pos()-1, str(x.X))
						add(x.Pos(), str(x.Y))
					}
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g != w && t.c.InRepo(g) && g.Pkg == w.Pkg && len(g.Blocks) > 0 && !seen[g] {
					seen[g] = true
					add(x.Pos(), t.text(w, g, nil, x.Call.Args, seen))
					delete(seen, g)
					continue
				}
				pkg, name := calleePkg(&x.Call)
				switch {
				case pkg == "fmt" && strings.Contains(name, "rintf"):
					n := len(x.Call.Args)
					var args []ssa.Value
					if sl, ok := x.Call.Args[n-1].(*ssa.Slice); ok {
						args = literalArgs(sl)
					}
					format := str(x.Call.Args[n-2])
					s := ""
					for i := 0; i < len(format); i++ {
						if format[i] == '%' && i+1 < len(format) && format[i+1] != '%' {
							if len(args) > 0 {
								s += str(args[0])
								args = args[1:]
							}
							i++
							continue
						}
						s += format[i : i+1]
					}
					add(x.Pos(), s)
				case pkg == "fmt", strings.HasPrefix(name, "Write"), pkg == "strings" && name == "Join":
					for _, a := range x.Call.Args {
						add(x.Pos(), str(a))
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].pos < out[j].pos })
	s := ""
	for _, p := range out {
		s += p.s
	}
	return s
}

// literalArgs: the elements of a sequence written out.
func literalArgs(sl *ssa.Slice) []ssa.Value {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int]ssa.Value{}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			k, ok := constInt(ia.Index)
			if !ok {
				return nil
			}
			for _, u := range *ia.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					at[k] = s.Val
				}
			}
		}
	}
	var out []ssa.Value
	for i := 0; i < len(at); i++ {
		out = append(out, at[i])
	}
	return out
}

// tables: names of types entered in maps when a package is initialised.
func (t *nameCheck) tables() {
	c := t.c
	for _, f := range c.Inits {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				is, form := t.entryOf(mu.Value, 0)
				if is == "" {
					continue
				}
				c.Count("names in tables", 1)
				where := "tables of " + relPkg(f.Pkg.Pkg)
				for _, g := range c.Funcs {
					if g.Pkg == f.Pkg && g.Parent() == nil && t.isReader(g) {
						where = c.FuncName(g)
					}
				}
				t.read = append(t.read, typeEntry{where, constant.StringVal(k.Value), is, form, mu})
			}
		}
	}
}

// entryOf: the type a table entry stands for: a known type passed on, or a
// function that makes one.
func (t *nameCheck) entryOf(v ssa.Value, depth int) (string, string) {
	if depth > 6 || v == nil {
		return "", ""
	}
	if g := ctyVar(v); g != "" && isCtyType(v.Type()) {
		return g, ""
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return t.entryOf(x.X, depth+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return t.entryOf(al, depth+1)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return "", ""
		}
		if t.c.InRepo(g) {
			if len(x.Call.Args) == 1 && isCtyType(x.Call.Args[0].Type()) {
				return t.entryOf(x.Call.Args[0], depth+1)
			}
			return "", ""
		}
		if g.Name() == "New" && len(x.Call.Args) == 1 {
			return t.entryOf(x.Call.Args[0], depth+1)
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, u := range *fa.Referrers() {
				s, ok := u.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(fa) {
					continue
				}
				val := s.Val
				if ch, ok := val.(*ssa.ChangeType); ok {
					val = ch.X
				}
				var g *ssa.Function
				switch y := val.(type) {
				case *ssa.Function:
					g = y
				case *ssa.MakeClosure:
					g, _ = y.Fn.(*ssa.Function)
				}
				if g == nil || fieldOf(fa.X.Type(), fa.Field) != "Impl" {
					continue
				}
				return t.made(g)
			}
		}
	}
	return "", ""
}

// made: the single constructor of types that a function uses.
func (t *nameCheck) made(g *ssa.Function) (string, string) {
	is, form := "", ""
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !isCtyType(call.Type()) || len(call.Call.Args) != 1 {
				continue
			}
			pkg, name := calleePkg(&call.Call)
			if pkg != ctyPath {
				continue
			}
			if is != "" && is != name {
				return "", ""
			}
			is = name
			form = "one"
			switch call.Call.Args[0].Type().Underlying().(type) {
			case *types.Map:
				form = "map"
			case *types.Slice:
				form = "list"
			}
		}
	}
	if is != "" {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if l := innermost(g, b); l != nil && isCtyType(in.Value.Type()) {
						t.c.Count("elements read", 1)
						(&abilities{c: t.c}).everyRound(g, t.c.FuncName(g), l, in)
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if l := innermost(g, b); l != nil {
							t.c.Count("elements read", 1)
							(&abilities{c: t.c}).everyRound(g, t.c.FuncName(g), l, in)
						}
					}
				}
			}
		}
	}
	return is, form
}

// compare: reading what was written gives the same type.
func (t *nameCheck) compare() {
	c := t.c
	bracket := map[string][2]string{"": {"", ""}, "one": {"(", ")"}, "map": {"({", "})"}, "list": {"([", "])"}}
	middle := map[string]string{"": "", "one": "", "map": ",=", "list": ","}
	byPlace := map[string]map[string]typeEntry{}
	for _, r := range t.read {
		m := byPlace[r.where]
		if m == nil {
			m = map[string]typeEntry{}
			byPlace[r.where] = m
		}
		if old, ok := m[r.name]; ok && old.is != r.is {
			c.Report("ambiguous", r.where+" "+r.name, r.at, fmt.Sprintf("%s reads %s as %s in one place and as %s in another", r.where, r.name, old.is, r.is))
		}
		m[r.name] = r
	}
	for place, m := range byPlace {
		for _, w := range t.written {
			found := false
			for name, r := range m {
				if r.is != w.is {
					continue
				}
				found = true
				br := bracket[r.form]
				if strings.HasPrefix(w.name, name+br[0]) && strings.HasSuffix(w.name, br[1]) && len(w.name) >= len(name)+len(br[0])+len(br[1]) {
					mid := w.name[len(name)+len(br[0]) : len(w.name)-len(br[1])]
					if sortedSet(mid) == middle[r.form] {
						continue
					}
				}
				c.Report("differs", place+" "+r.is, w.at, fmt.Sprintf("%s is written as %s, but read by %s as %s%s…%s", r.is, w.name, place, name, br[0], br[1]))
			}
			if !found {
				c.Report("unread", place+" "+w.is, w.at, fmt.Sprintf("%s is written as %s, but %s does not read it", w.is, w.name, place))
			}
		}
		for name, r := range m {
			found := false
			for _, w := range t.written {
				if w.is == r.is {
					found = true
				}
			}
			if !found && len(t.written) > 0 {
				c.Report("unwritten", place+" "+name, r.at, fmt.Sprintf("%s is read as %s, but that type is not written by name", name, r.is))
			}
		}
	}
	c.Obligation("each of the %d written forms of types is read back as the same type by each reader, and each of the %d names read has a written form", len(t.written), len(t.read))
}

func sortedSet(s string) string {
	m := map[rune]bool{}
	for _, r := range s {
		m[r] = true
	}
	var out []rune
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return string(out)
}
