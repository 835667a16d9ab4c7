package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "the tables of operators, brackets and escapes are read from the initialisation and the decisions of the code and compared with the tables of the language specification; the parser of binary operators is followed to see that it takes the levels in order and groups to the left; every invalid kind of token is an error on the first occurrence", runC20)
}

// operators: the name the scanner gives an operator and the function that
// computes it.
var operators = map[string]struct{ tok, fn, typ string }{
	"||": {"TokenOr", "OrFunc", "Bool"},
	"&&": {"TokenAnd", "AndFunc", "Bool"},
	"==": {"TokenEqualOp", "EqualFunc", "Bool"},
	"!=": {"TokenNotEqual", "NotEqualFunc", "Bool"},
	">":  {"TokenGreaterThan", "GreaterThanFunc", "Bool"},
	">=": {"TokenGreaterThanEq", "GreaterThanOrEqualToFunc", "Bool"},
	"<":  {"TokenLessThan", "LessThanFunc", "Bool"},
	"<=": {"TokenLessThanEq", "LessThanOrEqualToFunc", "Bool"},
	"+":  {"TokenPlus", "AddFunc", "Number"},
	"-":  {"TokenMinus", "SubtractFunc", "Number"},
	"*":  {"TokenStar", "MultiplyFunc", "Number"},
	"/":  {"TokenSlash", "DivideFunc", "Number"},
	"%":  {"TokenPercent", "ModuloFunc", "Number"},
}

var unaryOperators = map[string]struct{ tok, fn, typ string }{
	"-": {"TokenMinus", "NegateFunc", "Number"},
	"!": {"TokenBang", "NotFunc", "Bool"},
}

type grammar struct {
	c     *Ctx
	kinds *types.Named // TokenType
	op    *types.Named // Operation
	names map[int]string
	spec  string
	term  map[*ssa.Function]bool // what parses the operands of all operators
	not   []domTest              // what is decided on the way from the place looked at
}

func runC20(c *Ctx) {
	g := &grammar{c: c, names: map[int]string{}, term: map[*ssa.Function]bool{}}
	g.kinds = c.LookupType("hcl/hclsyntax", "TokenType")
	g.op = c.LookupType("hcl/hclsyntax", "Operation")
	if g.kinds == nil || g.op == nil {
		c.Report("anchor", "types", At(token.NoPos), "hclsyntax.TokenType or hclsyntax.Operation is gone")
		return
	}
	sc := g.kinds.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), g.kinds) {
			v, _ := constant.Int64Val(k.Val())
			g.names[int(v)] = n
		}
	}
	if b, err := os.ReadFile(filepath.Join(c.Dir, "hcl/hclsyntax/spec.md")); err == nil {
		g.spec = string(b)
	}
	g.binary()
	g.levels()
	g.unary()
	g.evaluated()
	g.brackets()
	g.invalid()
	g.escapes()
	c.Floor("binary operators", 13)
	c.Floor("unary operators", 2)
	c.Floor("places that parse a level", 1)
	c.Floor("bracket kinds", 13)
	c.Floor("invalid kinds", 10)
	c.Floor("escapes", 5)
}

// specLevels reads the table of precedence levels from the specification.
func (g *grammar) specLevels() [][]string {
	byLevel := map[int][]string{}
	lines := strings.Split(g.spec, "\n")
	for i, l := range lines {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "Level" && f[1] == "Operators" {
			for _, r := range lines[i+1:] {
				f := strings.Fields(r)
				if len(f) < 2 {
					break
				}
				n, err := strconv.Atoi(f[0])
				if err != nil {
					break
				}
				byLevel[n] = f[1:]
			}
			break
		}
	}
	var nums []int
	for n := range byLevel {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	var out [][]string
	for _, n := range nums {
		out = append(out, byLevel[n])
	}
	return out
}

func (g *grammar) isLevel(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Key(), g.kinds) && types.Identical(derefType(m.Elem()), g.op)
}

func (g *grammar) isLevels(t types.Type) bool {
	switch s := derefType(t).Underlying().(type) {
	case *types.Slice:
		return g.isLevel(s.Elem())
	case *types.Array:
		return g.isLevel(s.Elem())
	}
	return false
}

// operation: the function and type of an operation.
func (g *grammar) operation(l *literal) (fn, typ string) {
	if l == nil {
		return "?", "?"
	}
	if l.global != nil {
		return g.operation(g.c.literalOf(l.global))
	}
	named := func(x *literal) string {
		if x != nil && x.global != nil {
			return x.global.Name()
		}
		return "?"
	}
	return named(l.fields["Impl"]), named(l.fields["Type"])
}

func (g *grammar) binary() {
	c := g.c
	want := g.specLevels()
	if len(want) == 0 {
		c.Report("anchor", "specification", At(token.NoPos), "the specification has no table of operator levels any more")
		return
	}
	var table *ssa.Global
	for _, m := range g.pkg().Members {
		if v, ok := m.(*ssa.Global); ok && g.isLevels(derefType(v.Type())) {
			table = v
		}
	}
	if table == nil {
		c.Report("anchor", "table", At(token.NoPos), "no table of operator levels was found")
		return
	}
	l := c.literalOf(table)
	if l == nil || len(l.elems) == 0 {
		c.Report("anchor", "table", At(table.Pos()), "the table of operator levels is not a literal")
		return
	}
	if len(l.elems) != len(want) {
		c.Report("levels", "number", At(table.Pos()), fmt.Sprintf("there are %d levels of operators, the specification has %d", len(l.elems), len(want)))
	}
	level := map[string]int{}
	got := map[string]string{}
	typ := map[string]string{}
	for i, lv := range l.elems {
		if lv == nil {
			continue
		}
		for j, k := range lv.keys {
			if k == nil || k.con == nil {
				continue
			}
			n, _ := constant.Int64Val(k.con)
			name := g.names[int(n)]
			if _, dup := level[name]; dup {
				c.Report("levels", name, At(table.Pos()), name+" is on more than one level")
			}
			level[name] = i
			got[name], typ[name] = g.operation(lv.vals[j])
		}
	}
	for i, ops := range want {
		for _, o := range ops {
			op, ok := operators[o]
			if !ok {
				c.Report("anchor", o, At(table.Pos()), "the specification has an operator "+o+" that is not known here")
				continue
			}
			c.Count("binary operators", 1)
			c.Obligation("%s: level %d, %s, %s", o, i+1, op.fn, op.typ)
			if n, there := level[op.tok]; !there {
				c.Report("operator", o, At(table.Pos()), fmt.Sprintf("the operator %s is not in the table", o))
			} else if n != i {
				c.Report("level", o, At(table.Pos()), fmt.Sprintf("the operator %s is on level %d, the specification has it on level %d", o, n+1, i+1))
			}
			if fn := got[op.tok]; fn != "" && fn != op.fn {
				c.Report("meaning", o, At(table.Pos()), fmt.Sprintf("the operator %s is computed by %s, not by %s", o, fn, op.fn))
			}
			if t := typ[op.tok]; t != "" && t != op.typ {
				c.Report("type", o, At(table.Pos()), fmt.Sprintf("the operator %s is said to give a %s, not a %s", o, t, op.typ))
			}
			delete(level, op.tok)
		}
	}
	for n := range level {
		c.Report("operator", n, At(table.Pos()), n+" is not an operator of the specification")
	}
}

func (g *grammar) pkg() *ssa.Package {
	return g.c.SSA.Package(g.kinds.Obj().Pkg())
}

// levels: the parser of the operators of one level.
func (g *grammar) levels() {
	c := g.c
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				lk, ok := in.(*ssa.Lookup)
				if !ok || !g.isLevel(lk.X.Type()) {
					continue
				}
				c.Count("places that parse a level", 1)
				g.level(f, lk)
			}
		}
	}
}

func (g *grammar) level(f *ssa.Function, lk *ssa.Lookup) {
	c := g.c
	name := c.FuncName(f)
	// the level taken: the first of those given, or the one of a given number
	ld, ok := isLoad(lk.X)
	var ia *ssa.IndexAddr
	if ok {
		ia, _ = ld.X.(*ssa.IndexAddr)
	}
	if ia == nil {
		if _, isParam := lk.X.(*ssa.Parameter); !isParam {
			c.Report("anchor", name, lk, name+" takes the operators of a level from an unexpected place")
		}
		return
	}
	var par *ssa.Parameter
	byNumber := false
	if p, ok := ia.X.(*ssa.Parameter); ok {
		par = p
		if k, ok := constInt(ia.Index); !ok || k != 0 {
			c.Report("taken", name, lk, name+" does not take the lowest of the levels given to it")
		}
	} else if p, ok := ia.Index.(*ssa.Parameter); ok {
		par = p
		byNumber = true
	} else {
		c.Report("anchor", name, lk, name+" takes the operators of a level from an unexpected place")
		return
	}
	idx := paramIndex(f, par)
	// operands are of the next level
	afterOp := map[*ssa.Call]bool{}
	var operands []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != f || idx >= len(call.Call.Args) {
				continue
			}
			operands = append(operands, call)
			if !nextLevel(call.Call.Args[idx], par, byNumber) {
				c.Report("next", name, call, name+" parses an operand with other operators than those of the higher levels")
			}
			for _, d := range dominatingTests(b) {
				if foundTest(d, lk) {
					afterOp[call] = true
				}
			}
		}
	}
	if len(operands) < 2 {
		c.Report("next", name, f, name+" does not parse two operands of the next level")
	}
	// above the highest level there are terms
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee() == f {
				continue
			}
			h := call.Call.StaticCallee()
			if h.Signature.Results().Len() == f.Signature.Results().Len() && h.Signature.Results().Len() > 0 &&
				types.Identical(h.Signature.Results().At(0).Type(), f.Signature.Results().At(0).Type()) && h.Pkg == f.Pkg {
				g.term[h] = true
			}
		}
	}
	// the first call is with all levels
	for _, h := range c.Funcs {
		if h == f {
			continue
		}
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != f || idx >= len(call.Call.Args) {
					continue
				}
				a := call.Call.Args[idx]
				full := false
				if byNumber {
					k, ok := constInt(a)
					full = ok && k == 0
				} else if ld, ok := isLoad(a); ok {
					_, full = ld.X.(*ssa.Global)
				}
				if !full {
					c.Report("all", c.FuncName(h), call, c.FuncName(h)+" parses an expression with part of the operators only")
				}
			}
		}
	}
	// the operands and the operator of a node
	for _, h := range c.Funcs {
		if h != f && !c.calledFrom(f, h) {
			continue
		}
		for _, n := range nodesMade(h, "BinaryOpExpr") {
			g.node(f, h, n, lk, afterOp)
		}
	}
}

// calledFrom: a function of the same package called directly.
func (c *Ctx) calledFrom(f, h *ssa.Function) bool {
	if h.Pkg != f.Pkg {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == h {
				return true
			}
		}
	}
	return false
}

func nodesMade(f *ssa.Function, name string) []*ssa.Alloc {
	var out []*ssa.Alloc
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && isNamed(derefType(al.Type()), synPath, name) {
				out = append(out, al)
			}
		}
	}
	return out
}

func nextLevel(v ssa.Value, par *ssa.Parameter, byNumber bool) bool {
	if byNumber {
		bo, ok := v.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			return false
		}
		k, ok := constInt(bo.Y)
		return ok && k == 1 && bo.X == ssa.Value(par)
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.X != ssa.Value(par) || sl.High != nil && lenName(sl.High) != ssa.Value(par) {
		return false
	}
	k, ok := constInt(sl.Low)
	return ok && k == 1
}

func lenName(v ssa.Value) ssa.Value {
	if call, ok := v.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return call.Call.Args[0]
		}
	}
	return nil
}

// foundTest: the condition says that the operator was found.
func foundTest(d domTest, lk *ssa.Lookup) bool {
	switch x := d.cond.(type) {
	case *ssa.Extract:
		return x.Tuple == ssa.Value(lk) && x.Index == 1 && d.yes
	case *ssa.BinOp:
		v := x.X
		if isNilConst(v) {
			v = x.Y
		}
		if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == ssa.Value(lk) || v == ssa.Value(lk) {
			return d.yes == (x.Op == token.NEQ)
		}
	}
	return false
}

// node: what goes into the fields of a node for a binary operation.
func (g *grammar) node(f, h *ssa.Function, al *ssa.Alloc, lk *ssa.Lookup, afterOp map[*ssa.Call]bool) {
	c := g.c
	name := c.FuncName(f)
	vals := map[string][]ssa.Value{}
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			for _, u := range *fa.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					n := fieldOf(fa.X.Type(), fa.Field)
					vals[n] = append(vals[n], argsFor(f, h, st.Val)...)
				}
			}
		}
	}
	c.Count("binary nodes", 1)
	for _, v := range vals["LHS"] {
		for _, o := range originsOf(v, f) {
			if call, ok := o.(*ssa.Call); ok && call.Call.StaticCallee() == f && afterOp[call] {
				c.Report("order", name+" LHS", al, name+" makes what follows the operator its left operand")
			}
		}
	}
	for _, v := range vals["RHS"] {
		for _, o := range originsOf(v, f) {
			call, ok := o.(*ssa.Call)
			switch {
			case ok && call.Call.StaticCallee() == f && !afterOp[call]:
				c.Report("order", name+" RHS", al, name+" makes what precedes the operator its right operand")
			case isNode(o):
				c.Report("order", name+" RHS", al, name+" groups operators of one level to the right")
			}
		}
	}
	for _, op := range vals["Op"] {
		for _, o := range originsOf(op, f) {
			if ex, ok := o.(*ssa.Extract); ok && ex.Tuple == ssa.Value(lk) || o == ssa.Value(lk) {
				continue
			}
			if isNilConst(o) {
				continue
			}
			c.Report("operation", name, al, name+" makes a node with another operation than that of the operator read")
		}
		for _, r := range vals["RHS"] {
			if carried(op, f) != carried(r, f) {
				c.Report("operation", name, al, name+" makes a node from an operator and an operand that do not belong together")
			}
		}
	}
}

func isNode(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if isNamed(derefType(v.Type()), synPath, "BinaryOpExpr") {
		return true
	}
	return false
}

// carried: the value is that of an earlier round.
func carried(v ssa.Value, f *ssa.Function) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, l := range loopsOf(f) {
		if l.header == phi.Block() {
			return true
		}
	}
	return false
}

// argsFor: a value of h as seen from its caller f.
func argsFor(f, h *ssa.Function, v ssa.Value) []ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || f == h {
		return []ssa.Value{v}
	}
	i := paramIndex(h, p)
	var out []ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == h && i < len(call.Call.Args) {
				out = append(out, call.Call.Args[i])
			}
		}
	}
	return out
}

// originsOf: where a value comes from, through choices and calls.
func originsOf(v ssa.Value, f *ssa.Function) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
				out = append(out, call)
				return
			}
		case *ssa.ChangeInterface:
			walk(x.X)
			return
		case *ssa.ChangeType:
			walk(x.X)
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
							walk(st.Val)
						}
					}
					return
				}
			}
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

// unary: the nodes for unary operators.
func (g *grammar) unary() {
	c := g.c
	met := map[string]bool{}
	seen := 0
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || c.generated(f) {
			continue
		}
		for _, al := range nodesMade(f, "UnaryOpExpr") {
			seen++
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, u := range *fa.Referrers() {
					st, ok := u.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(fa) {
						continue
					}
					switch fieldOf(fa.X.Type(), fa.Field) {
					case "Op":
						g.unaryOp(f, st.Val, st.Block(), al, met, 0)
					case "Val":
						g.operand(f, st.Val, al)
					}
				}
			}
		}
	}
	for o, op := range unaryOperators {
		c.Count("unary operators", 1)
		c.Obligation("%s: %s", o, op.fn)
		if seen > 0 && !met[op.tok] {
			c.Report("operator", "unary "+o, At(token.NoPos), "there is no unary operator "+o)
		}
	}
}

func (g *grammar) unaryOp(f *ssa.Function, v ssa.Value, b *ssa.BasicBlock, al *ssa.Alloc, met map[string]bool, depth int) {
	c := g.c
	if p, ok := v.(*ssa.Parameter); ok && depth < 3 {
		i := paramIndex(f, p)
		for _, h := range c.Funcs {
			for _, hb := range h.Blocks {
				for _, in := range hb.Instrs {
					if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == f && i < len(call.Call.Args) {
						g.unaryOp(h, call.Call.Args[i], hb, al, met, depth+1)
					}
				}
			}
		}
		return
	}
	if phi, ok := v.(*ssa.Phi); ok && depth < 3 {
		for i, e := range phi.Edges {
			g.not = edgeTest(phi.Block().Preds[i], phi.Block())
			g.unaryOp(f, e, phi.Block().Preds[i], al, met, depth+1)
			g.not = nil
		}
		return
	}
	var lk *ssa.Lookup
	if ex, ok := v.(*ssa.Extract); ok {
		lk, _ = ex.Tuple.(*ssa.Lookup)
	} else {
		lk, _ = v.(*ssa.Lookup)
	}
	if lk != nil && g.isLevel(lk.X.Type()) {
		ld, ok := isLoad(lk.X)
		if !ok {
			return
		}
		gl, ok := ld.X.(*ssa.Global)
		if !ok {
			return
		}
		if l := c.literalOf(gl); l != nil {
			for i, k := range l.keys {
				n, _ := constant.Int64Val(k.con)
				fn, typ := g.operation(l.vals[i])
				g.unaryPair(g.names[int(n)], fn, typ, al, met)
			}
		}
		return
	}
	ld, ok := isLoad(v)
	if !ok {
		return
	}
	gl, ok := ld.X.(*ssa.Global)
	if !ok {
		return
	}
	fn, typ := g.operation(&literal{global: gl})
	// the token is looked at before and after it is taken
	var kinds map[int]bool
	for _, ks := range casesAt(b) {
		here := map[int]bool{}
		for _, k := range ks {
			if g.names[k] != "" && (kinds == nil || kinds[k]) {
				here[k] = true
			}
		}
		if len(here) > 0 {
			kinds = here
		}
	}
	for _, d := range g.not {
		if k, _, ok := caseTest(d.cond); ok {
			if d.yes {
				kinds = map[int]bool{k: true}
			} else {
				delete(kinds, k)
			}
		}
	}
	for k := range kinds {
		g.unaryPair(g.names[k], fn, typ, al, met)
	}
}

func (g *grammar) unaryPair(tok, fn, typ string, al *ssa.Alloc, met map[string]bool) {
	for _, op := range unaryOperators {
		if op.tok != tok {
			continue
		}
		met[tok] = true
		if fn != op.fn {
			g.c.Report("meaning", "unary "+tok, al, fmt.Sprintf("the unary operator %s is computed by %s, not by %s", tok, fn, op.fn))
		}
		if typ != op.typ {
			g.c.Report("type", "unary "+tok, al, fmt.Sprintf("the unary operator %s is said to give a %s, not a %s", tok, typ, op.typ))
		}
		return
	}
	g.c.Report("operator", "unary "+tok, al, tok+" is not a unary operator of the specification")
}

// operand: a unary operator binds tighter than any binary one, and less tight
// than what belongs to a term.
func (g *grammar) operand(f *ssa.Function, v ssa.Value, al *ssa.Alloc) {
	if len(g.term) == 0 {
		return
	}
	for _, o := range originsOf(v, f) {
		call, ok := o.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil {
			continue
		}
		h := call.Call.StaticCallee()
		if h.Pkg != f.Pkg || g.term[h] || g.sameAsTerm(h) {
			continue
		}
		g.c.Report("unary", g.c.FuncName(f), al, fmt.Sprintf("%s takes the operand of a unary operator from %s instead of what gives the operands of the binary ones", g.c.FuncName(f), g.c.FuncName(h)))
	}
}

func (g *grammar) sameAsTerm(h *ssa.Function) bool {
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			for _, o := range originsOf(ret.Results[0], h) {
				call, ok := o.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !g.term[call.Call.StaticCallee()] {
					return false
				}
			}
		}
	}
	return true
}

// evaluated: the operands are given to the function in their order.
func (g *grammar) evaluated() {
	c := g.c
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || f.Name() != "Value" || f.Signature.Recv() == nil || !isNamed(derefType(f.Signature.Recv().Type()), synPath, "BinaryOpExpr") {
			continue
		}
		e := newPathEnv(c, f)
		e.calls(func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
			cc := call.Common()
			h := cc.StaticCallee()
			if h == nil || h.Name() != "Call" || h.Pkg == nil || h.Pkg.Pkg.Path() != ctyPath+"/function" {
				return
			}
			list := cc.Args[len(cc.Args)-1]
			sl, ok := list.(*ssa.Slice)
			if !ok {
				return
			}
			c.Count("calls of operations", 1)
			for i, v := range literalArgs(sl) {
				want := []string{"p0.LHS", "p0.RHS"}
				if i > 1 || v == nil {
					continue
				}
				for _, p := range e.of(v) {
					if !strings.HasPrefix(p, want[i]+".") {
						c.Report("operands", c.FuncName(f), call, fmt.Sprintf("operand %d of a binary operation is computed from %s", i+1, p))
					}
				}
			}
		})
	}
	c.Floor("calls of operations", 1)
}

var bracketPairs = [][2]string{
	{"TokenOBrace", "TokenCBrace"}, {"TokenOBrack", "TokenCBrack"}, {"TokenOParen", "TokenCParen"},
	{"TokenOQuote", "TokenCQuote"}, {"TokenOHeredoc", "TokenCHeredoc"},
	{"TokenTemplateInterp", "TokenTemplateSeqEnd"}, {"TokenTemplateControl", "TokenTemplateSeqEnd"},
}

// brackets: what belongs together, and what opens and closes.
func (g *grammar) brackets() {
	c := g.c
	val := map[string]int{}
	for k, n := range g.names {
		val[n] = k
	}
	eval := func(f *ssa.Function, kind int) (out []int, ok bool) {
		if m := g.tableOf(f); m != nil {
			v, there := m[kind]
			if !there {
				v = 0
			}
			return []int{v}, true
		}
		p := f.Params[len(f.Params)-1]
		for _, k := range ccp(c, f, map[ssa.Value]constant.Value{p: constant.MakeInt64(int64(kind))}, 0) {
			if k == nil {
				return nil, false
			}
			n, _ := constant.Int64Val(k)
			out = append(out, int(n))
		}
		return out, len(out) > 0
	}
	for _, f := range c.Funcs {
		if c.generated(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 1 || f.Parent() != nil {
			continue
		}
		pt, rt := f.Signature.Params().At(0).Type(), f.Signature.Results().At(0).Type()
		switch {
		case types.Identical(pt, g.kinds) && types.Identical(rt, g.kinds):
			for _, bp := range bracketPairs {
				for dir := 0; dir < 2; dir++ {
					from, to := bp[dir], bp[1-dir]
					if dir == 1 && from == "TokenTemplateSeqEnd" && to == "TokenTemplateControl" {
						continue
					}
					c.Count("bracket kinds", 1)
					c.Obligation("%s: %s belongs to %s", c.FuncName(f), from, to)
					got, ok := eval(f, val[from])
					if !ok {
						c.Report("anchor", c.FuncName(f), f, "it is not decided what bracket belongs to "+from)
						continue
					}
					for _, k := range got {
						if k != val[to] && !(from == "TokenTemplateSeqEnd" && g.names[k] == "TokenTemplateControl") {
							c.Report("bracket", from, f, fmt.Sprintf("%s says that %s belongs to %s", c.FuncName(f), from, g.names[k]))
						}
					}
				}
			}
		case (isPtrNamed(pt, "hcl/hclsyntax", "Token") || isPtrNamed(pt, "hclwrite", "Token") || types.Identical(pt, g.kinds)) && isInt(rt):
			some := 0
			for _, bp := range bracketPairs[:3] {
				for dir := 0; dir < 2; dir++ {
					if got, ok := eval(f, val[bp[dir]]); ok && len(got) == 1 && (got[0] == 1 || got[0] == -1) {
						some++
					}
				}
			}
			if some < 3 {
				continue
			}
			for _, bp := range bracketPairs {
				for dir := 0; dir < 2; dir++ {
					if strings.Contains(bp[0], "Quote") || strings.Contains(bp[0], "Heredoc") {
						continue
					}
					want := 1 - 2*dir
					c.Count("bracket kinds", 1)
					got, ok := eval(f, val[bp[dir]])
					if !ok {
						continue
					}
					for _, k := range got {
						if k != want {
							c.Report("bracket", c.FuncName(f)+" "+bp[dir], f, fmt.Sprintf("%s gives %d for %s", c.FuncName(f), k, bp[dir]))
						}
					}
				}
			}
		}
	}
}

// tableOf: the function gives the entry of a package table for its parameter.
func (g *grammar) tableOf(f *ssa.Function) map[int]int {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				continue
			}
			ld, ok := isLoad(lk.X)
			if !ok {
				continue
			}
			gl, ok := ld.X.(*ssa.Global)
			if !ok {
				continue
			}
			l := g.c.literalOf(gl)
			if l == nil || !l.isMap {
				continue
			}
			out := map[int]int{}
			for i, k := range l.keys {
				if k == nil || k.con == nil || l.vals[i] == nil || l.vals[i].con == nil {
					continue
				}
				a, _ := constant.Int64Val(k.con)
				v, _ := constant.Int64Val(l.vals[i].con)
				out[int(a)] = int(v)
			}
			return out
		}
	}
	return nil
}

var invalidKinds = []string{"TokenBitwiseAnd", "TokenBitwiseOr", "TokenBitwiseNot", "TokenBitwiseXor", "TokenStarStar", "TokenApostrophe", "TokenBacktick", "TokenSemicolon", "TokenTabs", "TokenInvalid", "TokenBadUTF8", "TokenQuotedNewline"}

// invalid: what complains about tokens that are never right does so for each
// kind, and is asked about every sequence of tokens.
func (g *grammar) invalid() {
	c := g.c
	toks := c.LookupType("hcl/hclsyntax", "Token")
	isToks := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && toks != nil && types.Identical(derefType(s.Elem()), toks)
	}
	checkers := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || c.generated(f) || f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
			continue
		}
		if isToks(f.Signature.Params().At(0).Type()) && isDiags(f.Signature.Results().At(0).Type()) {
			checkers[f] = true
			g.checker(f)
		}
	}
	if len(checkers) == 0 {
		c.Report("anchor", "invalid tokens", At(token.NoPos), "nothing complains about invalid tokens")
		return
	}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || c.generated(f) || !returnsDiags(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !c.generated(call.Call.StaticCallee()) || !isToks(call.Type()) {
					continue
				}
				c.Count("scans", 1)
				if !g.checkedBy(call, checkers, 0) {
					c.Report("unchecked", c.FuncName(f), call, c.FuncName(f)+" does not look for invalid tokens among those it scanned")
				}
			}
		}
	}
	c.Floor("scans", 2)
}

func (g *grammar) checkedBy(v ssa.Value, checkers map[*ssa.Function]bool, depth int) bool {
	if v.Referrers() == nil || depth > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			h := x.Call.StaticCallee()
			if h == nil {
				continue
			}
			if checkers[h] {
				return true
			}
			if h.Pkg == x.Parent().Pkg {
				for i, a := range x.Call.Args {
					if a == v && i < len(h.Params) && g.checkedBy(h.Params[i], checkers, depth+1) {
						return true
					}
				}
			}
		case *ssa.ChangeType:
			if g.checkedBy(x, checkers, depth) {
				return true
			}
		}
	}
	return false
}

// checker: the first token of each kind is complained about.
func (g *grammar) checker(f *ssa.Function) {
	c := g.c
	val := map[string]int{}
	for k, n := range g.names {
		val[n] = k
	}
	var l *loop
	for _, x := range loopsOf(f) {
		if l == nil || len(x.blocks) > len(l.blocks) {
			l = x
		}
	}
	if l == nil {
		c.Report("anchor", c.FuncName(f), f, c.FuncName(f)+" does not go over the tokens")
		return
	}
	for _, n := range invalidKinds {
		k, ok := val[n]
		if !ok {
			continue
		}
		c.Count("invalid kinds", 1)
		c.Obligation("%s is an error", n)
		if !g.complains(f, l, k) {
			c.Report("invalid", n, f, fmt.Sprintf("%s does not complain about %s", c.FuncName(f), n))
		}
	}
}

// complains: every way through the first round for a token of the kind makes
// an error.
func (g *grammar) complains(f *ssa.Function, l *loop, kind int) bool {
	start := map[ssa.Value]constant.Value{}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range l.header.Preds {
			if !l.blocks[p] {
				if k, ok := phi.Edges[i].(*ssa.Const); ok && k.Value != nil {
					start[phi] = k.Value
				}
			}
		}
	}
	var eval func(v ssa.Value) constant.Value
	eval = func(v ssa.Value) constant.Value {
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value
		case *ssa.Phi:
			return start[x]
		case *ssa.UnOp:
			if x.Op == token.NOT {
				if k := eval(x.X); k != nil && k.Kind() == constant.Bool {
					return constant.MakeBool(!constant.BoolVal(k))
				}
			}
			if x.Op == token.MUL && types.Identical(x.Type(), g.kinds) {
				return constant.MakeInt64(int64(kind))
			}
		case *ssa.Field:
			if types.Identical(x.Type(), g.kinds) {
				return constant.MakeInt64(int64(kind))
			}
		case *ssa.BinOp:
			a, b := eval(x.X), eval(x.Y)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.MakeBool(constant.Compare(a, x.Op, b))
			case token.ADD, token.SUB, token.REM, token.AND:
				return constant.BinaryOp(a, x.Op, b)
			}
		}
		return nil
	}
	var ways func(f *ssa.Function, b *ssa.BasicBlock, in *loop, seen map[*ssa.BasicBlock]bool, depth int) bool
	ways = func(f *ssa.Function, b *ssa.BasicBlock, in *loop, seen map[*ssa.BasicBlock]bool, depth int) bool {
		if in != nil && (!in.blocks[b] || b == in.header) {
			return false
		}
		if seen[b] {
			return true // judged on the other way
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if g.makesError(i) {
				return true
			}
			if call, ok := i.(*ssa.Call); ok && depth < 2 {
				h := call.Call.StaticCallee()
				if h != nil && h.Pkg == f.Pkg && len(h.Blocks) > 0 && givesDiags(h) && ways(h, h.Blocks[0], nil, map[*ssa.BasicBlock]bool{}, depth+1) {
					return true
				}
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k := eval(iff.Cond); k != nil && k.Kind() == constant.Bool {
				i := 1
				if constant.BoolVal(k) {
					i = 0
				}
				return ways(f, b.Succs[i], in, seen, depth)
			}
		}
		if len(b.Succs) == 0 {
			return false
		}
		for _, s := range b.Succs {
			if !ways(f, s, in, seen, depth) {
				return false
			}
		}
		return true
	}
	for _, s := range l.header.Succs {
		if l.blocks[s] {
			return ways(f, s, l, map[*ssa.BasicBlock]bool{}, 0)
		}
	}
	return false
}

func givesDiags(h *ssa.Function) bool {
	res := h.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isDiagLike(res.At(i).Type()) {
			return true
		}
	}
	return false
}

// makesError: the instruction gives a diagnostic error severity.
func (g *grammar) makesError(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !isNamed(derefType(fa.X.Type()), hclPath, "Diagnostic") || fieldOf(fa.X.Type(), fa.Field) != "Severity" {
		return false
	}
	k, ok := constInt(st.Val)
	return ok && k == 1
}

// escapes: those the reader of quoted strings knows are those of the
// specification.
func (g *grammar) escapes() {
	c := g.c
	want := map[int]string{}
	word := map[string]string{"newline": "\n", "carriage": "\r", "tab": "\t", "quote": `"`, "backslash": `\`}
	hex := map[int]int{}
	row := regexp.MustCompile(`(?m)^\s+\\(\S)(N*)\s+(.*)$`)
	for _, m := range row.FindAllStringSubmatch(g.spec, -1) {
		if m[2] != "" {
			hex[int(m[1][0])] = len(m[2])
			continue
		}
		for _, w := range strings.Fields(m[3]) {
			if t, ok := word[strings.ToLower(strings.Trim(w, ","))]; ok {
				want[int(m[1][0])] = t
				break
			}
		}
	}
	readers := c.escapeReaders()
	if len(readers) == 0 {
		c.Report("anchor", "escapes", At(token.NoPos), "nothing was found that reads escapes")
		return
	}
	for _, r := range readers {
		for ch, t := range want {
			c.Count("escapes", 1)
			c.Obligation("\\%c is %q", ch, t)
			if got, ok := r.table[ch]; !ok {
				c.Report("escape", fmt.Sprintf("%c", ch), r.f, fmt.Sprintf("%s does not know the escape \\%c", c.FuncName(r.f), ch))
			} else if got != t {
				c.Report("escape", fmt.Sprintf("%c", ch), r.f, fmt.Sprintf("%s reads the escape \\%c as %q, not %q", c.FuncName(r.f), ch, got, t))
			}
		}
		for ch, t := range r.table {
			if _, ok := want[ch]; !ok {
				c.Report("escape", fmt.Sprintf("%c", ch), r.f, fmt.Sprintf("%s reads \\%c as %q, which is not an escape of the specification", c.FuncName(r.f), ch, t))
			}
		}
		if len(hex) > 0 && r.base != 16 {
			c.Report("escape", "digits", r.f, fmt.Sprintf("%s reads the digits of an escape as a number of base %d", c.FuncName(r.f), r.base))
		}
		for _, ch := range "$%" {
			if !r.brace {
				break
			}
			if got := r.doubled[int(ch)]; got != string(ch)+"{" {
				c.Report("escape", string(ch), r.f, fmt.Sprintf("%s reads %c%c{ as %q", c.FuncName(r.f), ch, ch, got))
			}
		}
		for ch, n := range hex {
			got, ok := r.lengths[ch]
			if !ok {
				c.Report("escape", fmt.Sprintf("%c", ch), r.f, fmt.Sprintf("%s does not demand a number of digits after \\%c", c.FuncName(r.f), ch))
			} else if got != n+2 {
				c.Report("escape", fmt.Sprintf("%c", ch), r.f, fmt.Sprintf("%s demands %d digits after \\%c, not %d", c.FuncName(r.f), got-2, ch, n))
			}
		}
	}
}
