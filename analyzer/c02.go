package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "every function of the native-syntax and JSON parsers that returns diagnostics is followed as a state machine: a way out on which it gave up and resynchronised, built a placeholder, or consumed a token whose kind was never established must also have reported an error, have found the parser already recovering from an earlier error, or have received errors from a part", runC02)
}

// tokenParser knows the parts of the native-syntax parser by what they do.
type tokenParser struct {
	c        *Ctx
	fs       *facts
	advance  map[*ssa.Function]bool // consumes a token
	peek     map[*ssa.Function]bool // gives a token without consuming it
	recovery map[fieldID]bool       // set when giving up
	endsLine map[*ssa.Call]bool     // the token is one that can end a line
	gives    map[*ssa.Function]bool // gives up or builds a placeholder, without diagnostics of its own
	reads    map[*ssa.Function]bool // consumes tokens in some way
	source   map[*ssa.Function]bool // consumes tokens of the source text
	ends     map[*ssa.Function]tokenEnd
	entry    map[*ssa.Function]string // the kind of the next token whenever called
	effect   map[*ssa.Function]tokenEffect
}

// tokenEffect says which brackets a function closes for its caller, and which
// it leaves open.
type tokenEffect struct {
	pops, stack string
}

// tokenEnd says where a function leaves the input when it finds no error: at
// the end, or after a token of the kind given by a parameter.
type tokenEnd struct {
	eof   bool
	param int
}

func newTokenParser(c *Ctx) *tokenParser {
	tp := &tokenParser{c: c, fs: c.Facts(), advance: map[*ssa.Function]bool{}, peek: map[*ssa.Function]bool{}, recovery: map[fieldID]bool{}, endsLine: map[*ssa.Call]bool{}, gives: map[*ssa.Function]bool{}, source: map[*ssa.Function]bool{}, ends: map[*ssa.Function]tokenEnd{}, entry: map[*ssa.Function]string{}, effect: map[*ssa.Function]tokenEffect{}, reads: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for _, f := range c.AllFuncs() {
		if p := c.PkgOf(f); (p == "hcl/hclsyntax" || p == "hcl/json") && !c.generated(f) {
			fns = append(fns, f)
		}
	}
	// methods giving a token: with or without moving on
	for _, f := range fns {
		res := f.Signature.Results()
		if f.Signature.Recv() == nil || res.Len() != 1 || !tp.isToken(res.At(0).Type()) || f.Signature.Params().Len() != 0 {
			continue
		}
		moves := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(f.Params[0]) {
						moves = true
					}
				}
			}
		}
		if moves {
			tp.advance[f] = true
		} else {
			tp.peek[f] = true
		}
	}
	reach := func(set map[*ssa.Function]bool) {
		for changed := true; changed; {
			changed = false
			for _, f := range fns {
				if set[f] {
					continue
				}
				for _, g := range staticCallees(f) {
					if set[g] {
						set[f] = true
						changed = true
					}
				}
			}
		}
	}
	for f := range tp.advance {
		tp.reads[f] = true
		if tp.hasKind(f.Signature.Results().At(0).Type()) {
			tp.source[f] = true
		}
	}
	reach(tp.reads)
	reach(tp.source)
	// the field that says an error is being recovered from: a boolean of a
	// type with token-reading methods that is set to true
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if id, ok := tp.setsFlag(in); ok && tp.isParser(id.t) {
					tp.recovery[id] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if tp.gives[f] || returnsDiags(f) {
				continue
			}
			if tp.skips(f) {
				tp.gives[f] = true
				changed = true
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if tp.givesUp(in) {
						tp.gives[f] = true
						changed = true
					}
				}
			}
		}
	}
	return tp
}

func (tp *tokenParser) inScope(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == syntaxPath || pkg.Path() == hclPath+"/json")
}

// hasKind: tokens of the source text, which have a kind.
func (tp *tokenParser) hasKind(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !tp.inScope(n.Obj().Pkg()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || !strings.EqualFold(n.Obj().Name(), "token") {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if tp.isKindType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (tp *tokenParser) isKindType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && tp.inScope(n.Obj().Pkg()) && strings.EqualFold(n.Obj().Name(), "tokenType")
}

// isToken: tokens of the language, and parts of a template.
func (tp *tokenParser) isToken(t types.Type) bool {
	if tp.hasKind(t) {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !tp.inScope(n.Obj().Pkg()) || n.Obj().Exported() {
		return false
	}
	_, ok = n.Underlying().(*types.Interface)
	return ok && strings.HasSuffix(n.Obj().Name(), "oken")
}

// skips: the function passes over any number of tokens.
func (tp *tokenParser) skips(f *ssa.Function) bool {
	if tp.advance[f] {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && tp.advance[call.Common().StaticCallee()] && reaches(in, in, nil) {
				return true
			}
		}
	}
	return false
}

func staticCallees(f *ssa.Function) []*ssa.Function {
	var l []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					l = append(l, g)
				}
			}
		}
	}
	return l
}

func returnsDiags(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isNamed(res.At(i).Type(), hclPath, "Diagnostics") {
			return true
		}
	}
	return false
}

func (tp *tokenParser) isParser(n *types.Named) bool {
	for f := range tp.reads {
		if r := f.Signature.Recv(); r != nil && !tp.advance[f] && types.Identical(derefType(r.Type()), n) {
			return true
		}
	}
	return false
}

func (tp *tokenParser) setsFlag(in ssa.Instruction) (fieldID, bool) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return fieldID{}, false
	}
	k, ok := s.Val.(*ssa.Const)
	if !ok || !isBool(k.Type()) || k.Value == nil || k.Value.ExactString() != "true" {
		return fieldID{}, false
	}
	return namedField(s.Addr)
}

func namedField(addr ssa.Value) (fieldID, bool) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return fieldID{}, false
	}
	n, ok := types.Unalias(derefType(fa.X.Type())).(*types.Named)
	if !ok {
		return fieldID{}, false
	}
	return fieldID{n, fa.Field}, true
}

// givesUp: the instruction starts recovery or makes a placeholder value.
func (tp *tokenParser) givesUp(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if id, ok := tp.setsFlag(in); ok && tp.recovery[id] {
			return true
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "LiteralValueExpr.Val" {
			if u, ok := isLoad(x.Val); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "DynamicVal" {
					return true
				}
			}
		}
	case ssa.CallInstruction:
		g := x.Common().StaticCallee()
		return g != nil && tp.gives[g]
	}
	return false
}

// origin is the token a value was copied from.
func (tp *tokenParser) origin(a *ffunc, st *fstate, v ssa.Value) *ssa.Call {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Call:
			return x
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			k := a.addrKey(st, x.X)
			if w := st.cell(k); w != nil && w != v {
				v = w
				continue
			}
			return nil
		case *ssa.Phi:
			if w := st.cell(fkey{x, ""}); w != nil && w != v {
				v = w
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// kindOf: v is the kind of a token; which one?
func (tp *tokenParser) kindOf(a *ffunc, st *fstate, v ssa.Value) *ssa.Call {
	if !tp.isKindType(v.Type()) {
		return nil
	}
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Field:
			return tp.origin(a, st, x.X)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if w := st.cell(a.addrKey(st, fa)); w != nil && w != v {
					v = w
					continue
				}
				if al, ok := fa.X.(*ssa.Alloc); ok {
					if w := st.cell(fkey{al, "*"}); w != nil {
						return tp.origin(a, st, w)
					}
				}
				return nil
			}
			if w := st.cell(a.addrKey(st, x.X)); w != nil && w != v {
				v = w
				continue
			}
			return nil
		case *ssa.Phi:
			if w := st.cell(fkey{x, ""}); w != nil && w != v {
				v = w
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// tokenState: evidence of an error, or what is still unaccounted for.
type tokenState struct {
	err    bool
	gave   bool
	wrong  bool   // a bracket was closed by another kind of bracket
	unseen string // names for the token read last, when it has not been looked at
	fresh  string // names for the next token
	known  string // the next token: "" if not looked at, a bracket, or "k"
	eof    bool   // the end of the input has been seen
	end    bool   // the kind of token the caller asked for has been seen
	comma  bool   // just after a comma between items of JSON
	pops   string // brackets closed that were open on entry
	stack  string // closing brackets to come
}

func (t tokenState) String() string {
	if t.err {
		return "E"
	}
	s := ""
	for _, x := range []struct {
		set bool
		l   string
	}{{t.gave, "g"}, {t.wrong, "w"}, {t.eof, "z"}, {t.end, "e"}, {t.comma, "c"}} {
		if x.set {
			s += x.l
		}
	}
	return strings.Join([]string{s, t.known, t.unseen, t.fresh, t.pops, t.stack}, "/")
}

func parseTokenState(s string) tokenState {
	if s == "E" {
		return tokenState{err: true}
	}
	l := strings.Split(s, "/")
	has := func(x string) bool { return strings.Contains(l[0], x) }
	return tokenState{gave: has("g"), wrong: has("w"), eof: has("z"), end: has("e"), comma: has("c"), known: l[1], unseen: l[2], fresh: l[3], pops: l[4], stack: l[5]}
}

// The kinds of brackets, by the names of the token kinds.
var brackets = map[string]string{
	"TokenOBrace": "{", "TokenCBrace": "}",
	"TokenOBrack": "[", "TokenCBrack": "]",
	"TokenOParen": "(", "TokenCParen": ")",
	"TokenOQuote": "q", "TokenCQuote": "Q",
	"TokenOHeredoc": "h", "TokenCHeredoc": "H",
	"TokenTemplateInterp": "t", "TokenTemplateControl": "c", "TokenTemplateSeqEnd": "T",
	"tokenBraceO": "{", "tokenBraceC": "}",
	"tokenBrackO": "[", "tokenBrackC": "]",
	// JSON has commas only between items, and no use for these
	"tokenComma": ",", "tokenEquals": "x", "tokenInvalid": "x",
}

var closing = map[string]string{"{": "}", "[": "]", "(": ")", "q": "Q", "h": "H", "t": "T", "c": "T"}

// bracket gives the bracket a kind of token stands for: "k" for any other
// kind, "p" for a kind given by the caller, "*" for one worked out.
func (tp *tokenParser) bracket(v ssa.Value) string {
	n, ok := constInt(v)
	if !ok {
		if _, ok := v.(*ssa.Parameter); ok {
			return "p"
		}
		return "*"
	}
	named, ok := types.Unalias(v.Type()).(*types.Named)
	if !ok {
		return "k"
	}
	for name, b := range brackets {
		if k, ok := named.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok {
			if m, ok := constant.Int64Val(k.Val()); ok && int(m) == n {
				return b
			}
		}
	}
	return "k"
}

// consume: a token of the kind has been read.
func (t *tokenState) consume(b string) {
	comma := t.comma
	t.comma = b == ","
	switch {
	case b == "k" || b == ",":
	case b == "x":
		t.gave = true
	case closing[b] != "":
		if len(t.stack) > 12 {
			t.wrong = true
			return
		}
		t.stack += closing[b]
	case t.stack == "":
		if len(t.pops) > 6 {
			t.wrong = true
			return
		}
		t.pops += b
	default:
		top := t.stack[len(t.stack)-1:]
		t.stack = t.stack[:len(t.stack)-1]
		if b != top && b != "p" && b != "*" || comma {
			t.wrong = true
		}
	}
}

func among(list, name string) bool {
	for _, n := range strings.Split(list, ",") {
		if n == name {
			return true
		}
	}
	return false
}

func (tp *tokenParser) simulate(f *ssa.Function) *simulation {
	a := tp.fs.done[f]
	if a == nil {
		return nil
	}
	m := &simulation{a: a, start: tokenState{known: tp.entry[f]}.String(), limit: 200}
	a.walk(func(st *fstate, in ssa.Instruction) {
		if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if call := tp.kindOf(a, st, pair[0]); call != nil && tp.isKind(pair[1], "TokenNewline") {
					tp.endsLine[call] = true
				}
			}
		}
	})
	m.event = func(st *fstate, s string, in ssa.Instruction) []string {
		t := parseTokenState(s)
		if t.err {
			return []string{s}
		}
		switch x := in.(type) {
		case *ssa.Panic:
			return nil
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Diagnostic.Severity" {
				if n, ok := constInt(x.Val); ok && n == 1 {
					t.err = true
				}
			}
			if tp.givesUp(in) {
				t.gave = true
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				break
			}
			switch {
			case tp.advance[g]:
				if t.unseen != "" {
					t.gave = true
					t.unseen = ""
				}
				if t.known == "" {
					t.unseen = x.Name()
					if t.fresh != "" {
						t.unseen += "," + t.fresh
					}
				} else {
					t.consume(t.known)
				}
				if t.eof {
					if o := tp.peeked(a, x); o == nil || !tp.endsLine[o] {
						t.gave = true // the input ends in the middle of something
					}
				}
				t.known, t.fresh = "", ""
			case tp.peek[g]:
				if !among(t.fresh, x.Name()) {
					l := append(strings.Split(t.fresh, ","), x.Name())
					sort.Strings(l)
					t.fresh = strings.Trim(strings.Join(l, ","), ",")
				}
			case tp.gives[g]:
				t.gave = true
				t.known, t.fresh = "", ""
			default:
				for _, arg := range x.Call.Args {
					if o := tp.origin(a, st, arg); o != nil && t.unseen != "" && among(t.unseen, o.Name()) {
						t.unseen = "" // for the callee to judge
					}
				}
				if tp.reads[g] {
					t.comma = false
					t.known, t.fresh = "", ""
					if tp.source[g] {
						t.end = false
					}
					e := tp.effect[g]
					for _, b := range e.pops {
						b := string(b)
						if b == "p" {
							b = tp.endGiven(g, x)
						}
						t.consume(b)
					}
					t.stack += e.stack
					switch e := tp.ends[g]; {
					case e.eof:
						t.eof = true
					case e.param > 0:
						arg := x.Call.Args[e.param]
						if tp.isKind(arg, "TokenEOF") {
							t.eof = true
						}
						if _, ok := arg.(*ssa.Parameter); ok {
							t.end = true
						}
					}
				}
			}
			if returnsDiags(g) {
				res := g.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					if isNamed(res.At(i).Type(), hclPath, "Diagnostics") {
						if a.result(st, x, i).has(fTrue) {
							t.err = true
						}
					}
				}
			}
		}
		return []string{t.String()}
	}
	m.branch = func(st *fstate, s string, iff *ssa.If, truth bool) []string {
		t := parseTokenState(s)
		if t.err {
			return []string{s}
		}
		tp.learn(a, st, &t, iff.Cond, truth)
		return []string{t.String()}
	}
	m.run()
	return m
}

// endGiven is the bracket given to a function as the kind to stop at.
func (tp *tokenParser) endGiven(g *ssa.Function, call *ssa.Call) string {
	for i, p := range g.Params {
		if tp.isKindType(p.Type()) && i < len(call.Call.Args) {
			return tp.bracket(call.Call.Args[i])
		}
	}
	return "*"
}

// peeked is the look at the next token that comes before reading it.
func (tp *tokenParser) peeked(a *ffunc, read *ssa.Call) *ssa.Call {
	for b := read.Block(); b != nil; b = b.Idom() {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if call, ok := b.Instrs[i].(*ssa.Call); ok && (b != read.Block() || call.Pos() < read.Pos()) {
				if g := call.Call.StaticCallee(); g != nil && tp.peek[g] {
					return call
				}
			}
		}
	}
	return nil
}

// isKind: the value is the named kind of token.
func (tp *tokenParser) isKind(v ssa.Value, name string) bool {
	n, ok := constInt(v)
	if !ok {
		return false
	}
	named, isNamed := types.Unalias(v.Type()).(*types.Named)
	if !isNamed || !tp.isKindType(named) {
		return false
	}
	for _, name := range []string{name, "t" + name[1:]} {
		if k, ok := named.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok {
			m, ok := constant.Int64Val(k.Val())
			return ok && int(m) == n
		}
	}
	return false
}

// lenOfDiags: the value is the number of some diagnostics.
func lenOfDiags(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isNamed(c.Call.Args[0].Type(), hclPath, "Diagnostics") {
			return c.Call.Args[0]
		}
	}
	return nil
}

// learn: what the outcome of a condition says about the tokens.
func (tp *tokenParser) learn(a *ffunc, st *fstate, t *tokenState, cond ssa.Value, truth bool) {
	see := func(call *ssa.Call, b string) {
		if call == nil {
			return
		}
		if t.unseen != "" && among(t.unseen, call.Name()) {
			t.unseen = ""
			t.consume(b)
		}
		if g := call.Call.StaticCallee(); g != nil && tp.peek[g] && among(t.fresh, call.Name()) {
			t.known = b
		}
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			tp.learn(a, st, t, x.X, !truth)
		case token.MUL:
			if id, ok := namedField(x.X); ok && tp.recovery[id] && truth {
				t.err = true
			}
			if w := st.cell(a.addrKey(st, x.X)); w != nil && w != cond {
				tp.learn(a, st, t, w, truth)
			}
		}
	case *ssa.Phi:
		if w := st.cell(fkey{x, ""}); w != nil && w != cond {
			tp.learn(a, st, t, w, truth)
		}
	case *ssa.BinOp:
		if d := lenOfDiags(x.X); d != nil {
			if n, ok := constInt(x.Y); ok && n == 0 && (x.Op == token.EQL && !truth || (x.Op == token.NEQ || x.Op == token.GTR) && truth) {
				t.err = true
			}
		}
		if t.comma && (x.Op == token.EQL && !truth || x.Op == token.NEQ && truth) {
			for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if call := tp.kindOf(a, st, pair[0]); call != nil && among(t.fresh, call.Name()) && t.stack != "" && tp.bracket(pair[1]) == t.stack[len(t.stack)-1:] {
					t.comma = false // something follows
				}
			}
		}
		if x.Op == token.EQL && truth || x.Op == token.NEQ && !truth {
			for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				call := tp.kindOf(a, st, pair[0])
				see(call, tp.bracket(pair[1]))
				if call == nil {
					continue
				}
				if tp.isKind(pair[1], "TokenEOF") {
					t.eof = true
					if g := call.Call.StaticCallee(); tp.advance[g] && !tp.endsLine[call] {
						t.gave = true // the input ends in the middle of something
					}
				}
				if _, ok := pair[1].(*ssa.Parameter); ok {
					t.end = true
				}
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && truth {
			see(tp.origin(a, st, ta.X), "k")
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && truth {
			see(tp.kindOf(a, st, l.Index), "k")
		}
	case *ssa.Call:
		if !truth {
			break
		}
		if g := x.Call.StaticCallee(); g != nil && g.Name() == "HasErrors" && isNamed(x.Call.Args[0].Type(), hclPath, "Diagnostics") {
			t.err = true
		}
		for _, arg := range x.Call.Args {
			see(tp.origin(a, st, arg), "k")
		}
	}
}

// findEntries works out which functions are only called once the kind of the
// next token has been established.
func (tp *tokenParser) findEntries(fns []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	for _, f := range fns {
		if f.Object() == nil || f.Object().Exported() || len(tp.c.callSites(f)) == 0 || tp.c.addressTaken(f) {
			continue
		}
		tp.entry[f] = "?"
	}
	for _, f := range tp.c.AllFuncs() {
		if !in[f] {
			for _, g := range staticCallees(f) {
				delete(tp.entry, g)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if tp.entry[f] == "?" {
				continue // not reached so far
			}
			m := tp.simulate(f)
			if m == nil {
				continue
			}
			m.walk(func(st *fstate, s string, in ssa.Instruction) {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				g := call.Common().StaticCallee()
				if g == nil || tp.entry[g] == "" {
					return
				}
				t := parseTokenState(s)
				if t.err {
					return
				}
				k := t.known
				if old := tp.entry[g]; old != "?" && old != k && k != "" {
					k = "k"
				}
				if tp.entry[g] != k {
					tp.entry[g] = k
					changed = true
				}
			})
		}
	}
	for f, k := range tp.entry {
		if k == "?" {
			tp.entry[f] = ""
		}
	}
}

// findEffects works out which brackets functions close and open for their
// callers.
func (tp *tokenParser) findEffects(fns []*ssa.Function) {
	for round := 0; round < 12; round++ {
		changed := false
		for _, f := range fns {
			m := tp.simulate(f)
			if m == nil || m.overflow {
				continue
			}
			l := tp.effects(m)
			if len(l) == 0 {
				continue
			}
			// the one with the least effect, should there be several
			if tp.effect[f] != l[0] {
				tp.effect[f] = l[0]
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

// effects lists the different effects a function has when it reports nothing.
func (tp *tokenParser) effects(m *simulation) []tokenEffect {
	seen := map[tokenEffect]bool{}
	m.walk(func(st *fstate, s string, in ssa.Instruction) {
		if _, ok := in.(*ssa.Return); ok {
			if t := parseTokenState(s); !t.err {
				seen[tokenEffect{t.pops, t.stack}] = true
			}
		}
	})
	var l []tokenEffect
	for e := range seen {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool {
		if a, b := len(l[i].pops)+len(l[i].stack), len(l[j].pops)+len(l[j].stack); a != b {
			return a < b
		}
		return l[i].pops+"/"+l[i].stack < l[j].pops+"/"+l[j].stack
	})
	return l
}

// findEnds works out where functions leave the input.
func (tp *tokenParser) findEnds(fns []*ssa.Function) {
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if tp.ends[f] != (tokenEnd{}) {
				continue
			}
			m := tp.simulate(f)
			if m == nil || m.overflow {
				continue
			}
			n, eof, end := 0, true, true
			m.walk(func(st *fstate, s string, in ssa.Instruction) {
				if t := parseTokenState(s); !t.err {
					if _, ok := in.(*ssa.Return); ok {
						n++
						eof = eof && t.eof
						end = end && t.end
					}
				}
			})
			e := tokenEnd{eof: n > 0 && eof}
			if n > 0 && end {
				for i, p := range f.Params {
					if tp.isKindType(p.Type()) {
						e.param = i
					}
				}
			}
			if e != (tokenEnd{}) {
				tp.ends[f] = e
				changed = true
			}
		}
	}
}

// wholeInput: the function is given source text and makes a parser for it.
func (tp *tokenParser) wholeInput(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
		return false
	}
	for _, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			return true
		}
	}
	return false
}

func runC02(c *Ctx) {
	tp := newTokenParser(c)
	if len(tp.advance) == 0 || len(tp.recovery) == 0 {
		c.Report("parser", "parser", nil, "the parsers' token methods or recovery flag were not found")
		return
	}
	var fns []*ssa.Function
	for f := range tp.reads {
		if returnsDiags(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	tp.findEntries(fns)
	tp.findEffects(fns)
	tp.findEnds(fns)
	for _, f := range fns {
		m := tp.simulate(f)
		if m == nil {
			continue
		}
		name := c.FuncName(f)
		c.Count("parser functions", 1)
		if m.overflow {
			c.Report("silent", name+" too large", f, "the function has too many ways through it to be judged")
			continue
		}
		points := map[ssa.Instruction]bool{}
		m.walk(func(st *fstate, s string, in ssa.Instruction) {
			t := parseTokenState(s)
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && tp.advance[g] && !points[in] {
					points[in] = true
					c.Count("tokens consumed", 1)
				}
			}
			if tp.givesUp(in) && !points[in] {
				points[in] = true
				c.Count("points of giving up", 1)
				c.Obligation("%s gives up", c.PosString(in.Pos()))
			}
			if _, ok := in.(*ssa.Return); !ok || t.err {
				return
			}
			if tp.wholeInput(f) && !t.eof {
				c.Report("rest", name, in, "the input is accepted here without having been read to its end")
			}
			if r := in.(*ssa.Return); isNilConst(r.Results[0]) && nilable(r.Results[0].Type()) {
				c.Report("silent", name+" nothing", in, "nothing is returned here, without an error having been reported")
			}
			if t.wrong {
				c.Report("bracket", name+" wrong", in, "a bracket is closed by a bracket of another kind on the way to this return, without an error having been reported")
			}
			if e := (tokenEffect{t.pops, t.stack}); e != tp.effect[f] || e != (tokenEffect{}) && (tp.wholeInput(f) || e.stack != "") {
				c.Report("bracket", name+" unclosed", in, "a bracket is left open, or one too many closed, on the way to this return, without an error having been reported")
			}
			if t.gave {
				c.Report("silent", name+" gives up", in, "the parser gives up or skips tokens on the way to this return, without an error having been reported")
			} else if t.unseen != "" {
				c.Report("silent", name+" token", in, "a token is consumed on the way to this return whose kind is never established, without an error having been reported")
			}
		})
	}
	c.Floor("parser functions", 15)
	c.Floor("tokens consumed", 25)
	c.Floor("points of giving up", 20)
}
