package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "whatever is called with a token sequence and sets the space before tokens may change nothing else of the tokens or of the sequence; formatted tokens are written completely and unchanged; each token read becomes one token; and, by constant propagation over token types, no two tokens that would be read as something else when joined are joined", runC12)
}

const writePkg = "hclwrite"

func runC12(c *Ctx) {
	tok, toks := c.LookupType(writePkg, "Token"), c.LookupType(writePkg, "Tokens")
	if tok == nil || toks == nil {
		c.Report("anchor", "Tokens", nil, "types hclwrite.Token and Tokens not found")
		return
	}
	e := c.effectsOf()
	// formatters: functions given tokens that set the space before them
	formatters := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != writePkg {
			continue
		}
		s := e.sums[f]
		if s == nil {
			continue
		}
		spacing := false
		for _, ef := range s.sortedEffects() {
			if ef.what == "Token.SpacesBefore" && (ef.on.k == 'P' || ef.on.k == 'F') {
				spacing = true
			}
		}
		if !spacing {
			continue
		}
		c.Count("functions that change spacing", 1)
		if f.Signature.Recv() == nil && f.Signature.Params().Len() == 1 && types.Identical(f.Signature.Params().At(0).Type(), toks) && f.Signature.Results().Len() == 0 {
			formatters[f] = true
		}
		for _, ef := range s.sortedEffects() {
			if ef.on.k != 'P' && ef.on.k != 'F' {
				continue
			}
			c.Obligation("%s writes %s (in %s)", c.FuncName(f), ef.what, ef.in)
			if ef.what == "Token.SpacesBefore" || local(c, f, ef) {
				continue
			}
			c.Report("content", c.FuncName(f)+" "+ef.what, posn{ef.pos}, fmt.Sprintf("formatting changes %s, not only the space before tokens", ef.what))
		}
	}
	if len(formatters) == 0 {
		c.Report("anchor", "formatter", nil, "no function found that formats tokens")
	}
	public := c.LookupFunc(writePkg, "Format")
	if public == nil {
		c.Report("anchor", "Format", nil, "function hclwrite.Format not found")
		return
	}
	found := false
	for _, g := range staticCallees(public) {
		found = found || formatters[g]
	}
	if !found {
		c.Report("anchor", "Format", public, "hclwrite.Format does not format tokens")
	}
	for _, f := range c.Funcs {
		if c.PkgOf(f) == writePkg {
			c12whole(c, f, formatters, toks)
			c12tokens(c, f, tok)
		}
	}
	c12write(c, tok, toks)
	c12joins(c, tok)
	c.Floor("uses of formatted tokens", 2)
	c.Floor("conversions of tokens", 1)
	c.Floor("token writers", 1)
}

type posn struct{ p token.Pos }

func (p posn) Pos() token.Pos { return p.p }

// local: the formatter's own bookkeeping (lines and cells), not tokens.
func local(c *Ctx, f *ssa.Function, ef effect) bool {
	if strings.HasPrefix(ef.what, "Token.") || ef.what == "element of Tokens" || strings.Contains(ef.what, "[]byte") || strings.Contains(ef.what, "*Token") {
		return false
	}
	// only what is not reachable from the tokens given to a formatter
	for _, p := range f.Params {
		if strings.HasSuffix(p.Type().String(), "Tokens") || strings.HasSuffix(p.Type().String(), ".Token") {
			return false
		}
	}
	return true
}

// c12whole: once tokens were formatted, they are used as they are.
func c12whole(c *Ctx, f *ssa.Function, formatters map[*ssa.Function]bool, toks types.Type) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !formatters[call.Call.StaticCallee()] {
				continue
			}
			t := plainValue(call.Call.Args[0])
			c.Count("uses of formatted tokens", 1)
			if sl, ok := t.(*ssa.Slice); ok {
				c.Report("whole", c.FuncName(f), sl, "only part of the tokens is formatted")
			}
			for _, b2 := range f.Blocks {
				for _, in2 := range b2.Instrs {
					if in2 == in || !after(in, in2) {
						continue
					}
					if sl, ok := in2.(*ssa.Slice); ok && plainValue(sl.X) == t {
						c.Report("whole", c.FuncName(f), in2, "only part of the formatted tokens is used")
					}
					if st, ok := in2.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && plainValue(ia.X) == t {
							c.Report("whole", c.FuncName(f), in2, "formatted tokens are replaced")
						}
					}
					if k, ok := in2.(*ssa.Call); ok {
						if bi, ok := k.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && plainValue(k.Call.Args[0]) == t {
							c.Report("whole", c.FuncName(f), in2, "tokens are added after formatting")
						}
					}
					for _, op := range in2.Operands(nil) {
						v := *op
						if v == nil || !types.Identical(v.Type(), toks) || isNilConst(v) {
							continue
						}
						if w := plainValue(v); w != t {
							if _, ok := w.(*ssa.Phi); ok {
								c.Report("whole", c.FuncName(f), in2, "other tokens than those formatted are used")
							} else if _, ok := w.(*ssa.Call); ok {
								c.Report("whole", c.FuncName(f), in2, "other tokens than those formatted are used")
							}
						}
					}
				}
			}
		}
	}
}

// after: can the second instruction come after the first?
func after(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, in := range a.Block().Instrs {
			if in == a {
				ia = i
			}
			if in == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
	}
	for _, s := range a.Block().Succs {
		if reachesBlock(s, b.Block(), nil) {
			return true
		}
	}
	return false
}

// c12tokens: a function that makes tokens from those of the scanner makes one
// of each, with the same type and bytes.
func c12tokens(c *Ctx, f *ssa.Function, tok *types.Named) {
	sig := f.Signature
	if sig.Params().Len() == 0 || sig.Results().Len() == 0 {
		return
	}
	src := -1
	for i, p := range f.Params {
		if n, ok := p.Type().(*types.Named); ok && n.Obj().Name() == "Tokens" && strings.HasSuffix(n.Obj().Pkg().Path(), "hclsyntax") {
			src = i
		}
	}
	if src < 0 || !strings.HasSuffix(sig.Results().At(0).Type().String(), "hclwrite.Tokens") {
		return
	}
	c.Count("conversions of tokens", 1)
	e := newPathEnv(c, f)
	elem := fmt.Sprintf("p%d[]", src)
	want := map[string]string{"Type": elem + ".Type", "Bytes": elem + ".Bytes"}
	for _, field := range []string{"Type", "Bytes"} {
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), tok) || fieldOf(fa.X.Type(), fa.Field) != field {
					continue
				}
				n++
				got := e.of(st.Val)
				if field == "Bytes" {
					got = copied(e, f, st.Val)
				}
				if len(got) != 1 || got[0] != want[field] {
					c.Report("convert", c.FuncName(f)+" "+field, st, fmt.Sprintf("the %s of a token is not that of the token read", strings.ToLower(field)))
				}
				l, early := e.around(st)
				if l != 1 || early || len(e.guards(st)) > 0 {
					c.Report("convert", c.FuncName(f)+" "+field, st, "not every token read is kept")
				}
			}
		}
		if n == 0 {
			c.Report("convert", c.FuncName(f)+" "+field, f, fmt.Sprintf("the %s of tokens is not set", strings.ToLower(field)))
		}
	}
}

// copied: the path of the bytes a new slice was filled with.
func copied(e *pathEnv, f *ssa.Function, v ssa.Value) []string {
	if ps := e.of(v); len(ps) > 0 {
		return ps
	}
	v = plainValue(v)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := call.Call.Value.(*ssa.Builtin)
			if !ok {
				continue
			}
			if bi.Name() == "copy" && plainValue(call.Call.Args[0]) == v {
				ps := e.of(call.Call.Args[1])
				if mk, ok := v.(*ssa.MakeSlice); ok && len(ps) == 1 && e.one(mk.Len) != ps[0]+".len()" {
					return nil
				}
				return ps
			}
			if bi.Name() == "append" && call == v {
				return e.of(call.Call.Args[1])
			}
		}
	}
	return nil
}

// c12write: writing a sequence of tokens writes the bytes of every token, and
// besides them only spaces.
func c12write(c *Ctx, tok, toks *types.Named) {
	for _, f := range c.Funcs {
		if c.PkgOf(f) != writePkg || len(f.Params) == 0 || !types.Identical(f.Params[0].Type(), toks) {
			continue
		}
		e := newPathEnv(c, f)
		writes := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || callee(&call.Call) != "Write" {
					continue
				}
				arg := call.Call.Args[len(call.Call.Args)-1]
				if e.one(arg) == "p0[].Bytes" {
					writes++
					for _, l := range loopsOf(f) {
						if !l.blocks[b] {
							continue
						}
						// each way to the next round passes here
						for x := range l.blocks {
							for _, s := range x.Succs {
								if s == l.header && x != b && reachesIn(l, l.header, x, b) {
									c.Report("write", c.FuncName(f), in, "there is a way to pass over a token without writing it")
								}
							}
						}
					}
					continue
				}
				if !onlySpaces(f, arg) {
					c.Report("write", c.FuncName(f)+" other", in, "something other than the bytes of a token and spaces is written")
				}
			}
		}
		if writes > 0 {
			c.Count("token writers", 1)
		} else if f.Name() == "WriteTo" {
			c.Report("write", c.FuncName(f), f, "the bytes of tokens are not written")
		}
	}
}

// reachesIn: within the loop, can the block be reached from the other without
// passing avoid?
func reachesIn(l *loop, from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || !l.blocks[b] {
			continue
		}
		if b == to {
			return true
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != l.header {
				work = append(work, s)
			}
		}
	}
	return false
}

func onlySpaces(f *ssa.Function, v ssa.Value) bool {
	v = plainValue(v)
	if sl, ok := v.(*ssa.Slice); ok {
		return onlySpaces(f, sl.X)
	}
	if k, ok := v.(*ssa.Const); ok {
		return k.Value == nil || strings.Trim(k.Value.ExactString(), `" `) == ""
	}
	if cv, ok := v.(*ssa.Convert); ok {
		return onlySpaces(f, cv.X)
	}
	if call, ok := v.(*ssa.Call); ok {
		// bytes.Repeat and the like
		if g := call.Call.StaticCallee(); g != nil && g.Name() == "Repeat" {
			return onlySpaces(f, call.Call.Args[0])
		}
		return false
	}
	stores := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			base := plainValue(ia.X)
			for {
				sl, ok := base.(*ssa.Slice)
				if !ok {
					break
				}
				base = plainValue(sl.X)
			}
			if base != v {
				continue
			}
			n, ok := constInt(st.Val)
			if !ok || n != ' ' {
				return false
			}
			stores++
		}
	}
	return stores > 0
}

// Joining tokens.

// joined lists the pairs of tokens that are read as something else when there
// is no space between them.
var joined = [][2]string{
	{"Ident", "Ident"}, {"Ident", "NumberLit"}, {"Ident", "Minus"}, {"NumberLit", "NumberLit"}, {"NumberLit", "Ident"},
	{"Bang", "Equal"}, {"Bang", "EqualOp"}, {"Equal", "Equal"}, {"Equal", "EqualOp"}, {"Equal", "GreaterThan"}, {"Equal", "FatArrow"},
	{"GreaterThan", "Equal"}, {"GreaterThan", "EqualOp"}, {"LessThan", "Equal"}, {"LessThan", "EqualOp"}, {"LessThan", "LessThan"},
	{"Slash", "Slash"}, {"Slash", "Star"}, {"Slash", "Comment"}, {"BitwiseAnd", "BitwiseAnd"}, {"BitwiseOr", "BitwiseOr"},
	{"Dot", "Dot"},
}

// inside lists the pairs of tokens between which a space would become part of
// the text of a template.
var inside = [][2]string{
	{"OQuote", "QuotedLit"}, {"OQuote", "TemplateInterp"}, {"OQuote", "TemplateControl"}, {"OQuote", "CQuote"},
	{"QuotedLit", "QuotedLit"}, {"QuotedLit", "TemplateInterp"}, {"QuotedLit", "TemplateControl"}, {"QuotedLit", "CQuote"},
	{"OHeredoc", "StringLit"}, {"OHeredoc", "TemplateInterp"}, {"OHeredoc", "TemplateControl"}, {"OHeredoc", "CHeredoc"},
	{"StringLit", "StringLit"}, {"StringLit", "TemplateInterp"}, {"StringLit", "TemplateControl"}, {"StringLit", "CHeredoc"},
	{"TemplateSeqEnd", "QuotedLit"}, {"TemplateSeqEnd", "StringLit"}, {"TemplateSeqEnd", "CQuote"}, {"TemplateSeqEnd", "CHeredoc"},
	{"TemplateSeqEnd", "TemplateInterp"}, {"TemplateSeqEnd", "TemplateControl"},
}

func c12joins(c *Ctx, tok *types.Named) {
	tt := c.LookupType("hcl/hclsyntax", "TokenType")
	if tt == nil {
		return
	}
	kind := func(name string) (constant.Value, bool) {
		k, ok := tt.Obj().Pkg().Scope().Lookup("Token" + name).(*types.Const)
		if !ok {
			return nil, false
		}
		return k.Val(), true
	}
	done := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != writePkg {
			continue
		}
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			call, ok := iff.Cond.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			g := call.Call.StaticCallee()
			yes, no := spacing(b.Succs[0], tok), spacing(b.Succs[1], tok)
			if done[g] || yes == nil || no == nil || len(g.Params) < 2 {
				continue
			}
			sense := true
			ny, _ := constInt(yes.Val)
			nn, ok2 := constInt(no.Val)
			if !ok2 {
				continue
			}
			switch {
			case ny > 0 && nn == 0:
			case ny == 0 && nn > 0:
				sense = false
			default:
				continue
			}
			// which parameter is which
			next, subject, before := -1, -1, -1
			for i, a := range call.Call.Args {
				switch {
				case a == yes.Addr.(*ssa.FieldAddr).X:
					next = i
				case isPhi(a):
					before = i
				default:
					subject = i
				}
			}
			if next < 0 || subject < 0 {
				continue
			}
			done[g] = true
			try := func(l, r, bf string, space bool) {
				kl, ok1 := kind(l)
				kr, ok2 := kind(r)
				if !ok1 || !ok2 {
					return
				}
				env := map[ssa.Value]constant.Value{g.Params[subject]: kl, g.Params[next]: kr}
				name := l + " " + r
				if bf != "" {
					kb, ok := kind(bf)
					if !ok || before < 0 {
						return
					}
					env[g.Params[before]] = kb
					name = bf + " " + name
				}
				c.Count("pairs of tokens", 1)
				c.Obligation("%s: space %v", name, space)
				for _, out := range ccp(c, g, env, 0) {
					if out != nil && constant.BoolVal(out) == (sense == space) {
						continue
					}
					if !space {
						c.Report("inside", name, g, fmt.Sprintf("a space is put between %s tokens, where it becomes part of the text", name))
						return
					} else {
						c.Report("join", name, g, fmt.Sprintf("no space is kept between %s tokens, which are then read as something else", name))
						return
					}
				}
			}
			for _, p := range joined {
				try(p[0], p[1], "", true)
			}
			try("Dot", "NumberLit", "NumberLit", true)
			for _, p := range inside {
				try(p[0], p[1], "", false)
			}
		}
	}
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

// spacing: the store of a constant space before a token in the block.
func spacing(b *ssa.BasicBlock, tok types.Type) *ssa.Store {
	for _, in := range b.Instrs {
		st, ok := in.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !types.Identical(derefType(fa.X.Type()), tok) || fieldOf(fa.X.Type(), fa.Field) != "SpacesBefore" {
			continue
		}
		if _, ok := constInt(st.Val); ok {
			return st
		}
	}
	return nil
}

func isIdent(g *ssa.Function, k constant.Value) bool {
	id, ok := g.Pkg.Pkg.Scope().Lookup("TokenIdent").(*types.Const)
	return !ok || constant.Compare(id.Val(), token.EQL, k)
}

// ccp propagates the constant Type fields of parameters through the branches
// of a function and gives the constants it can return (nil: something else).
func ccp(c *Ctx, f *ssa.Function, env map[ssa.Value]constant.Value, depth int) []constant.Value {
	type edge struct{ from, to *ssa.BasicBlock }
	vals := map[ssa.Value]map[string]constant.Value{} // possible values; missing: not reached
	top := map[ssa.Value]bool{}
	reached := map[edge]bool{}
	block := map[*ssa.BasicBlock]bool{}
	results := map[string]constant.Value{}
	var get func(v ssa.Value) ([]constant.Value, bool) // values, known
	get = func(v ssa.Value) ([]constant.Value, bool) {
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil {
				return nil, false
			}
			return []constant.Value{k.Value}, true
		}
		if p, ok := v.(*ssa.Parameter); ok {
			k, given := env[p]
			if b, ok := p.Type().Underlying().(*types.Basic); given && ok && b.Info()&types.IsInteger != 0 {
				return []constant.Value{k}, true
			}
			return nil, false
		}
		if top[v] {
			return nil, false
		}
		m, ok := vals[v]
		if !ok {
			return nil, true // nothing yet
		}
		var out []constant.Value
		for _, k := range m {
			out = append(out, k)
		}
		return out, true
	}
	changed := true
	set := func(v ssa.Value, ks []constant.Value, known bool) {
		if !known {
			if !top[v] {
				top[v] = true
				changed = true
			}
			return
		}
		for _, k := range ks {
			if vals[v] == nil {
				vals[v] = map[string]constant.Value{}
			}
			if _, ok := vals[v][k.ExactString()]; !ok {
				vals[v][k.ExactString()] = k
				changed = true
			}
		}
	}
	reach := func(e edge) {
		if !reached[e] {
			reached[e] = true
			changed = true
		}
	}
	block[f.Blocks[0]] = true
	unknownResult := false
	for changed {
		changed = false
		for _, b := range f.Blocks {
			if b != f.Blocks[0] {
				in := false
				for _, p := range b.Preds {
					in = in || reached[edge{p, b}]
				}
				if !in {
					continue
				}
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for i, p := range b.Preds {
						if reached[edge{p, b}] {
							ks, known := get(x.Edges[i])
							set(x, ks, known)
						}
					}
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
						if k, ok := env[fa.X]; ok && fieldOf(fa.X.Type(), fa.Field) == "Type" {
							set(x, []constant.Value{k}, true)
							continue
						}
						set(x, nil, false)
						continue
					}
					ks, known := get(x.X)
					if !known || x.Op != token.NOT && x.Op != token.SUB {
						set(x, nil, false)
						continue
					}
					for _, k := range ks {
						set(x, []constant.Value{constant.UnaryOp(x.Op, k, 0)}, true)
					}
				case *ssa.BinOp:
					ls, k1 := get(x.X)
					rs, k2 := get(x.Y)
					if !k1 || !k2 {
						set(x, nil, false)
						continue
					}
					for _, l := range ls {
						for _, r := range rs {
							switch x.Op {
							case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
								set(x, []constant.Value{constant.MakeBool(constant.Compare(l, x.Op, r))}, true)
							case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
								set(x, []constant.Value{constant.BinaryOp(l, x.Op, r)}, true)
							default:
								set(x, nil, false)
							}
						}
					}
				case *ssa.ChangeType:
					ks, known := get(x.X)
					set(x, ks, known)
				case *ssa.Convert:
					ks, known := get(x.X)
					set(x, ks, known)
				case *ssa.Call:
					g := x.Call.StaticCallee()
					sub := map[ssa.Value]constant.Value{}
					if g != nil && g.Pkg == f.Pkg && len(g.Blocks) > 0 && depth < 3 {
						for i, a := range x.Call.Args {
							if k, ok := env[a]; ok && i < len(g.Params) {
								sub[g.Params[i]] = k
							}
						}
					}
					if g != nil && g.Name() == "TokenMatches" && len(x.Call.Args) == 2 {
						// a keyword is an identifier
						if as, ok := x.Call.Args[1].(*ssa.Call); ok && len(as.Call.Args) == 1 {
							if k, ok := env[as.Call.Args[0]]; ok && !isIdent(g, k) {
								set(x, []constant.Value{constant.MakeBool(false)}, true)
								continue
							}
						}
					}
					if len(sub) == 0 {
						set(x, nil, false)
						continue
					}
					for _, k := range ccp(c, g, sub, depth+1) {
						if k == nil {
							set(x, nil, false)
						} else {
							set(x, []constant.Value{k}, true)
						}
					}
				case *ssa.If:
					ks, known := get(x.Cond)
					if !known {
						reach(edge{b, b.Succs[0]})
						reach(edge{b, b.Succs[1]})
						continue
					}
					for _, k := range ks {
						if constant.BoolVal(k) {
							reach(edge{b, b.Succs[0]})
						} else {
							reach(edge{b, b.Succs[1]})
						}
					}
				case *ssa.Jump:
					reach(edge{b, b.Succs[0]})
				case *ssa.Return:
					ks, known := get(x.Results[0])
					if !known {
						unknownResult = true
					}
					for _, k := range ks {
						results[k.ExactString()] = k
					}
				default:
					if v, ok := in.(ssa.Value); ok {
						if _, isAddr := in.(*ssa.FieldAddr); !isAddr {
							set(v, nil, false)
						}
					}
				}
			}
		}
	}
	var out []constant.Value
	if unknownResult {
		out = append(out, nil)
	}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, results[n])
	}
	return out
}
