package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "the stack that says whether newlines count is followed through every function of the parser as a state machine (pushed values, deferred pops, helpers by their net effect): every way out of a construct must leave it as it was, nothing below the construct's own entries may be taken off, and expressions between brackets must be parsed with an entry of the construct's own saying that newlines do not count", runC03)
}

const syntaxPath = hclPath + "/hclsyntax"

type newlines struct {
	c      *Ctx
	fs     *facts
	t      *types.Named
	field  int
	effect map[*ssa.Function]string // net effect
	uses   map[*ssa.Function]bool
	needs  map[*ssa.Function]bool // parses an expression under its caller's rule
	parse  *ssa.Function
	cycle  map[*ssa.Function]bool
}

func runC03(c *Ctx) {
	nl := &newlines{c: c, fs: c.Facts(), effect: map[*ssa.Function]string{}, uses: map[*ssa.Function]bool{}, needs: map[*ssa.Function]bool{}}
	if !nl.find() {
		c.Report("stack", "stack", nil, "the parser's record of whether newlines count was not found: a list of booleans that is pushed to and popped from")
		return
	}
	nl.parse = nl.parseExpr()
	if nl.parse == nil {
		c.Report("stack", "expression parser", nil, "the parser's method for a whole expression was not found")
		return
	}
	nl.relevant()
	nl.cycles()
	var fns []*ssa.Function
	for f := range nl.uses {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// helpers: effects of functions that do not call themselves
	for round := 0; round < 6; round++ {
		changed := false
		for _, f := range fns {
			e := nl.summary(f)
			if nl.cycle[f] {
				e = ""
			}
			if e != nl.effect[f] {
				nl.effect[f] = e
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for round := 0; round < 8; round++ {
		changed := false
		for _, f := range fns {
			if !nl.needs[f] && nl.needing(f) {
				nl.needs[f] = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for _, f := range fns {
		nl.check(f)
	}
	c.Floor("stack operations", 8)
	c.Floor("functions", 20)
	c.Floor("bracketed expressions", 3)
}

// find looks for the field: a []bool of an unexported struct of the parser's
// package that is appended to and cut by one.
func (nl *newlines) find() bool {
	type id struct {
		n *types.Named
		i int
	}
	push, pop := map[id]bool{}, map[id]bool{}
	for _, f := range nl.c.AllFuncs() {
		if nl.c.PkgOf(f) != "hcl/hclsyntax" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, ok := types.Unalias(derefType(fa.X.Type())).(*types.Named)
				if !ok {
					continue
				}
				sl, ok := s.Val.Type().Underlying().(*types.Slice)
				if !ok || !isBool(sl.Elem()) {
					continue
				}
				switch kind, _ := stackOp(s.Val, n, fa.Field); kind {
				case "push":
					push[id{n, fa.Field}] = true
				case "pop":
					pop[id{n, fa.Field}] = true
				}
			}
		}
	}
	for k := range push {
		if pop[k] {
			nl.t, nl.field = k.n, k.i
			return true
		}
	}
	return false
}

// stackOp classifies a new value of the stack.
func stackOp(v ssa.Value, n *types.Named, field int) (string, ssa.Value) {
	isField := func(v ssa.Value) bool {
		u, ok := isLoad(v)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fa.Field == field && types.Identical(derefType(fa.X.Type()), n)
	}
	switch x := v.(type) {
	case *ssa.Call:
		if _, ok := isBuiltin(x, "append"); ok && isField(x.Call.Args[0]) {
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					if at, ok := derefType(al.Type()).Underlying().(*types.Array); ok && at.Len() == 1 {
						for _, r := range *al.Referrers() {
							if ia, ok := r.(*ssa.IndexAddr); ok {
								for _, rr := range *ia.Referrers() {
									if s, ok := rr.(*ssa.Store); ok {
										return "push", s.Val
									}
								}
							}
						}
					}
				}
			}
		}
	case *ssa.Slice:
		if isField(x.X) && x.Low == nil && x.High != nil {
			if s, k := lenOf(x.High); s != nil && k == -1 && isField(s) {
				return "pop", nil
			}
		}
	}
	return "other", nil
}

// parseExpr is the method the public ParseExpression hands the work to.
func (nl *newlines) parseExpr() *ssa.Function {
	pub := nl.c.LookupFunc("hcl/hclsyntax", "ParseExpression")
	if pub == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var look func(f *ssa.Function) *ssa.Function
	look = func(f *ssa.Function) *ssa.Function {
		if seen[f] {
			return nil
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || nl.c.PkgOf(g) != "hcl/hclsyntax" {
					continue
				}
				res := g.Signature.Results()
				if res.Len() > 0 && isNamed(res.At(0).Type(), syntaxPath, "Expression") {
					if g.Signature.Recv() != nil {
						return g
					}
					if r := look(g); r != nil {
						return r
					}
				}
			}
		}
		return nil
	}
	return look(pub)
}

// relevant: functions that change the stack, themselves or through others.
func (nl *newlines) relevant() {
	c := nl.c
	for _, f := range c.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if nl.op(in) != nil || nl.otherStore(in) {
					nl.uses[f] = true
				}
			}
		}
	}
	nl.uses[nl.parse] = true
	for changed := true; changed; {
		changed = false
		for _, f := range c.AllFuncs() {
			if nl.uses[f] || c.PkgOf(f) != "hcl/hclsyntax" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if g := call.Common().StaticCallee(); g != nil && nl.uses[g] {
							nl.uses[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

func (nl *newlines) cycles() {
	nl.cycle = map[*ssa.Function]bool{}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range nl.uses {
		r := map[*ssa.Function]bool{}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if h := call.Common().StaticCallee(); h != nil && nl.uses[h] && !r[h] {
							r[h] = true
							work = append(work, h)
						}
					}
				}
			}
		}
		reach[f] = r
	}
	for f, r := range reach {
		nl.cycle[f] = r[f]
	}
}

type stackEvent struct {
	kind string
	val  ssa.Value
}

func (nl *newlines) store(in ssa.Instruction) *ssa.FieldAddr {
	s, ok := in.(*ssa.Store)
	if !ok {
		return nil
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || fa.Field != nl.field || !types.Identical(derefType(fa.X.Type()), nl.t) {
		return nil
	}
	return fa
}

func (nl *newlines) op(in ssa.Instruction) *stackEvent {
	fa := nl.store(in)
	if fa == nil {
		return nil
	}
	kind, v := stackOp(in.(*ssa.Store).Val, nl.t, nl.field)
	if kind == "other" {
		return nil
	}
	return &stackEvent{kind, v}
}

// otherStore: a change of the stack that is neither a push nor a pop, other
// than in a new object.
func (nl *newlines) otherStore(in ssa.Instruction) bool {
	fa := nl.store(in)
	if fa == nil || nl.op(in) != nil {
		return false
	}
	_, fresh := fa.X.(*ssa.Alloc)
	return !fresh
}

// The state is the entries pushed since entry ("t", "f" or "?" each, the last
// at the end), preceded by a "-" for every entry of the caller that was taken
// off, then "|" and for every deferred call its effect and ";".

func applyEffect(own, effect string) string {
	for _, r := range effect {
		if r == '-' {
			if n := len(own); n > 0 && own[n-1] != '-' {
				own = own[:n-1]
			} else {
				own += "-"
			}
		} else {
			own += string(r)
		}
	}
	return own
}

func (nl *newlines) valueOf(a *ffunc, st *fstate, v ssa.Value) string {
	x := a.get(st, v)
	switch {
	case x.has(fTrue):
		return "t"
	case x.has(fFalse):
		return "f"
	}
	if pa, ok := v.(*ssa.Parameter); ok {
		for i, p := range a.f.Params {
			if p == pa {
				return string(rune('0' + i))
			}
		}
	}
	return "?"
}

// effectAt is the effect of a call with the arguments put in.
func (nl *newlines) effectAt(a *ffunc, st *fstate, cc *ssa.CallCommon) string {
	g := cc.StaticCallee()
	if g == nil {
		return ""
	}
	e := nl.effect[g]
	var out strings.Builder
	for _, r := range e {
		if r >= '0' && r <= '9' && int(r-'0') < len(cc.Args) {
			out.WriteString(nl.valueOf(a, st, cc.Args[r-'0']))
		} else {
			out.WriteRune(r)
		}
	}
	return out.String()
}

func (nl *newlines) simulate(f *ssa.Function) *simulation {
	a := nl.fs.done[f]
	if a == nil {
		return nil
	}
	m := &simulation{a: a, start: "|"}
	m.event = func(st *fstate, s string, in ssa.Instruction) []string {
		i := strings.IndexByte(s, '|')
		own, defs := s[:i], s[i+1:]
		switch x := in.(type) {
		case *ssa.Store:
			if op := nl.op(in); op != nil {
				if op.kind == "push" {
					own = applyEffect(own, nl.valueOf(a, st, op.val))
				} else {
					own = applyEffect(own, "-")
				}
			}
		case *ssa.Call:
			own = applyEffect(own, nl.effectAt(a, st, &x.Call))
		case *ssa.Defer:
			if e := nl.effectAt(a, st, &x.Call); e != "" {
				defs += e + ";"
			}
		case *ssa.RunDefers:
			l := strings.Split(defs, ";")
			for j := len(l) - 1; j >= 0; j-- {
				own = applyEffect(own, l[j])
			}
			defs = ""
		case *ssa.Panic:
			return nil
		}
		if len(own) > 8 {
			own = own[:8]
			m.overflow = true
		}
		return []string{own + "|" + defs}
	}
	m.run()
	return m
}

// summary is the net effect of a function, if it is the same on every way
// out.
func (nl *newlines) summary(f *ssa.Function) string {
	m := nl.simulate(f)
	if m == nil {
		return ""
	}
	e, first := "", true
	m.walk(func(st *fstate, s string, in ssa.Instruction) {
		if _, ok := in.(*ssa.Return); ok {
			own := s[:strings.IndexByte(s, '|')]
			if first {
				e, first = own, false
			} else if own != e {
				e = ""
			}
		}
	})
	return e
}

// needing: does the function parse an expression under the rule of its caller?
func (nl *newlines) needing(f *ssa.Function) bool {
	if f == nl.parse {
		return true
	}
	m := nl.simulate(f)
	if m == nil {
		return false
	}
	found := false
	m.walk(func(st *fstate, s string, in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && nl.needs[g] && s[0] == '|' {
				found = true
			}
		}
	})
	return found
}

func (nl *newlines) check(f *ssa.Function) {
	c := nl.c
	c.Count("functions", 1)
	m := nl.simulate(f)
	if m == nil {
		return
	}
	name := c.FuncName(f)
	if m.overflow {
		c.Report("balance", name+" grows", f, "the newline rules pile up: a loop pushes more than it pops")
		return
	}
	mustBalance := nl.cycle[f] || c.addressTaken(f) || len(c.callSites(f)) == 0 || f.Signature.Recv() == nil && token.IsExported(f.Name())
	exits := map[string]ssa.Instruction{}
	below := false
	m.walk(func(st *fstate, s string, in ssa.Instruction) {
		own := s[:strings.IndexByte(s, '|')]
		switch x := in.(type) {
		case *ssa.Return:
			c.Obligation("%s leaves %q", c.PosString(in.Pos()), own)
			if exits[own] == nil {
				exits[own] = in
			}
		case *ssa.Store:
			if nl.op(in) != nil {
				c.Count("stack operations", 1)
			}
			if nl.otherStore(in) {
				c.Report("stack", name+" assigns", in, "the record of whether newlines count is changed other than by pushing or popping one entry")
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return
			}
			if nl.effect[g] != "" {
				c.Count("stack operations", 1)
			}
			if strings.Contains(own, "-") {
				below = true
			}
			if !nl.needs[g] {
				return
			}
			kinds := bracketsAround(c, in.Block())
			top := ""
			if own != "" {
				top = own[len(own)-1:]
			}
			for _, k := range kinds {
				switch k {
				case "OParen", "OBrack", "TemplateInterp", "TemplateControl":
					c.Count("bracketed expressions", 1)
					if top != "f" {
						c.Report("significant", fmt.Sprintf("%s %s", name, k), in,
							fmt.Sprintf("an expression after a %s token is parsed without newlines being ignored", k))
					}
				case "OBrace":
					if isNamed(firstResult(f), syntaxPath, "Expression") && top == "" {
						c.Report("significant", fmt.Sprintf("%s %s", name, k), in,
							"an expression after an opening brace is parsed under the newline rule of the construct around it")
					}
				}
			}
		}
	})
	if len(exits) > 1 || mustBalance {
		var keys []string
		for own := range exits {
			keys = append(keys, own)
		}
		sort.Strings(keys)
		for _, own := range keys {
			if own != "" {
				c.Report("balance", name+" leaves "+describeStack(own), exits[own],
					fmt.Sprintf("on this way out newline handling is not what it was on entry: %s", describeStack(own)))
			}
		}
	}
	if below && mustBalance {
		c.Report("balance", name+" below", f, "an entry of the newline rules that belongs to the construct around this one is taken off")
	}
}

func firstResult(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return f.Signature.Results().At(0).Type()
}

func describeStack(own string) string {
	if strings.Contains(own, "-") {
		return fmt.Sprintf("%d too few", strings.Count(own, "-"))
	}
	return fmt.Sprintf("%d too many", len(own))
}

// bracketsAround: the kinds of tokens that the conditions leading to a block
// say have just been seen.
func bracketsAround(c *Ctx, b *ssa.BasicBlock) []string {
	var out []string
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if !(cmp.Op == token.EQL && p.Succs[0] == d || cmp.Op == token.NEQ && p.Succs[1] == d) {
			continue
		}
		for _, v := range []ssa.Value{cmp.X, cmp.Y} {
			if k, ok := v.(*ssa.Const); ok && isNamed(k.Type(), syntaxPath, "TokenType") {
				if n := tokenName(c, k); n != "" {
					out = append(out, n)
					return out // the innermost decides
				}
			}
		}
	}
	return out
}

// tokenName is the name of a token kind without its prefix.
func tokenName(c *Ctx, k *ssa.Const) string {
	pkg := c.LookupType("hcl/hclsyntax", "TokenType").Obj().Pkg()
	for _, n := range pkg.Scope().Names() {
		if o, ok := pkg.Scope().Lookup(n).(*types.Const); ok && isNamed(o.Type(), syntaxPath, "TokenType") && o.Val().ExactString() == k.Value.ExactString() {
			return strings.TrimPrefix(n, "Token")
		}
	}
	return ""
}
