package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Access paths.
//
// A value is named by how it is reached from the parameters of a function:
// p0.Items[].KeyExpr is a field of every element of a field of the receiver.
// Two functions of one type can then be compared by the paths each of them
// treats in some way, whatever the shape of their code.

type pathEnv struct {
	c     *Ctx
	f     *ssa.Function
	up    *pathEnv                   // the function this one was called or created from
	binds map[ssa.Value][]string     // parameters
	cells map[*ssa.FreeVar]ssa.Value // captured variables
	memo  map[ssa.Value][]string
	busy  map[ssa.Value]bool
	guard []string // conditions under which this function was called
	loops int      // loops around the call
	early bool     // one of them can be left early

	at     ssa.Instruction // the call
	actual []ssa.Value     // what it passes
}

func newPathEnv(c *Ctx, f *ssa.Function) *pathEnv {
	e := &pathEnv{c: c, f: f, binds: map[ssa.Value][]string{}, memo: map[ssa.Value][]string{}, busy: map[ssa.Value]bool{}}
	for i, p := range f.Params {
		e.binds[p] = []string{"p" + string(rune('0'+i))}
	}
	return e
}

// enter gives the environment of a function of the repository called here.
func (e *pathEnv) enter(g *ssa.Function, args []ssa.Value, at ssa.Instruction) *pathEnv {
	n := &pathEnv{c: e.c, f: g, up: e, binds: map[ssa.Value][]string{}, memo: map[ssa.Value][]string{}, busy: map[ssa.Value]bool{}}
	for i, p := range g.Params {
		if i < len(args) {
			n.binds[p] = e.of(args[i])
		}
	}
	n.at, n.actual = at, args
	n.guard = append(append([]string(nil), e.guard...), e.guards(at)...)
	l, early := e.around(at)
	n.loops, n.early = e.loops+l, e.early || early
	return n
}

func (e *pathEnv) depth() int {
	n := 0
	for x := e.up; x != nil; x = x.up {
		n++
	}
	return n
}

func (e *pathEnv) inside(g *ssa.Function) bool {
	for x := e; x != nil; x = x.up {
		if x.f == g {
			return true
		}
	}
	return false
}

func (e *pathEnv) of(v ssa.Value) []string {
	if v == nil {
		return nil
	}
	if p, ok := e.memo[v]; ok {
		return p
	}
	if e.busy[v] {
		return nil
	}
	e.busy[v] = true
	p := uniqPaths(e.compute(v))
	delete(e.busy, v)
	if len(e.busy) == 0 || len(p) > 0 {
		e.memo[v] = p
	}
	return p
}

// one gives the path if there is just one.
func (e *pathEnv) one(v ssa.Value) string {
	p := e.of(v)
	if len(p) == 1 {
		return p[0]
	}
	return strings.Join(p, "|")
}

func uniqPaths(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func suffix(ps []string, s string) []string {
	var out []string
	for _, p := range ps {
		if len(p) < 200 {
			out = append(out, p+s)
		}
	}
	return out
}

func fieldOf(t types.Type, i int) string {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return st.Field(i).Name()
}

func (e *pathEnv) index(key ssa.Value) string {
	if k, ok := key.(*ssa.Const); ok && k.Value != nil {
		if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "[" + k.Value.ExactString() + "]"
		}
	}
	if ps := e.of(key); len(ps) == 1 && !strings.Contains(ps[0], "[") && !strings.Contains(ps[0], "(") {
		if b, ok := key.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "[" + ps[0] + "]"
		}
	}
	return "[]"
}

func (e *pathEnv) compute(v ssa.Value) []string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return e.binds[x]
	case *ssa.FreeVar:
		return e.freeVar(x)
	case *ssa.FieldAddr:
		return e.fieldPath(x.X, x.Field)
	case *ssa.Field:
		return e.fieldPath(x.X, x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return e.of(x.X)
		}
	case *ssa.IndexAddr:
		return suffix(e.of(x.X), "[]")
	case *ssa.Index:
		return suffix(e.of(x.X), "[]")
	case *ssa.Lookup:
		return suffix(e.of(x.X), e.index(x.Index))
	case *ssa.Range:
		return e.of(x.X)
	case *ssa.Next:
		return e.of(x.Iter)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if x.Index == 2 {
				return suffix(e.of(t), "[]")
			}
			if x.Index == 1 {
				return suffix(e.of(t), "{}")
			}
			return nil
		case *ssa.Lookup, *ssa.TypeAssert:
			if x.Index == 0 {
				return e.of(t)
			}
			return suffix(e.of(t), "?")
		case *ssa.Call:
			return suffix(e.of(t), "#"+string(rune('0'+x.Index)))
		}
	case *ssa.TypeAssert:
		if types.IsInterface(x.AssertedType) {
			return e.of(x.X)
		}
		return suffix(e.of(x.X), ".("+shortType(x.AssertedType)+")")
	case *ssa.MakeInterface:
		return e.of(x.X)
	case *ssa.ChangeInterface:
		return e.of(x.X)
	case *ssa.ChangeType:
		return e.of(x.X)
	case *ssa.Convert:
		return e.of(x.X)
	case *ssa.Slice:
		if n, ok := constInt(x.Low); x.Low != nil && !(ok && n == 0) || x.High != nil {
			return suffix(e.of(x.X), "[:]")
		}
		return e.of(x.X)
	case *ssa.Phi:
		var out []string
		for _, ed := range x.Edges {
			out = append(out, e.of(ed)...)
		}
		return out
	case *ssa.Alloc:
		var out []string
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				out = append(out, e.of(st.Val)...)
			}
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return nil
			}
			return suffix(e.of(x.Call.Args[0]), "."+b.Name()+"()")
		}
		args := x.Call.Args
		name := ""
		if x.Call.IsInvoke() {
			name = x.Call.Method.Name()
			args = append([]ssa.Value{x.Call.Value}, args...)
		} else if g := x.Call.StaticCallee(); g != nil {
			name = g.Name()
		} else {
			return nil
		}
		if len(args) == 0 {
			return []string{name + "()"}
		}
		rest := ""
		for _, a := range args[1:] {
			if ps := e.of(a); len(ps) == 1 {
				rest += ps[0]
			}
		}
		if len(rest) > 60 {
			rest = ""
		}
		return suffix(e.of(args[0]), "."+name+"("+rest+")")
	}
	return nil
}

// fieldPath: a field, or what a literal put there.
func (e *pathEnv) fieldPath(base ssa.Value, i int) []string {
	if al, ok := base.(*ssa.Alloc); ok {
		var out []string
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || fa.Field != i {
				continue
			}
			for _, u := range *fa.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					out = append(out, e.of(st.Val)...)
				}
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	return suffix(e.of(base), "."+fieldOf(base.Type(), i))
}

func (e *pathEnv) freeVar(fv *ssa.FreeVar) []string {
	p := e.up
	if p == nil || p.f != e.f.Parent() {
		p = nil
	}
	for i, v := range e.f.FreeVars {
		if v != fv || e.f.Parent() == nil {
			continue
		}
		if p == nil {
			p = newPathEnv(e.c, e.f.Parent())
		}
		for _, b := range e.f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(e.f) {
					return p.of(mc.Bindings[i])
				}
			}
		}
	}
	return nil
}

// around: how many loops contain the instruction, and whether one of them can
// be left other than at its end.
func (e *pathEnv) around(in ssa.Instruction) (n int, early bool) {
	for _, l := range loopsOf(e.f) {
		if !l.blocks[in.Block()] {
			continue
		}
		n++
		for b := range l.blocks {
			if b == l.header {
				continue
			}
			for _, s := range b.Succs {
				if !l.blocks[s] {
					early = true
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				early = true
			}
		}
	}
	return n, early
}

// guards gives the conditions that hold at the instruction, other than those
// of loops.
func (e *pathEnv) guards(in ssa.Instruction) []string {
	var out []string
	f := e.f
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		at := in.Block()
		yes := b.Succs[0].Dominates(at) && len(b.Succs[0].Preds) == 1 || !reachesBlock(b.Succs[1], at, b) && b.Dominates(at)
		no := b.Succs[1].Dominates(at) && len(b.Succs[1].Preds) == 1 || !reachesBlock(b.Succs[0], at, b) && b.Dominates(at)
		if yes == no {
			continue
		}
		g := e.cond(iff.Cond, yes)
		if g != "" {
			out = append(out, g)
		}
	}
	return uniqPaths(out)
}

// reachesBlock: can the block be reached from another without passing avoid?
func reachesBlock(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// cond writes a condition with its outcome; loop conditions give nothing.
func (e *pathEnv) cond(v ssa.Value, truth bool) string {
	not := func(s string) string {
		if s == "" || truth {
			return s
		}
		return "!" + s
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.cond(x.X, !truth)
		}
	case *ssa.BinOp:
		if x.Op == token.LSS {
			return "" // a loop
		}
		op := x.Op
		if op == token.NEQ {
			op, truth = token.EQL, !truth
		}
		l, r := e.operand(x.X), e.operand(x.Y)
		if op == token.EQL && l > r {
			l, r = r, l
		}
		return not("(" + l + op.String() + r + ")")
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
			return ""
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return not("is(" + e.one(ta.X) + "," + shortType(ta.AssertedType) + ")")
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return not("in(" + e.one(lk) + "," + e.one(lk.Index) + ")")
		}
	case *ssa.Phi:
		return not("phi(" + x.Comment + ")")
	}
	return not("(" + e.one(v) + ")")
}

func (e *pathEnv) operand(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return "nil"
		}
		return k.Value.ExactString()
	}
	return e.one(v)
}

// calls visits every call the function makes, following functions of the same
// package that it calls directly and its own function literals.
func (e *pathEnv) calls(visit func(e *pathEnv, call ssa.CallInstruction, args []ssa.Value)) {
	if e.depth() > 6 {
		return
	}
	for _, b := range e.f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			visit(e, call, args)
			g := cc.StaticCallee()
			if g == nil || e.c.generated(g) || len(g.Blocks) == 0 || e.inside(g) {
				continue
			}
			if e.c.InRepo(g) && e.c.PkgOf(g) == e.c.PkgOf(e.f) {
				e.enter(g, args, in).calls(visit)
			}
		}
	}
}
