package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "every loop must, on every way round it, consume a token, advance a counter, shrink a sequence, follow a chain or an iterator that one of its exits tests; every loop that waits for tokens must be left when all tokens it sees are the end marker; and no parser function may call itself again without a token having been consumed", runC04)
}

func runC04(c *Ctx) {
	tp := newTokenParser(c)
	var fns []*ssa.Function
	for f := range tp.reads {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	pr := &progress{tp: tp, must: map[*ssa.Function]bool{}, eof: map[*ssa.Function]*[2]bool{}}
	for f := range tp.advance {
		pr.must[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if !pr.must[f] && pr.mustConsume(f) {
				pr.must[f] = true
				changed = true
			}
		}
	}
	for _, f := range c.Funcs {
		if c.generated(f) {
			continue
		}
		for i, l := range loopsOf(f) {
			pr.loop(c, f, l, i)
		}
	}
	pr.recursion(c, fns)
	c.Floor("loops", 150)
	c.Floor("token loops", 12)
	c.Floor("parser functions", 25)
}

type progress struct {
	tp   *tokenParser
	must map[*ssa.Function]bool     // always consumes a token, unless none is left
	eof  map[*ssa.Function]*[2]bool // outcomes of a test of the end marker
}

// consumes: the instruction consumes a token for sure.
func (pr *progress) consumes(in ssa.Instruction) bool {
	call, ok := in.(*ssa.Call)
	return ok && pr.must[call.Call.StaticCallee()]
}

func (pr *progress) mustConsume(f *ssa.Function) bool {
	a := pr.tp.fs.done[f]
	if a == nil {
		return false
	}
	m := &simulation{a: a, start: "0"}
	m.event = func(st *fstate, s string, in ssa.Instruction) []string {
		if pr.consumes(in) {
			return []string{"1"}
		}
		return []string{s}
	}
	m.run()
	n, ok := 0, true
	m.walk(func(st *fstate, s string, in ssa.Instruction) {
		if _, r := in.(*ssa.Return); r {
			n++
			ok = ok && s == "1"
		}
	})
	return ok && n > 0 && !m.overflow
}

// loop judges one loop.
func (pr *progress) loop(c *Ctx, f *ssa.Function, l *loop, nth int) {
	c.Count("loops", 1)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok && b == l.header {
				return // goes through a map or a string
			}
		}
	}
	a := pr.tp.fs.done[f]
	if a == nil {
		return
	}
	steps := l.steps()
	name := c.FuncName(f)
	waits := false
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && (pr.tp.reads[g] || pr.tp.peek[g]) {
					waits = true
				}
			}
		}
	}
	c.Obligation("%s loop", c.PosString(loopPos(l)))
	if l.exits() == 0 {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Return); ok {
					return
				}
			}
		}
	}
	// on every way round
	m := &simulation{a: a, start: "out"}
	var stuck ssa.Instruction
	m.event = func(st *fstate, s string, in ssa.Instruction) []string {
		if !l.blocks[in.Block()] {
			return []string{"out"}
		}
		if in.Block() == l.header && in == in.Block().Instrs[0] {
			if s == "0" {
				stuck = in
			}
			s = "0"
		}
		if pr.consumes(in) || steps[in] {
			s = "1"
		}
		return []string{s}
	}
	m.run()
	if m.overflow {
		stuck = l.header.Instrs[0]
	}
	if stuck != nil {
		c.Report("progress", name, loopInstr(l), "there is a way round this loop on which nothing is consumed or advanced")
		return
	}
	if !waits {
		return
	}
	// when there are only end markers
	c.Count("token loops", 1)
	var spins ssa.Instruction
	m = &simulation{a: a, start: "out"}
	m.event = func(st *fstate, s string, in ssa.Instruction) []string {
		if !l.blocks[in.Block()] {
			return []string{"out"}
		}
		if in.Block() == l.header && in == in.Block().Instrs[0] {
			switch s {
			case "out", "pre":
				// the input may end now or later
				return []string{"pre", "r0"}
			case "step":
				s = "r0"
			case "r0":
				s = "r1"
			case "r1":
				s = "r2"
			case "r2":
				spins = in
			}
		}
		if steps[in] && s != "pre" {
			s = "step"
		}
		return []string{s}
	}
	m.branch = func(st *fstate, s string, iff *ssa.If, truth bool) []string {
		if l.blocks[iff.Block()] && s != "pre" && !pr.atEnd(a, st, l, nil, iff.Cond, truth, 0) {
			return nil
		}
		return []string{s}
	}
	m.run()
	if spins != nil || m.overflow {
		c.Report("end", name, loopInstr(l), "this loop is not left when the input ends")
	}
}

func loopInstr(l *loop) ssa.Instruction {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in
			}
		}
	}
	return l.header.Instrs[0]
}

func loopPos(l *loop) token.Pos { return loopInstr(l).Pos() }

// exits counts the branches out of a loop.
func (l *loop) exits() int {
	n := 0
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] {
				n++
			}
		}
	}
	return n
}

// steps finds the instructions that move something on which an exit of the
// loop depends: counters, shrinking sequences, chains, iterators.
func (l *loop) steps() map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	// what the exits depend on
	dep := map[ssa.Value]bool{}
	var need func(v ssa.Value, depth int)
	need = func(v ssa.Value, depth int) {
		if v == nil || dep[v] || depth > 12 {
			return
		}
		dep[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.has(in) {
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				need(*op, depth+1)
			}
		}
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, s := range b.Succs {
			if !l.blocks[s] {
				need(iff.Cond, 0)
			}
		}
	}
	flows := func(v ssa.Value, phi *ssa.Phi) bool {
		seen := map[ssa.Value]bool{}
		var walk func(x ssa.Value) bool
		walk = func(x ssa.Value) bool {
			if x == ssa.Value(phi) {
				return true
			}
			if seen[x] || x.Referrers() == nil {
				return false
			}
			seen[x] = true
			for _, r := range *x.Referrers() {
				switch r := r.(type) {
				case *ssa.Phi:
					if l.has(r) && walk(r) {
						return true
					}
				case *ssa.BinOp, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Call:
					if l.has(r) && walk(r.(ssa.Value)) {
						return true
					}
				}
			}
			return false
		}
		return walk(v)
	}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !dep[phi] {
			continue
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if stepOf(in, phi, l) && flows(in.(ssa.Value), phi) {
					out[in] = true
				}
				// a value that ends the loop
				if q, ok := in.(*ssa.Phi); ok && flows(q, phi) {
					for i, e := range q.Edges {
						if k, ok := e.(*ssa.Const); ok && l.blocks[b.Preds[i]] && l.leaves(phi, k) {
							out[b.Preds[i].Instrs[len(b.Preds[i].Instrs)-1]] = true
						}
					}
				}
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				// a counter, sequence or chain kept in memory
				v, ok := x.Val.(ssa.Instruction)
				if !ok {
					break
				}
				for _, op := range v.Operands(nil) {
					if u, ok := isLoad(*op); ok && samePlace(u.X, x.Addr) && stepOf(v, u, l) {
						out[in] = true
					}
				}
				if u, ok := isLoad(x.Val); ok {
					if id, ok := namedField(u.X); ok && chained(id) {
						out[in] = true
					}
				}
			case *ssa.Call:
				if dep[x] && iterates(&x.Call) {
					out[in] = true
				}
			}
		}
	}
	return out
}

// leaves: some exit of the loop is taken when the variable has the value.
func (l *loop) leaves(phi *ssa.Phi, k *ssa.Const) bool {
	if k.Value == nil {
		return false
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			truth := i == 0
			switch x := iff.Cond.(type) {
			case *ssa.Phi:
				if x == phi && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) == truth {
					return true
				}
			case *ssa.UnOp:
				if x.X == ssa.Value(phi) && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
					return true
				}
			case *ssa.BinOp:
				y, ok := x.Y.(*ssa.Const)
				if x.X != ssa.Value(phi) || !ok || y.Value == nil {
					break
				}
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if constant.Compare(k.Value, x.Op, y.Value) == truth {
						return true
					}
				}
			}
		}
	}
	return false
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok && ok2 {
		return x.Field == y.Field && samePlace(x.X, y.X)
	}
	u, ok := isLoad(a)
	w, ok2 := isLoad(b)
	return ok && ok2 && samePlace(u.X, w.X)
}

// stepOf: the instruction gives the next value after v: one larger or
// smaller, shorter, or further along a chain.
func stepOf(in ssa.Instruction, v ssa.Value, l *loop) bool {
	base := func(x ssa.Value) bool {
		for i := 0; i < 6; i++ {
			if x == v {
				return true
			}
			switch y := x.(type) {
			case *ssa.Phi:
				if l == nil || !l.has(y) {
					return false
				}
				for _, e := range y.Edges {
					if e == v {
						return true
					}
				}
				x = y.Edges[0]
			case *ssa.Convert:
				x = y.X
			case *ssa.BinOp:
				x = y.X
			case *ssa.Slice:
				x = y.X
			default:
				return false
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.QUO || x.Op == token.SHR {
			if n, ok := constInt(x.Y); ok && n > 0 && base(x.X) {
				return true
			}
			// by a computed amount: as far as can be told
			if b, ok := x.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && base(x.X) {
				if _, isConst := x.Y.(*ssa.Const); !isConst {
					return true
				}
			}
		}
	case *ssa.Slice:
		if !base(x.X) {
			return false
		}
		if x.Low != nil {
			n, ok := constInt(x.Low)
			return !ok || n > 0
		}
		return x.High != nil
	case *ssa.UnOp:
		// further down or along: a field of what v points to, perhaps of
		// an element of it
		if x.Op != token.MUL {
			return false
		}
		fields := 0
		var at ssa.Value = x
		for i := 0; i < 12; i++ {
			if base(at) {
				return fields > 0
			}
			switch y := at.(type) {
			case *ssa.UnOp:
				if y.Op != token.MUL {
					return false
				}
				at = y.X
			case *ssa.FieldAddr:
				fields++
				at = y.X
			case *ssa.IndexAddr:
				at = y.X
			default:
				return false
			}
		}
		return false
	case *ssa.Extract:
		// what a function left of a sequence
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		g := call.Call.StaticCallee()
		for i, arg := range call.Call.Args {
			if g != nil && i < len(g.Params) && base(arg) && shortens(g, i, x.Index) {
				return true
			}
		}
		return false
	case *ssa.Call:
		// what an expression wraps
		if x.Call.IsInvoke() && len(x.Call.Args) == 0 {
			at := x.Call.Value
			for i := 0; i < 4; i++ {
				switch y := at.(type) {
				case *ssa.TypeAssert:
					at = y.X
				case *ssa.Extract:
					at = y.Tuple
				case *ssa.ChangeInterface:
					at = y.X
				}
			}
			return base(at)
		}
		// a method that gives the next of a chain
		g := x.Call.StaticCallee()
		if g != nil && len(g.Params) == 1 && len(x.Call.Args) == 1 && base(x.Call.Args[0]) && types.Identical(g.Params[0].Type(), x.Type()) && len(g.Blocks) == 1 {
			if r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok {
				if u, ok := isLoad(r.Results[0]); ok {
					if id, ok := namedField(u.X); ok {
						return chained(id)
					}
				}
			}
		}
	}
	return false
}

// shortens: the function's result is its parameter without a part of it.
func shortens(g *ssa.Function, param, result int) bool {
	found := false
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || result >= len(r.Results) {
			continue
		}
		switch v := r.Results[result].(type) {
		case *ssa.Parameter:
			// nothing taken, which has to come with an error
			last := r.Results[len(r.Results)-1]
			if v != g.Params[param] || !types.Identical(last.Type(), types.Universe.Lookup("error").Type()) || isNilConst(last) {
				return false
			}
		case *ssa.Slice:
			if v.X != ssa.Value(g.Params[param]) || v.Low == nil && v.High == nil {
				return false
			}
			if n, ok := constInt(v.Low); ok && n == 0 {
				return false
			}
			found = true
		default:
			return false
		}
	}
	return found
}

// iterates: a method that moves an iterator or scanner on and says whether
// there was anything.
func iterates(cc *ssa.CallCommon) bool {
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		name = g.Name()
	}
	return name == "Next" || name == "Scan"
}

// atEnd: can the condition have the outcome when every token seen in the loop
// is the end marker?
func (pr *progress) atEnd(a *ffunc, st *fstate, l *loop, end ssa.Value, cond ssa.Value, truth bool, depth int) bool {
	tp := pr.tp
	if depth > 6 {
		return true
	}
	isEnd := func(call *ssa.Call) bool {
		if call == nil {
			return false
		}
		g := call.Call.StaticCallee()
		return g != nil && (tp.peek[g] || tp.advance[g]) && l != nil && l.has(call)
	}
	token := func(v ssa.Value) bool {
		if end != nil && tokenParam(a, st, v) == end {
			return true
		}
		return isEnd(tp.origin(a, st, v))
	}
	kind := func(v ssa.Value) bool {
		if end != nil && kindParam(a, st, v) == end {
			return true
		}
		return isEnd(tp.kindOf(a, st, v))
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "!" {
			return pr.atEnd(a, st, l, end, x.X, !truth, depth+1)
		}
	case *ssa.Phi:
		if w := st.cell(fkey{x, ""}); w != nil && w != cond {
			return pr.atEnd(a, st, l, end, w, truth, depth+1)
		}
	case *ssa.BinOp:
		op := x.Op.String()
		if op != "==" && op != "!=" {
			break
		}
		for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if !kind(pair[0]) {
				continue
			}
			can, must := pr.mayBeEOF(pair[1], 0)
			if op == "!=" {
				truth = !truth
			}
			if truth {
				return can
			}
			return !must
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && kind(lk.Index) {
			return !truth
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && token(ta.X) {
			n := ""
			if p, ok := ta.AssertedType.(*types.Pointer); ok {
				if nn, ok := p.Elem().(*types.Named); ok {
					n = nn.Obj().Name()
				}
			}
			return truth == strings.HasSuffix(n, "EndToken")
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			break
		}
		for i, arg := range x.Call.Args {
			if i < len(g.Params) && (token(arg) || kind(arg)) {
				o := pr.outcomes(g, i)
				if truth {
					return o[1]
				}
				return o[0]
			}
		}
	}
	return true
}

// tokenParam and kindParam: the value is (the kind of) the token parameter.
func tokenParam(a *ffunc, st *fstate, v ssa.Value) ssa.Value {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x
		case *ssa.UnOp:
			w := st.cell(a.addrKey(st, x.X))
			if w == nil || w == v {
				return nil
			}
			v = w
		default:
			return nil
		}
	}
	return nil
}

func kindParam(a *ffunc, st *fstate, v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x
	case *ssa.Field:
		return tokenParam(a, st, x.X)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				if w := st.cell(fkey{al, "*"}); w != nil {
					return tokenParam(a, st, w)
				}
			}
		}
	}
	return nil
}

// outcomes: what a test says when its token is the end marker.
func (pr *progress) outcomes(g *ssa.Function, param int) [2]bool {
	if o := pr.eof[g]; o != nil {
		return *o
	}
	o := &[2]bool{true, true}
	pr.eof[g] = o
	a := pr.tp.fs.done[g]
	if a == nil || g.Signature.Results().Len() != 1 {
		return *o
	}
	m := &simulation{a: a, start: ""}
	m.event = func(st *fstate, s string, in ssa.Instruction) []string { return []string{s} }
	m.branch = func(st *fstate, s string, iff *ssa.If, truth bool) []string {
		if !pr.atEnd(a, st, nil, g.Params[param], iff.Cond, truth, 0) {
			return nil
		}
		return []string{s}
	}
	m.run()
	if m.overflow {
		return *o
	}
	r := [2]bool{}
	m.walk(func(st *fstate, s string, in ssa.Instruction) {
		if ret, ok := in.(*ssa.Return); ok {
			x := a.get(st, ret.Results[0])
			for i, t := range []bool{false, true} {
				if (t && x.has(fFalse)) || (!t && x.has(fTrue)) {
					continue
				}
				if pr.atEnd(a, st, nil, g.Params[param], ret.Results[0], t, 0) {
					r[i] = true
				}
			}
		}
	})
	*o = r
	return r
}

// mayBeEOF: can the kind be that of the end marker, and must it?
func (pr *progress) mayBeEOF(v ssa.Value, depth int) (can, must bool) {
	if _, ok := v.(*ssa.Const); ok {
		is := pr.tp.isKind(v, "TokenEOF")
		return is, is
	}
	switch x := v.(type) {
	case *ssa.Phi:
		must = true
		if depth > 5 {
			return true, false
		}
		for _, e := range x.Edges {
			c, m := pr.mayBeEOF(e, depth+1)
			can, must = can || c, must && m
		}
		return can, must
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || depth > 5 {
			return true, false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				c, _ := pr.mayBeEOF(r.Results[0], depth+1)
				can = can || c
			}
		}
		return can, false
	}
	return true, false
}

// handles: the function is given the tokens to consume, rather than making
// its own from source text.
func (pr *progress) handles(f *ssa.Function) bool {
	for _, p := range f.Params {
		n, ok := derefType(p.Type()).(*types.Named)
		if !ok {
			continue
		}
		for g := range pr.tp.advance {
			r := derefType(g.Params[0].Type())
			if types.Identical(r, n) {
				return true
			}
			if st, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if types.Identical(derefType(st.Field(i).Type()), r) {
						return true
					}
				}
			}
		}
	}
	return false
}

// recursion: a parser function that gets back to itself without a token
// having been consumed would do so for ever.
func (pr *progress) recursion(c *Ctx, fns []*ssa.Function) {
	edges := map[*ssa.Function]map[*ssa.Function]ssa.Instruction{}
	for _, f := range fns {
		a := pr.tp.fs.done[f]
		if a == nil || pr.tp.advance[f] {
			continue
		}
		c.Count("parser functions", 1)
		m := &simulation{a: a, start: "0"}
		m.event = func(st *fstate, s string, in ssa.Instruction) []string {
			if pr.consumes(in) {
				return []string{"1"}
			}
			return []string{s}
		}
		m.run()
		edges[f] = map[*ssa.Function]ssa.Instruction{}
		m.walk(func(st *fstate, s string, in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok && s == "0" {
				g := call.Common().StaticCallee()
				if g == nil || !pr.tp.reads[g] || pr.tp.advance[g] || !pr.handles(g) {
					return
				}
				if g == f {
					// a shorter list of things to try
					for i, arg := range call.Common().Args {
						if sl, ok := arg.(*ssa.Slice); ok && sl.X == ssa.Value(f.Params[i]) && stepOf(sl, f.Params[i], nil) {
							return
						}
					}
				}
				edges[f][g] = in
			}
		})
	}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			for h := range edges[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
			return false
		}
		if walk(f) {
			c.Report("recursion", c.FuncName(f), f, "the function can call itself again without a token having been consumed")
		}
	}
}
