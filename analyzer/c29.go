package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "every way out of a loop over a collection other than its end is checked for what it has found: a value, a flag or an error that the end of the loop does not have", runC29)
}

type workthrough struct {
	c *Ctx
	u *unknowns
}

func runC29(c *Ctx) {
	w := &workthrough{c, &unknowns{c: c, memo: map[flagIs]bool{}}}
	for _, f := range c.Funcs {
		if f.Synthetic != "" || c.generated(f) || len(f.Blocks) == 0 {
			continue
		}
		for _, l := range loopsOf(f) {
			w.loop(f, l)
			w.whole(f, l)
			w.idle(f, l)
			w.order(f, l)
		}
		w.repeats(f)
	}
	decodedValues(c, func(pkg string) bool { return pkg != decPkg })
	c.Floor("loops over a collection", 100)
	c.Floor("ways out", 20)
}

// over: the collection a loop works through, or nil.
func over(l *loop) (what string, at ssa.Instruction) {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return "", nil
	}
	cond := iff.Cond
	switch x := cond.(type) {
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if nx.IsString {
				return "", nil
			}
			return "map", iff
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Next" && isNamed(x.Call.Value.Type(), ctyPath, "ElementIterator") {
			return "value", iff
		}
	case *ssa.BinOp:
		if x.Op == token.NEQ && isNilConst(x.Y) {
			if phi, ok := x.X.(*ssa.Phi); ok && phi.Block() == l.header && goesOn(l, phi) {
				return "a chain of " + shortType(phi.Type()), iff
			}
		}
		if x.Op != token.LSS {
			return "", nil
		}
		switch y := x.Y.(type) {
		case *ssa.Call:
			if seq, k := lenOf(y); seq != nil && k == 0 {
				if b, ok := seq.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return "", nil
				}
				if isText(seq.Type()) {
					return "", nil
				}
				return shortType(seq.Type()), iff
			}
			if g := y.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "reflect" {
				return "reflect", iff
			}
			if y.Call.IsInvoke() && y.Call.Method.Pkg() != nil && y.Call.Method.Pkg().Path() == "reflect" {
				return "reflect", iff
			}
		}
	}
	return "", nil
}

// repeats: a loop over a collection can get to the second element.
func (w *workthrough) repeats(f *ssa.Function) {
	var body *ast.BlockStmt
	switch x := f.Syntax().(type) {
	case *ast.FuncDecl:
		body = x.Body
	case *ast.FuncLit:
		body = x.Body
	}
	if body == nil {
		return
	}
	labels := map[ast.Stmt]string{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false // a function of its own
		case *ast.LabeledStmt:
			labels[x.Stmt] = x.Label.Name
		case *ast.RangeStmt:
			// without a condition, any element will do
			if ends(x.Body) && chooses(x.Body) && !continues(x.Body, labels[x], true) {
				w.c.Report("once", w.c.FuncName(f), At(x.Pos()), fmt.Sprintf("%s never gets to the second element of something it works through", w.c.FuncName(f)))
			}
		}
		return true
	})
}

// ends: a body does not come to its end.
func ends(body *ast.BlockStmt) bool {
	if len(body.List) == 0 {
		return false
	}
	switch x := body.List[len(body.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.BREAK
	}
	return false
}

// chooses: what a body does depends on a condition.
func chooses(body *ast.BlockStmt) bool {
	for _, s := range body.List {
		switch s.(type) {
		case *ast.IfStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return true
		}
	}
	return false
}

// continues: a statement goes on with the next element.
func continues(s ast.Node, label string, own bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt:
			if n != s {
				found = found || continues(n, label, false)
				return false
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE && (x.Label == nil && own || x.Label != nil && x.Label.Name == label) || x.Tok == token.GOTO {
				found = true
			}
		}
		return true
	})
	return found
}

// goesOn: a variable goes on to what it refers to.
func goesOn(l *loop, phi *ssa.Phi) bool {
	for i, p := range phi.Block().Preds {
		if !l.blocks[p] {
			continue
		}
		ld, ok := isLoad(phi.Edges[i])
		if !ok {
			return false
		}
		if fa, ok := ld.X.(*ssa.FieldAddr); !ok || fa.X != phi {
			return false
		}
	}
	return true
}

// whole: a loop that counts starts with the first element and goes up to the
// last one, or those it leaves out are looked at by themselves.
func (w *workthrough) whole(f *ssa.Function, l *loop) {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.LEQ {
		return
	}
	phi, ok := cmp.X.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return
	}
	seq, k := lenOf(cmp.Y)
	if seq == nil {
		// the number of fields, elements or arguments
		call, ok := cmp.Y.(*ssa.Call)
		if !ok || len(call.Call.Args) > 1 || cmp.Op != token.LSS {
			return
		}
		seq = call
	}
	if isText(seq.Type()) {
		return
	}
	if b, ok := seq.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return
	}
	if cmp.Op == token.LEQ {
		k++
	}
	start := 0
	for i, p := range phi.Block().Preds {
		if l.blocks[p] {
			if inc, ok := phi.Edges[i].(*ssa.BinOp); !ok || inc.Op != token.ADD || inc.X != phi {
				return
			}
			continue
		}
		n, ok := constInt(phi.Edges[i])
		if !ok {
			return
		}
		start = n
	}
	w.c.Count("loops that count", 1)
	if start <= 0 && k >= 0 {
		return
	}
	if !elsewhere(f, seq, phi) {
		w.leftOut(f, iff)
	}
}

func (w *workthrough) leftOut(f *ssa.Function, iff *ssa.If) {
	name := w.c.FuncName(f)
	w.c.Report("part", name, iff, fmt.Sprintf("%s leaves out the first or last elements of what it works through", name))
}

// elsewhere: elements are also looked at by themselves.
func elsewhere(f *ssa.Function, seq, index ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if sameList(x.X, seq) && x.Index != index {
					return true
				}
			case *ssa.Slice:
				if sameList(x.X, seq) {
					return true
				}
			}
		}
	}
	return false
}

func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := isLoad(a)
	y, ok2 := isLoad(b)
	if !ok || !ok2 {
		return false
	}
	if x.X == y.X {
		return true
	}
	fx, ok := x.X.(*ssa.FieldAddr)
	fy, ok2 := y.X.(*ssa.FieldAddr)
	return ok && ok2 && fx.Field == fy.Field && types.Identical(fx.X.Type(), fy.X.Type())
}

// isText: bytes, runes or tokens, which are looked through for a place.
func isText(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	el := derefType(sl.Elem())
	if b, ok := el.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsInteger != 0
	}
	n := namedOf(el)
	return n != nil && strings.Contains(strings.ToLower(n.Obj().Name()), "token")
}

func (w *workthrough) loop(f *ssa.Function, l *loop) {
	what, at := over(l)
	if at == nil {
		return
	}
	name := w.c.FuncName(f)
	w.c.Count("loops over a collection", 1)
	end := l.header.Succs[0]
	if l.blocks[end] {
		end = l.header.Succs[1]
	}
	for _, x := range f.Blocks {
		if !l.blocks[x] || x == l.header {
			continue
		}
		for _, y := range x.Succs {
			if l.blocks[y] {
				continue
			}
			w.c.Count("ways out", 1)
			w.c.Obligation("%s: leaving a loop over %s", name, what)
			how := w.silent(l, end, x, y)
			if how != "" && !w.failed(l, end, x, y) {
				w.c.Report("early", fmt.Sprintf("%s over %s", name, what), At(wayPos(x)), fmt.Sprintf("%s %s before it has worked through all of %s, with nothing found and no error", name, how, what))
			}
		}
	}
}

func wayPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	if len(b.Preds) == 1 {
		return wayPos(b.Preds[0])
	}
	return token.NoPos
}

// failed: an error was met on the way out.
func (w *workthrough) failed(l *loop, end, x, y *ssa.BasicBlock) bool {
	for _, b := range y.Parent().Blocks {
		if y.Dominates(b) && w.u.fails(b) && !b.Dominates(end) && y != end {
			return true
		}
	}
	for b := x; b != nil && l.blocks[b]; b = b.Idom() {
		if w.u.fails(b) {
			return true
		}
	}
	for _, t := range append(dominatingTests(x), edgeTest(x, y)...) {
		if t.at == nil || !l.blocks[t.at.Block()] {
			continue
		}
		if w.u.says(t.cond, t.yes, map[*ssa.BasicBlock]bool{}) {
			return true
		}
		cmp, ok := t.cond.(*ssa.BinOp)
		if ok && (cmp.Op == token.NEQ) == t.yes && isErr(cmp.X.Type()) && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
			return true
		}
	}
	return false
}

// silent: how a way out of a loop tells nothing that its end does not tell.
func (w *workthrough) silent(l *loop, end, x, y *ssa.BasicBlock) string {
	endFrom, endTo := pastJumps(l.header, end)
	if edges := w.rejoins(l, x, y, endTo); len(edges) > 0 {
		for _, in := range endTo.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e := incoming(phi, endFrom)
			for _, from := range edges {
				v := incoming(phi, from)
				if v == nil || e == nil || !equalConst(v, e) && !w.adds(l, v, e, map[ssa.Value]bool{}) {
					return ""
				}
			}
		}
		if placed(l) || counted(x, y) {
			return ""
		}
		return "stops"
	}
	_, to := pastJumps(x, y)
	ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return)
	if !ok || len(to.Instrs) != 1 || len(ret.Results) == 0 {
		return ""
	}
	kept := false
	for _, r := range ret.Results {
		if _, ok := r.(*ssa.Const); ok {
			continue
		}
		phi, ok := r.(*ssa.Phi)
		if ok && phi.Block() == l.header {
			kept = true
			continue
		}
		if !l.definedIn(r) {
			if _, ok := r.Type().Underlying().(*types.Map); ok {
				kept = true
				continue
			}
		}
		return ""
	}
	if kept {
		return "returns"
	}
	return ""
}

// placed: how far a loop has come is used after it.
func placed(l *loop) bool {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		for _, r := range *phi.Referrers() {
			if r.Block() != nil && !l.blocks[r.Block()] {
				return true
			}
		}
	}
	return false
}

// counted: a way out is taken for the number of things there are.
func counted(x, y *ssa.BasicBlock) bool {
	for _, t := range edgeTest(x, y) {
		if cmp, ok := t.cond.(*ssa.BinOp); ok {
			a, _ := lenOf(cmp.X)
			b, _ := lenOf(cmp.Y)
			if a != nil || b != nil {
				return true
			}
		}
	}
	return false
}

// rejoins: where a way out that keeps nothing comes back to the end of the loop.
func (w *workthrough) rejoins(l *loop, x, y, endTo *ssa.BasicBlock) []*ssa.BasicBlock {
	if y == endTo {
		return []*ssa.BasicBlock{x}
	}
	if !l.header.Dominates(y) || y.Dominates(endTo) {
		return nil
	}
	for _, p := range y.Preds {
		if !l.blocks[p] {
			return nil
		}
	}
	var out []*ssa.BasicBlock
	for _, b := range y.Parent().Blocks {
		if !y.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate, *ssa.Send:
				return nil
			case *ssa.Store:
				if al := rootAlloc(in.Addr); al == nil || !y.Dominates(al.Block()) {
					return nil
				}
			case *ssa.Return:
				return nil
			}
		}
		for _, n := range b.Succs {
			if n == endTo {
				out = append(out, b)
			} else if !y.Dominates(n) {
				return nil
			}
		}
	}
	return out
}

// adds: a value is what there was with something added.
func (w *workthrough) adds(l *loop, v, e ssa.Value, seen map[ssa.Value]bool) bool {
	if v == e || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		return isAppend(x) && w.adds(l, x.Call.Args[0], e, seen)
	case *ssa.Phi:
		if !l.header.Dominates(x.Block()) {
			return false
		}
		for _, ed := range x.Edges {
			if !w.adds(l, ed, e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// pastJumps follows an edge through blocks that do nothing.
func pastJumps(from, to *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) {
	for len(to.Instrs) == 1 && len(to.Succs) == 1 && to.Succs[0] != to {
		from, to = to, to.Succs[0]
	}
	return from, to
}

func incoming(phi *ssa.Phi, from *ssa.BasicBlock) ssa.Value {
	for i, p := range phi.Block().Preds {
		if p == from {
			return phi.Edges[i]
		}
	}
	return nil
}

func equalConst(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && x.String() == y.String()
}

// idle: a loop over a collection does something with it.
func (w *workthrough) idle(f *ssa.Function, l *loop) {
	what, at := over(l)
	if at == nil {
		return
	}
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] && b != l.header {
				return
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Select, *ssa.RunDefers:
				return
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" || bi.Name() == "len" || bi.Name() == "cap" {
						break
					}
					return
				}
				if !x.Call.IsInvoke() || !isNamed(x.Call.Value.Type(), ctyPath, "ElementIterator") {
					return
				}
			}
			if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						return
					}
				}
			}
		}
	}
	name := w.c.FuncName(f)
	w.c.Report("idle", fmt.Sprintf("%s over %s", name, what), At(loopPos(l)), fmt.Sprintf("%s works through %s and does nothing with it", name, what))
}
