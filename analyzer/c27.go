package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "in the programs of the repository, every path on which an error was found is followed to the end: it must be shown and lead to a failure status (through results, flags and counters that are tested), must not overwrite a file, and files are written only under an option, with the formatted text of the file of the same name", runC27)
}

func runC27(c *Ctx) {
	t := &tools{c: c, cells: map[ssa.Value]bool{}, handled: map[*ssa.Parameter]int{}}
	for _, f := range c.AllFuncs() {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && c.InRepo(f) && len(f.Blocks) > 0 && !c.generated(f) && !isFuzz(c.PkgOf(f)) && c.PkgOf(f) != "hcl/hclsyntax" && strings.HasPrefix(c.PkgOf(f), "cmd/") {
			t.funcs = append(t.funcs, f)
		}
	}
	t.status()
	t.failing()
	for _, f := range t.funcs {
		t.sources(f)
		t.files(f)
	}
	c.Floor("errors in programs", 70)
	c.Floor("files written", 1)
}

type tools struct {
	c       *Ctx
	funcs   []*ssa.Function
	exits   map[*ssa.Function]bool // their result is the exit status
	cells   map[ssa.Value]bool     // a flag or counter whose test fails the program
	handled map[*ssa.Parameter]int
}

// status finds functions whose number becomes the exit status.
func (t *tools) status() {
	t.exits = map[*ssa.Function]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.Call:
			for _, g := range t.c.Callees(x.Common()) {
				if t.exits[g] || !t.c.InRepo(g) {
					continue
				}
				t.exits[g] = true
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						mark(r.Results[0])
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if _, ok := e.(*ssa.Phi); !ok {
					mark(e)
				}
			}
		}
	}
	for _, f := range t.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && isExit(call.Common()) && len(call.Call.Args) == 1 {
					mark(call.Call.Args[0])
				}
			}
		}
	}
}

// failing finds flags and counters whose test makes the program fail.
func (t *tools) failing() {
	for changed := true; changed; {
		changed = false
		for _, f := range t.funcs {
			for _, b := range f.Blocks {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				cell, edge := cellTest(iff.Cond)
				if cell == nil || t.cells[cell] {
					continue
				}
				w := &failWalk{t: t, f: f}
				w.walk(b.Succs[edge], 0, failState{bad: true, shown: true, carriers: map[ssa.Value]bool{}, known: map[ssa.Value]bool{}, from: b})
				if len(w.lost) == 0 && !w.stopped && !w.looped {
					t.cells[cell] = true
					changed = true
					t.c.Count("flags that fail the program", 1)
				}
			}
		}
	}
	// the test comes after everything that may set the flag
	for cell := range t.cells {
		setters := map[*ssa.Function]bool{}
		for _, f := range t.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && cellOf(st.Addr) == cell && !isZero(st.Val) {
						setters[f] = true
					}
				}
			}
		}
		may := map[*ssa.Function]bool{}
		var reach func(f *ssa.Function, seen map[*ssa.Function]bool) bool
		reach = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
			if setters[f] {
				return true
			}
			if seen[f] || f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
				return false
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, g := range t.c.Callees(ci.Common()) {
							if reach(g, seen) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		for _, f := range t.funcs {
			var tests []*ssa.If
			for _, b := range f.Blocks {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if x, _ := cellTest(iff.Cond); x == cell {
						tests = append(tests, iff)
					}
				}
			}
			if len(tests) == 0 {
				continue
			}
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					sets := false
					switch x := in.(type) {
					case *ssa.Call:
						for _, g := range t.c.Callees(x.Common()) {
							if !may[g] && reach(g, map[*ssa.Function]bool{}) {
								may[g] = true
							}
							sets = sets || may[g]
						}
					case *ssa.Store:
						sets = cellOf(x.Addr) == cell && !isZero(x.Val)
					}
					if !sets {
						continue
					}
					w := &failWalk{t: t, f: f, until: cell}
					w.walk(b, i+1, failState{carriers: map[ssa.Value]bool{}, known: map[ssa.Value]bool{}})
					t.c.Obligation("%s: %s is tested after it may have been set", t.c.FuncName(f), cell.Name())
					if len(w.lost) > 0 {
						t.c.Report("flag", t.c.FuncName(f)+" "+cell.Name(), in, "the program can end without the test of "+cell.Name()+", which may have been set here")
					}
				}
			}
		}
	}
}

// cellOf: the variable behind an address, across closures.
func cellOf(addr ssa.Value) ssa.Value {
	switch x := capturedFrom(addr).(type) {
	case *ssa.Global:
		return x
	case *ssa.Alloc:
		return x
	}
	return nil
}

// cellTest: a test whether a variable is set, and the edge on which it is.
func cellTest(cond ssa.Value) (ssa.Value, int) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			cell, e := cellTest(x.X)
			return cell, 1 - e
		}
		if l, ok := isLoad(x); ok {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return cellOf(l.X), 0
			}
		}
	case *ssa.BinOp:
		v, k := x.X, x.Y
		op := x.Op
		if _, ok := v.(*ssa.Const); ok {
			v, k, op = k, v, swapped(op)
		}
		l, ok := isLoad(v)
		if !ok || !isInt(v.Type()) {
			return nil, 0
		}
		n, ok := constInt(k)
		if !ok {
			return nil, 0
		}
		switch {
		case n == 0 && (op == token.GTR || op == token.NEQ), n == 1 && op == token.GEQ:
			return cellOf(l.X), 0
		case n == 0 && (op == token.EQL || op == token.LEQ), n == 1 && op == token.LSS:
			return cellOf(l.X), 1
		}
	}
	return nil, 0
}

type failState struct {
	carriers map[ssa.Value]bool // hold the error
	known    map[ssa.Value]bool // choices made on the way
	bad      bool               // the error is known to be there
	met      bool               // the program is going to fail
	shown    bool               // and the error was shown or handed on
	held     bool               // it was given to a writer that keeps it until flushed
	from     *ssa.BasicBlock
}

func (s failState) clone() failState {
	n := s
	n.carriers, n.known = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for k := range s.carriers {
		n.carriers[k] = true
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	return n
}

func (s failState) key(b *ssa.BasicBlock) string {
	var ks []string
	for k := range s.carriers {
		ks = append(ks, k.Name())
	}
	for k, v := range s.known {
		ks = append(ks, fmt.Sprintf("%s=%v", k.Name(), v))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d|%s|%v%v%v%v", b.Index, strings.Join(ks, ","), s.bad, s.met, s.shown, s.held)
}

// failWalk follows an error along the paths of a function.
type failWalk struct {
	t       *tools
	f       *ssa.Function
	src     ssa.Value
	until   ssa.Value // stop at the test of this variable
	seen    map[string]bool
	lost    []token.Pos
	hidden  []token.Pos
	wrote   []ssa.Instruction
	stopped bool
	looped  bool
	steps   int
}

func (w *failWalk) carries(st *failState, v ssa.Value) bool {
	if v == nil {
		return false
	}
	if st.carriers[v] {
		return true
	}
	if r := rootAlloc(v); r != nil && st.carriers[r] {
		return true
	}
	return false
}

func (w *failWalk) walk(b *ssa.BasicBlock, start int, st failState) {
	if w.seen == nil {
		w.seen = map[string]bool{}
	}
	if w.steps++; w.steps > 30000 {
		w.stopped = true
		return
	}
	if start == 0 && st.from != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == st.from {
				pi = i
			}
		}
		type up struct {
			v     *ssa.Phi
			c     bool
			k, kv bool
		}
		var ups []up
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || pi < 0 {
				break
			}
			e := phi.Edges[pi]
			u := up{v: phi, c: st.carriers[e]}
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				switch k.Value.Kind() {
				case constant.Bool:
					u.k, u.kv = true, constant.BoolVal(k.Value)
				case constant.Int:
					u.k, u.kv = true, constant.Sign(k.Value) != 0
				}
			} else if kv, ok := st.known[e]; ok {
				u.k, u.kv = true, kv
			}
			ups = append(ups, u)
		}
		for _, u := range ups {
			set(st.carriers, u.v, u.c)
			delete(st.known, u.v)
			if u.k {
				st.known[u.v] = u.kv
			}
		}
		key := st.key(b)
		if w.seen[key] {
			return
		}
		w.seen[key] = true
	}
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Panic:
			return
		case *ssa.Return:
			w.out(x, &st)
			return
		case *ssa.Jump:
			n := st.clone()
			n.from = b
			w.walk(b.Succs[0], 0, n)
			return
		case *ssa.If:
			if w.until != nil {
				if cell, _ := cellTest(x.Cond); cell == w.until {
					return
				}
			}
			for k, succ := range b.Succs {
				if infeasible(b, k) {
					continue
				}
				if kv, ok := st.known[x.Cond]; ok && kv != (k == 0) {
					continue
				}
				ds := diagState{carriers: st.carriers}
				empty, nonempty := diagCond(x.Cond, k == 0, &ds)
				if empty {
					continue
				}
				n := st.clone()
				if nonempty {
					n.bad = true
				}
				if _, isPhi := x.Cond.(*ssa.Phi); isPhi {
					n.known[x.Cond] = k == 0
				}
				n.from = b
				w.walk(succ, 0, n)
			}
			return
		default:
			if w.step(in, &st) {
				return
			}
		}
	}
}

// out: a return. The error must be in the results, or the failure certain.
func (w *failWalk) out(r *ssa.Return, st *failState) {
	if w.until != nil {
		for _, v := range r.Results {
			if isDiagLike(v.Type()) && !isNilConst(v) {
				return
			}
			if w.t.exits[w.f] && nonZero(v, st) {
				return
			}
		}
		w.lost = append(w.lost, r.Pos())
		return
	}
	if st.met {
		if !st.shown && w.src != nil {
			w.hidden = append(w.hidden, r.Pos())
		}
		return
	}
	for _, v := range r.Results {
		if w.carries(st, v) {
			return
		}
		if w.t.exits[w.f] && nonZero(v, st) {
			if !st.shown {
				w.hidden = append(w.hidden, r.Pos())
			}
			return
		}
		if call, ok := v.(*ssa.Call); ok && isErr(v.Type()) {
			if pkg, name := calleePkg(call.Common()); pkg == "fmt" && name == "Errorf" || pkg == "errors" && name == "New" {
				return // fails anyway
			}
		}
		if st.bad && isDiagLike(v.Type()) && madeHere(v, map[ssa.Value]bool{}) {
			return
		}
	}
	w.lost = append(w.lost, r.Pos())
}

func nonZero(v ssa.Value, st *failState) bool {
	if n, ok := constInt(v); ok {
		return n != 0
	}
	return st.known[v]
}

// madeHere: an error made on the spot or taken from another call.
func madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "append" && (madeHere(x.Call.Args[0], seen) || madeHere(x.Call.Args[1], seen))
		}
		return true
	case *ssa.Extract:
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.Slice:
		return rootAlloc(x.X) != nil
	case *ssa.ChangeType:
		return madeHere(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if madeHere(e, seen) {
				return true
			}
		}
	}
	return false
}

// step: an instruction on the way; true ends the path.
func (w *failWalk) step(in ssa.Instruction, st *failState) bool {
	t := w.t
	val, isVal := in.(ssa.Value)
	if isVal && val == w.src {
		had := false
		if call, ok := in.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				had = had || w.carries(st, a)
			}
		}
		set(st.carriers, val, had)
		return false
	}
	switch x := in.(type) {
	case *ssa.Store:
		cell := cellOf(x.Addr)
		if cell != nil && t.cells[cell] && st.bad {
			if k, ok := x.Val.(*ssa.Const); ok && !isZero(k) {
				st.met = true
			}
			if bo, ok := x.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
				st.met = true
			}
		}
		root := rootAlloc(x.Addr)
		if w.carries(st, x.Val) {
			if root == nil {
				st.met, st.shown = true, true // kept elsewhere
			} else {
				st.carriers[root] = true
			}
		} else if root != nil && ssa.Value(root) == x.Addr {
			delete(st.carriers, root)
		}
	case *ssa.MapUpdate:
		if w.carries(st, x.Value) {
			st.met, st.shown = true, true
		}
	case *ssa.Call:
		cc := x.Common()
		if isExit(cc) {
			if w.until != nil {
				return true
			}
			failed := !strings.Contains(cc.StaticCallee().Name(), "Exit") || nonZero(cc.Args[0], st) || w.carries(st, cc.Args[0])
			if !failed {
				if st.bad || len(st.carriers) > 0 {
					w.lost = append(w.lost, x.Pos())
				}
			} else if !st.shown && (st.bad || len(st.carriers) > 0) {
				w.hidden = append(w.hidden, x.Pos())
			}
			return true
		}
		if t.changesFile(cc, 0) && st.bad && w.src != nil && !w.reportsItself(w.src) {
			w.wrote = append(w.wrote, x)
		}
		any := cc.IsInvoke() && w.carries(st, cc.Value)
		for _, a := range cc.Args {
			any = any || w.carries(st, a)
		}
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if any && (bi.Name() == "len") && indexed(cc.Args[0]) {
				st.met, st.shown = true, true
			}
			set(st.carriers, x, any && bi.Name() == "append")
			return false
		}
		set(st.carriers, x, false)
		if !any {
			if st.held && t.flushes(cc, 0) {
				st.shown = true
			}
			if callsNeverReturn(cc) {
				return true
			}
			return false
		}
		if isEmptinessTest(cc) {
			return false
		}
		if showsToUser(cc) {
			if cc.IsInvoke() && t.buffered(w.f.Pkg) {
				st.held = true
			} else {
				st.shown = true
			}
			return false
		}
		if cc.IsInvoke() && cc.Method.Name() == "Error" && len(cc.Args) == 0 {
			st.carriers[x] = true
			return false
		}
		if len(resultDiagIndexes(cc.Signature())) > 0 {
			st.carriers[x] = true
			return false
		}
		// handed to a function that has to deal with it
		ok := len(t.c.Callees(cc)) > 0
		for _, g := range t.c.Callees(cc) {
			if !t.deals(g, cc, st, w) {
				ok = false
			}
		}
		if ok {
			st.met, st.shown = true, true
			return false
		}
		if !t.c.InRepoCall(cc) {
			// text made from it
			st.carriers[x] = true
		}
	case *ssa.Extract:
		set(st.carriers, x, st.carriers[x.Tuple] && (isDiagLike(x.Type())))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			set(st.carriers, x, w.carries(st, x.X))
		}
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index:
		ops := in.Operands(nil)
		set(st.carriers, val, st.carriers[*ops[0]])
	case *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert:
		ops := in.Operands(nil)
		set(st.carriers, val, w.carries(st, *ops[0]))
	case *ssa.Range:
		if w.carries(st, x.X) {
			st.met, st.shown = true, true
		}
	default:
		if isVal {
			delete(st.carriers, val)
		}
	}
	return false
}

// buffered: the program has a writer of diagnostics that must be flushed.
func (t *tools) buffered(pkg *ssa.Package) bool {
	for _, n := range t.c.named {
		if pkg == nil || n.Obj().Pkg() != pkg.Pkg {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(n))
		if ms.Lookup(pkg.Pkg, "Flush") != nil && ms.Lookup(pkg.Pkg, "WriteDiagnostics") != nil {
			return true
		}
	}
	return false
}

// flushes: the call has a Flush method called.
func (t *tools) flushes(cc *ssa.CallCommon, depth int) bool {
	if cc.IsInvoke() {
		return cc.Method.Name() == "Flush"
	}
	f := cc.StaticCallee()
	if f == nil || depth > 3 {
		return false
	}
	if f.Name() == "Flush" && f.Signature.Recv() != nil {
		return true
	}
	if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && t.flushes(call.Common(), depth+1) {
				return true
			}
		}
	}
	return false
}

// callsNeverReturn: a function of the program that ends in a failing exit.
func callsNeverReturn(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
		return false
	}
	fails := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && isExit(call.Common()) && len(f.Blocks) == 1 {
				if n, ok := constInt(call.Call.Args[0]); ok && n != 0 {
					fails = true
				}
			}
		}
	}
	return fails
}

// reportsItself: the error is about the writing.
func (w *failWalk) reportsItself(src ssa.Value) bool {
	if ex, ok := src.(*ssa.Extract); ok {
		src = ex.Tuple
	}
	call, ok := src.(*ssa.Call)
	return ok && w.t.changesFile(call.Common(), 0)
}

// deals: the function makes the program fail for errors in its parameter.
func (t *tools) deals(g *ssa.Function, cc *ssa.CallCommon, st *failState, w *failWalk) bool {
	if len(g.Blocks) == 0 || g.Pkg == nil || g.Pkg.Pkg.Name() != "main" {
		return false
	}
	ok := false
	for i, a := range cc.Args {
		j := i
		if cc.IsInvoke() {
			j++
		}
		if !w.carries(st, a) || j >= len(g.Params) || !isDiagLike(g.Params[j].Type()) {
			continue
		}
		p := g.Params[j]
		if t.handled[p] == 0 {
			t.handled[p] = 1
			v := &failWalk{t: t, f: g, src: p}
			v.walk(g.Blocks[0], 0, failState{carriers: map[ssa.Value]bool{p: true}, known: map[ssa.Value]bool{}})
			if len(v.lost) > 0 || v.stopped {
				t.handled[p] = 2
			}
			t.c.Obligation("%s deals with errors in %s", t.c.FuncName(g), p.Name())
		}
		if t.handled[p] == 2 {
			return false
		}
		ok = true
	}
	return ok
}

// writesFile: a call that changes a file.
func writesFile(cc *ssa.CallCommon) bool {
	pkg, name := calleePkg(cc)
	switch pkg {
	case "io/ioutil", "os":
		switch name {
		case "WriteFile", "Create", "Truncate", "Rename", "Remove", "RemoveAll":
			return true
		case "OpenFile":
			if n, ok := constInt(cc.Args[1]); ok && n&3 == 0 {
				return false
			}
			return true
		}
	}
	return false
}

// changesFile: a call that changes a file, directly or in a function of the
// program.
func (t *tools) changesFile(cc *ssa.CallCommon, depth int) bool {
	if writesFile(cc) {
		return true
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && t.changesFile(call.Common(), depth+1) {
				return true
			}
		}
	}
	return false
}

// sources: every error a program can meet.
func (t *tools) sources(f *ssa.Function) {
	c := t.c
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			var srcs []ssa.Value
			what := ""
			switch x := in.(type) {
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				sig := x.Call.Signature()
				what = c.calleeName(x.Common())
				for _, ri := range resultDiagIndexes(sig) {
					var src ssa.Value
					if sig.Results().Len() == 1 {
						src = x
					} else {
						for _, r := range *x.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == ri {
								src = ex
							}
						}
					}
					if src != nil && len(*src.Referrers()) == 0 {
						src = nil
					}
					if src == nil {
						if toFile(x.Common()) {
							c.Report("write", c.FuncName(f)+" "+what, x, "an error writing the result is not looked at")
						} else if why := c.c01Allowed(f, x.Common(), ri); why != "" {
							c.Exception(why)
						} else {
							c.Report("status", c.FuncName(f)+" "+what, x, "the program goes on although this may have failed")
						}
						continue
					}
					srcs = append(srcs, src)
				}
			case *ssa.Alloc:
				if isDiagPtr(x.Type()) && x.Heap {
					srcs, what = []ssa.Value{x}, "new diagnostic"
				}
			}
			for _, src := range srcs {
				c.Count("errors in programs", 1)
				if why := t.allowed(f, src); why != "" {
					c.Exception(why)
					continue
				}
				sb, si := b, i
				if ex, ok := src.(*ssa.Extract); ok {
					sb = ex.Block()
					for k, u := range sb.Instrs {
						if u == ssa.Instruction(ex) {
							si = k
						}
					}
				}
				w := &failWalk{t: t, f: f, src: src}
				_, made := src.(*ssa.Alloc)
				w.walk(sb, si+1, failState{carriers: map[ssa.Value]bool{src: true}, known: map[ssa.Value]bool{}, bad: made})
				c.Obligation("%s: %s at %s", c.FuncName(f), what, c.PosString(in.Pos()))
				key := c.FuncName(f) + " " + what
				at := func(ps []token.Pos) string {
					var s []string
					for _, p := range ps {
						s = append(s, c.PosString(p))
					}
					return strings.Join(uniq(s), ", ")
				}
				if w.stopped {
					c.Report("undecided", key, in, "too many paths")
				}
				if len(w.lost) > 0 {
					c.Report("status", key, in, "the program can go on to end successfully after this failed, through "+at(w.lost))
				}
				if len(w.hidden) > 0 {
					c.Report("shown", key, in, "the program can end without showing this error, at "+at(w.hidden))
				}
				for _, wr := range w.wrote {
					c.Report("overwrite", key, wr, "a file is written although an earlier step failed: "+what)
				}
			}
		}
	}
}

// toFile: the destination of the output may be a file opened for it.
func toFile(cc *ssa.CallCommon) bool {
	pkg, name := calleePkg(cc)
	var dest ssa.Value
	switch {
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"), pkg == "io" && (name == "WriteString" || name == "Copy"):
		dest = cc.Args[0]
	case pkg == "os" && strings.HasPrefix(name, "Write"), pkg == "io" && name == "Write":
		if cc.IsInvoke() {
			dest = cc.Value
		} else {
			dest = cc.Args[0]
		}
	case writesFile(cc):
		return true
	default:
		return false
	}
	if l, ok := isLoad(dest); ok && name == "Write" {
		if g, ok := l.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout" {
			return true // the result itself
		}
	}
	seen := map[ssa.Value]bool{}
	var find func(v ssa.Value) bool
	find = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return find(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if find(e) {
					return true
				}
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				return writesFile(call.Common())
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) && find(st.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return find(dest)
}

// allowed: steps that may fail without the program failing.
func (t *tools) allowed(f *ssa.Function, src ssa.Value) string {
	var call *ssa.Call
	switch x := src.(type) {
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
	case *ssa.Call:
		call = x
	}
	if call == nil {
		return ""
	}
	pkg, name := calleePkg(call.Common())
	switch {
	case strings.HasSuffix(pkg, "ssh/terminal"):
		return "the width of the terminal only affects how messages are wrapped"
	case pkg == "path/filepath" && name == "Rel":
		return "a path that cannot be made relative is shown in full"
	case pkg == "os" && name == "Stat" && unusedBut(call, src):
		return "the existence of a file is asked for"
	}
	if optional(t.c, call, src) {
		return "the result is optional in the output or only serves to illustrate messages"
	}
	return ""
}

// unusedBut: no other result of the call is used.
func unusedBut(call *ssa.Call, src ssa.Value) bool {
	for _, r := range *call.Referrers() {
		if v, ok := r.(ssa.Value); ok && v != src && len(*v.Referrers()) > 0 {
			return false
		}
	}
	return true
}

// optional: the result of a step only goes to an optional part of the output,
// or to the source text kept for messages.
func optional(c *Ctx, call *ssa.Call, src ssa.Value) bool {
	uses := 0
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Convert, *ssa.ChangeType, *ssa.Phi:
				if !only(r.(ssa.Value)) {
					return false
				}
			case *ssa.Extract:
				if ssa.Value(x) != src && !isDiagLike(x.Type()) && !only(x) {
					return false
				}
			case *ssa.Call:
				if isDiagLike(x.Type()) {
					return false
				}
				if !only(x) {
					return false
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || x.Val != v {
					return false
				}
				st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					return false
				}
				if !strings.Contains(st.Tag(fa.Field), "omitempty") && !isNamed(derefType(fa.X.Type()), hclPath, "File") {
					return false
				}
				uses++
			default:
				return false
			}
		}
		return true
	}
	return only(call) && uses > 0
}

// files judges the calls that change files.
func (t *tools) files(f *ssa.Function) {
	c := t.c
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !writesFile(call.Common()) {
				continue
			}
			c.Count("files written", 1)
			_, name := calleePkg(call.Common())
			key := c.FuncName(f) + " " + name
			flags := t.asked(f, call, 0)
			if len(flags) == 0 {
				c.Report("asked", key, call, "a file is written without being asked for by an option")
				continue
			}
			c.Obligation("%s writes a file only under %s", c.FuncName(f), strings.Join(flags, ", "))
			if opt := t.named(f, call.Call.Args[0], 0); opt != "" {
				// the option names the file
				if !contains(flags, opt) {
					c.Report("asked", key, call, "a file is written although the option that names it is not given")
				}
				continue
			}
			if name != "WriteFile" {
				c.Report("asked", key, call, "a file that no option names is changed")
				continue
			}
			if why := t.formatted(f, call.Call.Args[0], call.Call.Args[1], false, flags, 0); why != "" {
				c.Report("contents", key, call, why)
			}
		}
	}
}

// asked: the options under which an instruction is reached, here or in
// every caller.
func (t *tools) asked(f *ssa.Function, at ssa.Instruction, depth int) []string {
	own := t.options(f, at)
	if depth > 4 {
		return own
	}
	out := own
	for _, s := range t.sites(f) {
		o := t.asked(s.Parent(), s, depth+1)
		if len(o) == 0 && len(own) == 0 {
			return nil
		}
		out = append(out, o...)
	}
	return uniq(out)
}

// named: an option gives the name of the file, here or in every caller.
func (t *tools) named(f *ssa.Function, v ssa.Value, depth int) string {
	p, ok := v.(*ssa.Parameter)
	if !ok || depth > 4 {
		if l, ok := isLoad(v); ok {
			if g := t.option(l.X); g != nil {
				return g.Name()
			}
		}
		return ""
	}
	opt := ""
	for _, s := range t.sites(f) {
		o := t.named(s.Parent(), s.Call.Args[paramIndex(f, p)], depth+1)
		if o == "" || opt != "" && o != opt {
			return ""
		}
		opt = o
	}
	return opt
}

// option: the variable for the option whose value is at the address.
func (t *tools) option(addr ssa.Value) *ssa.Global {
	l, ok := isLoad(addr)
	if !ok {
		g, ok := addr.(*ssa.Global)
		if !ok {
			return nil
		}
		// a variable given to the flag package by address
		for _, f := range t.c.AllFuncs() {
			if f.Pkg != g.Pkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok && isFlagPkg(call.Common()) {
						for _, a := range call.Call.Args {
							if a == ssa.Value(g) {
								return g
							}
						}
					}
				}
			}
		}
		return nil
	}
	g, ok := l.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil
	}
	for _, f := range t.c.AllFuncs() {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					if call, ok := st.Val.(*ssa.Call); ok && isFlagPkg(call.Common()) {
						return g
					}
				}
			}
		}
	}
	if init := g.Pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					if call, ok := st.Val.(*ssa.Call); ok && isFlagPkg(call.Common()) {
						return g
					}
				}
			}
		}
	}
	return nil
}

func isFlagPkg(cc *ssa.CallCommon) bool {
	pkg, _ := calleePkg(cc)
	return pkg == "flag" || strings.HasSuffix(pkg, "/pflag")
}

// options: the options that are on whenever the instruction is reached.
func (t *tools) options(f *ssa.Function, at ssa.Instruction) []string {
	var out []string
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for edge := 0; edge < 2; edge++ {
			if s := b.Succs[edge]; !(s.Dominates(at.Block()) && len(s.Preds) == 1 || b.Dominates(at.Block()) && !reachesBlock(b.Succs[1-edge], at.Block(), b)) {
				continue
			}
			if g, on := t.optionTest(iff.Cond, edge == 0); g != nil && on {
				out = append(out, g.Name())
			}
		}
	}
	return uniq(out)
}

// optionTest: an option is tested, and is on when the condition has the
// given outcome.
func (t *tools) optionTest(cond ssa.Value, outcome bool) (*ssa.Global, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return t.optionTest(x.X, !outcome)
		}
		if l, ok := isLoad(x); ok {
			return t.option(l.X), outcome
		}
	case *ssa.BinOp:
		v, k := x.X, x.Y
		if _, ok := v.(*ssa.Const); ok {
			v, k = k, v
		}
		kc, ok := k.(*ssa.Const)
		l, isl := isLoad(v)
		if ok && isl && kc.Value != nil && kc.Value.Kind() == constant.String && constant.StringVal(kc.Value) == "" {
			switch x.Op {
			case token.NEQ:
				return t.option(l.X), outcome
			case token.EQL:
				return t.option(l.X), !outcome
			}
		}
	}
	return nil, false
}

// formatted: the text written is the formatted text of the file of that name.
func (t *tools) formatted(f *ssa.Function, name, text ssa.Value, done bool, flags []string, depth int) string {
	if p, ok := text.(*ssa.Parameter); ok {
		// what the callers pass
		n := 0
		for _, site := range t.sites(f) {
			n++
			nm := name
			if q, ok := name.(*ssa.Parameter); ok {
				nm = site.Call.Args[paramIndex(f, q)]
			}
			if depth > 4 {
				return "the text written is not the formatted text"
			}
			fl := uniq(append(t.options(site.Parent(), site), flags...))
			if why := t.formatted(site.Parent(), nm, site.Call.Args[paramIndex(f, p)], done, fl, depth+1); why != "" {
				return why
			}
		}
		if n == 0 {
			return "the text written is not the formatted text"
		}
		return ""
	}
	if form, ok := text.(*ssa.Call); ok && !done {
		if g := form.Call.StaticCallee(); g != nil && g.Pkg != nil && relPkg(g.Pkg.Pkg) == "hclwrite" && g.Name() == "Format" {
			return t.formatted(f, name, form.Call.Args[0], true, flags, depth)
		}
	}
	if !done {
		return "the text written is not the formatted text"
	}
	ex, ok := text.(*ssa.Extract)
	var read *ssa.Call
	if ok && ex.Index == 0 {
		read, _ = ex.Tuple.(*ssa.Call)
	}
	if read == nil {
		return "the text formatted is not what was read"
	}
	pkg, rn := calleePkg(read.Common())
	switch {
	case (pkg == "io/ioutil" || pkg == "os") && rn == "ReadFile":
		if read.Call.Args[0] != name {
			return "the file written is not the one read"
		}
		return ""
	case (pkg == "io/ioutil" || pkg == "io") && rn == "ReadAll":
	default:
		return "the text formatted is not what was read"
	}
	h := read.Call.Args[0]
	for {
		if mi, ok := h.(*ssa.MakeInterface); ok {
			h = mi.X
			continue
		}
		if ci, ok := h.(*ssa.ChangeInterface); ok {
			h = ci.X
			continue
		}
		break
	}
	opened := false
	var given []*ssa.Parameter
	why := ""
	seen := map[ssa.Value]bool{}
	var trace func(v ssa.Value)
	trace = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				trace(ed)
			}
		case *ssa.Parameter:
			given = append(given, x)
		case *ssa.Extract:
			oc, ok := x.Tuple.(*ssa.Call)
			if p, n := "", ""; ok {
				p, n = calleePkg(oc.Common())
				if p == "os" && (n == "Open" || n == "OpenFile") {
					opened = true
					if oc.Call.Args[0] != name {
						why = "the file written is not the one opened"
					}
					return
				}
			}
			why = "the text formatted is not read from a file"
		default:
			why = "the text formatted is not read from a file"
		}
	}
	trace(h)
	if why != "" {
		return why
	}
	if len(given) == 0 {
		if !opened {
			return "the text formatted is not read from a file"
		}
		return ""
	}
	// a handle given by the caller: then no writing may be asked for
	for _, p := range given {
		idx := paramIndex(f, p)
		for _, oc := range t.sites(f) {
			if !isNilConst(oc.Call.Args[idx]) && !t.off(oc.Parent(), oc, flags) {
				return "what is read from " + c27Name(oc.Call.Args[idx]) + " can be written to a file"
			}
		}
	}
	return ""
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, q := range f.Params {
		if q == p {
			return i
		}
	}
	return -1
}

// sites: the calls of a function of a program.
func (t *tools) sites(f *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, g := range t.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == f {
					out = append(out, call)
				}
			}
		}
	}
	return out
}

func c27Name(v ssa.Value) string {
	if l, ok := isLoad(v); ok {
		if g, ok := l.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Name() + "." + g.Name()
		}
	}
	return "elsewhere"
}

// off: one of the options is off whenever the instruction is reached.
func (t *tools) off(f *ssa.Function, at ssa.Instruction, flags []string) bool {
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(at.Block()) {
			continue
		}
		for edge := 0; edge < 2; edge++ {
			if s := b.Succs[edge]; !(s.Dominates(at.Block()) && len(s.Preds) == 1 || !reachesBlock(b.Succs[1-edge], at.Block(), b)) {
				continue
			}
			if g, on := t.optionTest(iff.Cond, edge == 0); g != nil && !on {
				for _, fl := range flags {
					if fl == g.Name() {
						return true
					}
				}
			}
		}
	}
	return false
}
