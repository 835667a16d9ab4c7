package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Path-sensitive dataflow on SSA: every value of type hcl.Diagnostics, *hcl.Diagnostic or error obtained from a call or created in a repository function is followed along every control-flow path; on each path it must be returned, stored outside the function, handed to another function, tested empty, or replaced by another error after being tested non-empty. Results that are not even named are violations unless the enclosing operation has no way to report them and the call is one of the confirmed best-effort calls.", runC01)
}

func isDiags(t types.Type) bool { return isNamed(t, hclPath, "Diagnostics") }
func isDiagPtr(t types.Type) bool {
	return isPtrTo(t, hclPath, "Diagnostic")
}
func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
func isDiagLike(t types.Type) bool { return isDiags(t) || isDiagPtr(t) || isErr(t) }

func resultDiagIndexes(sig *types.Signature) []int {
	var out []int
	for i := 0; i < sig.Results().Len(); i++ {
		if isDiagLike(sig.Results().At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func runC01(c *Ctx) {
	for _, f := range c.Funcs {
		if isFuzz(c.PkgOf(f)) {
			continue
		}
		c.lostDiagsIn(f)
		c.keptDiagsIn(f)
	}
	c.Floor("diagnostic sources", 400)
}

func givesBody(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isNamed(sig.Results().At(i).Type(), hclPath, "Body") {
			return true
		}
	}
	return false
}

// keptDiagsIn: what holds diagnostics to report later does so in everything it
// returns diagnostics from.
func (c *Ctx) keptDiagsIn(f *ssa.Function) {
	recv := f.Signature.Recv()
	if recv == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
		return
	}
	st, ok := derefType(recv.Type()).Underlying().(*types.Struct)
	if !ok {
		return
	}
	holds := false
	for i := 0; i < st.NumFields(); i++ {
		holds = holds || isDiags(st.Field(i).Type())
	}
	if !holds {
		return
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if !isDiags(f.Signature.Results().At(i).Type()) {
			continue
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			c.Count("returns of kept diagnostics", 1)
			c.Obligation("%s: kept diagnostics are among those returned", c.FuncName(f))
			if !c.hasKept(f, ret.Results[i], map[ssa.Value]bool{}) {
				c.Report("kept", fmt.Sprintf("%s without its diagnostics", c.FuncName(f)), ret, "diagnostics that were kept to be reported are not among those returned here")
			}
		}
	}
}

// hasKept: diagnostics include those kept by the receiver.
func (c *Ctx) hasKept(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	own := derefType(f.Signature.Recv().Type())
	switch x := v.(type) {
	case *ssa.Phi:
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, ed := range x.Edges {
			if !c.hasKept(f, ed, seen) {
				return false
			}
		}
		return true
	case *ssa.Field:
		return types.Identical(x.X.Type(), own)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return types.Identical(derefType(fa.X.Type()), own)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && c.hasKept(f, st.Val, seen) {
					return true
				}
			}
		}
	case *ssa.Slice:
		return c.hasKept(f, x.X, seen)
	case *ssa.ChangeType:
		return c.hasKept(f, x.X, seen)
	case *ssa.MakeSlice:
		for _, r := range *x.Referrers() {
			call, ok := r.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && call.Call.Args[0] == v && c.hasKept(f, call.Call.Args[1], seen) {
				return true
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && types.Identical(derefType(g.Signature.Recv().Type()), own) {
			return true // looked at on its own
		}
		for _, a := range x.Call.Args {
			if c.hasKept(f, a, seen) {
				return true
			}
		}
	case *ssa.Extract:
		return c.hasKept(f, x.Tuple, seen)
	}
	return false
}

// calleeName names what is called, for keys: the static callee, or the
// interface method.
func (p *Prog) calleeName(call *ssa.CallCommon) string {
	if call.IsInvoke() {
		return p.TypeName(call.Value.Type()) + "." + call.Method.Name()
	}
	if f := call.StaticCallee(); f != nil {
		return p.FuncName(f)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "func value"
}

func (c *Ctx) lostDiagsIn(f *ssa.Function) {
	// Diagnostics handed in must be handed on by functions that return some, or
	// a body that can report them.
	if (len(resultDiagIndexes(f.Signature)) > 0 || givesBody(f.Signature)) && len(f.Blocks) > 0 {
		for _, p := range f.Params {
			if isDiagLike(p.Type()) {
				c.Count("diagnostic sources", 1)
				c.Obligation("%s: parameter %s", c.FuncName(f), p.Name())
				c.followDiag(f, p, f.Blocks[0], -1, "parameter "+p.Name())
			}
		}
	}
	// Diagnostics collected by closures in a shared variable must be handed on.
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || !isDiagLike(a.Type().(*types.Pointer).Elem()) || !capturedByClosure(a) {
				continue
			}
			if !writtenInClosure(a) {
				continue
			}
			c.Count("diagnostic sources", 1)
			c.Obligation("%s: shared variable %s", c.FuncName(f), a.Comment)
			c.followDiag(f, a, b, i, "variable "+a.Comment+" shared with closures")
		}
	}
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				com := in.Common()
				if _, ok := com.Value.(*ssa.Builtin); ok {
					continue
				}
				sig := com.Signature()
				idx := resultDiagIndexes(sig)
				if len(idx) == 0 {
					continue
				}
				for _, ri := range idx {
					c.Count("diagnostic sources", 1)
					var src ssa.Value
					if sig.Results().Len() == 1 {
						src = in
						if len(*in.Referrers()) == 0 {
							src = nil
						}
					} else {
						for _, r := range *in.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == ri {
								src = ex
							}
						}
						if src != nil && len(*src.Referrers()) == 0 {
							src = nil
						}
					}
					name := c.calleeName(com)
					if src == nil {
						if why := c.c01Allowed(f, com, ri); why != "" {
							c.Exception(why)
							continue
						}
						c.Report("dropped", fmt.Sprintf("%s drops result of %s", c.FuncName(f), name), in, "the diagnostics or error returned here are never looked at")
						continue
					}
					c.Obligation("%s: result %d of %s at %s", c.FuncName(f), ri, name, c.PosString(in.Pos()))
					c.followDiag(f, src, b, i, name)
				}
			case *ssa.Alloc:
				if isDiagPtr(in.Type()) && in.Heap {
					c.Count("diagnostic sources", 1)
					c.Obligation("%s: diagnostic made at %s", c.FuncName(f), c.PosString(in.Pos()))
					c.followDiag(f, in, b, i, "new diagnostic")
				}
			}
		}
	}
}

// liveness: which values are still used at or after the start of a block
// (after its phis).
type liveSets map[*ssa.BasicBlock]map[ssa.Value]bool

func (p *Prog) liveness(f *ssa.Function) liveSets {
	if p.live == nil {
		p.live = map[*ssa.Function]liveSets{}
	}
	if l, ok := p.live[f]; ok {
		return l
	}
	l := liveSets{}
	for _, b := range f.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	// A value stays live as long as a value derived from its address does:
	// uses of FieldAddr/IndexAddr/Slice count as uses of the allocation.
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[phi] = true
					if l[s][phi] {
						cur[phi.Edges[pi]] = true
					}
				}
				for v := range l[s] {
					if !phis[v] {
						cur[v] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
						if r := rootAlloc(*op); r != nil {
							cur[r] = true
						}
					}
				}
			}
			for v := range cur {
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[f] = l
	return l
}

func (l liveSets) prune(b *ssa.BasicBlock, st *diagState) {
	for v := range st.carriers {
		if !l[b][v] {
			delete(st.carriers, v)
		}
	}
	for v := range st.repl {
		if !l[b][v] {
			delete(st.repl, v)
		}
	}
}

type diagState struct {
	carriers map[ssa.Value]bool
	repl     map[ssa.Value]bool // values that contain an error made after the source was found bad
	bad      bool               // the source was tested and found non-empty on this path
	accum    bool               // the source was added to other diagnostics
}

func (s diagState) clone() diagState {
	n := diagState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, s.bad, s.accum}
	for k := range s.carriers {
		n.carriers[k] = true
	}
	for k := range s.repl {
		n.repl[k] = true
	}
	return n
}

func (s diagState) key(b *ssa.BasicBlock) string {
	var ks []string
	for k := range s.carriers {
		ks = append(ks, k.Name())
	}
	sort.Strings(ks)
	var rs []string
	for k := range s.repl {
		rs = append(rs, k.Name())
	}
	sort.Strings(rs)
	return fmt.Sprintf("%d|%s|%s|%v%v", b.Index, strings.Join(ks, ","), strings.Join(rs, ","), s.bad, s.accum)
}

// followDiag explores the paths from the definition of src.
func (c *Ctx) followDiag(f *ssa.Function, src ssa.Value, b *ssa.BasicBlock, idx int, what string) {
	st := diagState{map[ssa.Value]bool{src: true}, map[ssa.Value]bool{}, false, false}
	// An Extract comes later than its call; start right after src itself.
	if ex, ok := src.(*ssa.Extract); ok {
		b = ex.Block()
		for i, in := range b.Instrs {
			if in == ssa.Instruction(ex) {
				idx = i
			}
		}
	}
	live := c.liveness(f)
	visited := map[string]bool{}
	steps := 0
	var lost []token.Pos
	var walk func(blk *ssa.BasicBlock, start int, st diagState)
	walk = func(blk *ssa.BasicBlock, start int, st diagState) {
		for i := start; i < len(blk.Instrs); i++ {
			in := blk.Instrs[i]
			done := c.diagStep(f, src, in, &st)
			if done {
				return
			}
			switch in := in.(type) {
			case *ssa.Return:
				lost = append(lost, in.Pos())
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				for k, succ := range blk.Succs {
					if infeasible(blk, k) {
						continue
					}
					empty, nonempty := diagCond(in.Cond, k == 0, &st)
					if empty {
						continue
					}
					n := st.clone()
					if nonempty {
						n.bad = true
					}
					c.enterBlock(blk, succ, &n, src)
					live.prune(succ, &n)
					key := n.key(succ)
					if visited[key] {
						continue
					}
					visited[key] = true
					if steps++; steps > 20000 {
						return
					}
					walk(succ, countPhis(succ), n)
				}
				return
			case *ssa.Jump:
				succ := blk.Succs[0]
				n := st.clone()
				c.enterBlock(blk, succ, &n, src)
				live.prune(succ, &n)
				key := n.key(succ)
				if visited[key] {
					return
				}
				visited[key] = true
				if steps++; steps > 20000 {
					return
				}
				walk(succ, countPhis(succ), n)
				return
			}
		}
	}
	walk(b, idx+1, st)
	if steps > 20000 {
		c.Report("undecided", fmt.Sprintf("%s: %s", c.FuncName(f), what), src, "too many paths")
		return
	}
	if len(lost) > 0 {
		if why := c.c01AllowedLost(f, src); why != "" {
			c.Exception(why)
			return
		}
		var at []string
		for _, p := range lost {
			at = append(at, c.PosString(p))
		}
		var at0 Poser = src
		if ex, ok := src.(*ssa.Extract); ok {
			at0 = ex.Tuple
		}
		c.Report("lost", fmt.Sprintf("%s loses %s", c.FuncName(f), what), at0, "not propagated on the path that returns at "+strings.Join(uniq(at), ", "))
	}
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

// infeasible: branches on a constant condition.
func infeasible(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if cst, ok := iff.Cond.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.Bool {
		return constant.BoolVal(cst.Value) != (k == 0)
	}
	return false
}

func countPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}

func (c *Ctx) enterBlock(from, to *ssa.BasicBlock, st *diagState, src ssa.Value) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type upd struct {
		v      ssa.Value
		ca, re bool
	}
	var ups []upd
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := phi.Edges[pi]
		ups = append(ups, upd{phi, st.carriers[e], st.repl[e]})
	}
	for _, u := range ups {
		set(st.carriers, u.v, u.ca)
		set(st.repl, u.v, u.re)
	}
}

func set(m map[ssa.Value]bool, v ssa.Value, on bool) {
	if on {
		m[v] = true
	} else {
		delete(m, v)
	}
}

// localCell tells whether an address is (part of) an allocation that only this
// function sees directly: its contents are tracked like a variable.
func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// capturedByClosure: the allocation is bound into a closure.
func capturedByClosure(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// writtenInClosure: a closure that captures the variable stores to it.
func writtenInClosure(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		fn := mc.Fn.(*ssa.Function)
		for i, bnd := range mc.Bindings {
			if bnd != ssa.Value(a) || i >= len(fn.FreeVars) {
				continue
			}
			for _, u := range *fn.FreeVars[i].Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == fn.FreeVars[i] {
					return true
				}
			}
		}
	}
	return false
}

func isErrorLiteral(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && isDiagPtr(a.Type())
}

// diagStep processes one instruction; true means the obligation is met on
// this path.
func (c *Ctx) diagStep(f *ssa.Function, src ssa.Value, in ssa.Instruction, st *diagState) bool {
	val, isVal := in.(ssa.Value)
	if isVal && val == src {
		// the source is evaluated again (next round of a loop): the old
		// value is gone from this register, unless it is handed on
		had := false
		if call, ok := in.(*ssa.Call); ok {
			for _, a := range call.Common().Args {
				if a != src && st.carriers[a] || a == src && st.carriers[src] {
					had = true
				}
			}
		}
		set(st.carriers, src, had)
		return false
	}
	carrier := func(v ssa.Value) bool { return v != nil && st.carriers[v] }
	repl := func(v ssa.Value) bool { return v != nil && (st.repl[v] || st.bad && isErrorLiteral(v)) }
	switch in := in.(type) {
	case *ssa.Return:
		for _, r := range in.Results {
			if carrier(r) || repl(r) {
				return true
			}
			// an error made on the spot
			if st.bad {
				if call, ok := r.(*ssa.Call); ok && isDiagLike(call.Type()) {
					return true
				}
				if mi, ok := r.(*ssa.MakeInterface); ok && isErr(mi.Type()) {
					return true
				}
			}
			// a plain error result has room for one error only
			if isErr(r.Type()) {
				if call, ok := r.(*ssa.Call); ok && len(resultDiagIndexes(call.Common().Signature())) > 0 && !c.InRepoCall(call.Common()) {
					return true
				}
			}
		}
		// an operation that has no way to report problems may answer "no"
		// after it has looked at them
		if _, given := src.(*ssa.Parameter); given {
			return false
		}
		if st.bad && !st.accum && len(resultDiagIndexes(f.Signature)) == 0 && !givesBody(f.Signature) {
			return true
		}
		return false
	case *ssa.Store:
		if carrier(in.Addr) && carrier(in.Val) {
			// storing into what already carries
		}
		root := rootAlloc(in.Addr)
		if carrier(in.Val) {
			if root == nil || capturedByClosure(root) {
				return true
			}
			// results that are read by deferred functions count as returned
			st.carriers[root] = true
		} else if root != nil && ssa.Value(root) == in.Addr && root != src {
			delete(st.carriers, root)
		}
		if repl(in.Val) {
			if root == nil {
				return true
			}
			st.repl[root] = true
		}
		return false
	case *ssa.MapUpdate:
		return carrier(in.Value) || repl(in.Value)
	case *ssa.Send:
		return carrier(in.X)
	case *ssa.MakeClosure:
		for _, bnd := range in.Bindings {
			if bnd != src && carrier(bnd) {
				return true
			}
		}
		return false
	case *ssa.Defer, *ssa.Go:
		for _, a := range in.(ssa.CallInstruction).Common().Args {
			if carrier(a) {
				return true
			}
		}
		return false
	case *ssa.Call:
		com := in.Common()
		if isExit(com) {
			return true
		}
		any, anyRepl := false, false
		for _, a := range com.Args {
			if carrier(a) {
				any = true
			}
			if repl(a) {
				anyRepl = true
			}
		}
		if com.IsInvoke() && carrier(com.Value) {
			any = true
		}
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				set(st.carriers, in, any)
				set(st.repl, in, anyRepl)
				if any {
					st.accum = true
				}
				return false
			case "len", "cap":
				if any && indexed(com.Args[0]) {
					return true // the elements are looked at one by one
				}
				return false
			case "copy":
				return any
			}
			return false
		}
		if !any {
			set(st.carriers, in, false)
			set(st.repl, in, anyRepl && len(resultDiagIndexes(com.Signature())) > 0)
			return false
		}
		if isEmptinessTest(com) {
			return false
		}
		if showsToUser(com) {
			return true
		}
		if len(resultDiagIndexes(com.Signature())) > 0 {
			st.carriers[in] = true
			return false
		}
		return true
	case *ssa.Extract:
		set(st.carriers, in, carrier(in.Tuple) && isDiagLike(in.Type()))
		set(st.repl, in, repl(in.Tuple) && isDiagLike(in.Type()))
		return false
	case *ssa.UnOp:
		if in.Op == token.MUL {
			root := rootAlloc(in.X)
			set(st.carriers, in, carrier(in.X) || root != nil && carrier(root))
			set(st.repl, in, st.repl[in.X] || root != nil && st.repl[root])
		}
		return false
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index:
		ops := in.Operands(nil)
		set(st.carriers, val, carrier(*ops[0]))
		return false
	case *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert:
		ops := in.Operands(nil)
		set(st.carriers, val, carrier(*ops[0]))
		set(st.repl, val, repl(*ops[0]))
		return false
	case *ssa.Range:
		return carrier(in.X)
	}
	if isVal {
		delete(st.carriers, val)
		delete(st.repl, val)
	}
	return false
}

func indexed(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r.(type) {
		case *ssa.IndexAddr, *ssa.Index, *ssa.Range:
			return true
		}
	}
	return false
}

func isExit(com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == "os" && f.Name() == "Exit" || p == "log" && strings.HasPrefix(f.Name(), "Fatal")
}

// isEmptinessTest: HasErrors and the like only ask whether there is anything.
func isEmptinessTest(com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	if f == nil {
		return false
	}
	sig := f.Signature
	if sig.Recv() != nil && isDiags(sig.Recv().Type()) && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	// a helper of the repository that takes diagnostics and returns a bool
	if sig.Results().Len() == 1 {
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			for i := 0; i < sig.Params().Len(); i++ {
				if isDiagLike(sig.Params().At(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// diagCond interprets a branch condition: on the given edge, is a carrier
// known to be empty (of errors), or known to be non-empty?
func diagCond(cond ssa.Value, taken bool, st *diagState) (empty, nonempty bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return diagCond(x.X, !taken, st)
		}
	case *ssa.Call:
		if isEmptinessTest(x.Common()) {
			for _, a := range x.Common().Args {
				if st.carriers[a] {
					return !taken, taken
				}
			}
		}
	case *ssa.BinOp:
		a, b := x.X, x.Y
		if isNilConst(a) {
			a, b = b, a
		}
		if st.carriers[a] && isNilConst(b) {
			switch x.Op {
			case token.EQL:
				return taken, !taken
			case token.NEQ:
				return !taken, taken
			}
		}
		// len(d) compared with a constant
		if call, ok := x.X.(*ssa.Call); ok {
			if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && st.carriers[call.Common().Args[0]] {
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil {
					n, _ := constant.Int64Val(constant.ToInt(k.Value))
					switch {
					case x.Op == token.EQL && n == 0, x.Op == token.LSS && n == 1, x.Op == token.LEQ && n == 0:
						return taken, !taken
					case x.Op == token.NEQ && n == 0, x.Op == token.GTR && n == 0, x.Op == token.GEQ && n == 1:
						return !taken, taken
					}
				}
			}
		}
		// comparison with a sentinel error
		if x.Op == token.EQL && (st.carriers[x.X] || st.carriers[x.Y]) {
			return taken, false
		}
	}
	return false, false
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// InRepoCall tells whether a call may reach a function of the repository.
func (p *Prog) InRepoCall(com *ssa.CallCommon) bool {
	for _, f := range p.Callees(com) {
		if p.InRepo(f) {
			return true
		}
	}
	return false
}

func isFuzz(pkg string) bool { return strings.Contains(pkg+"/", "/fuzz/") }

func calleePkg(com *ssa.CallCommon) (pkg, name string) {
	if com.IsInvoke() {
		if com.Method.Pkg() != nil {
			return com.Method.Pkg().Path(), com.Method.Name()
		}
		return "", com.Method.Name()
	}
	f := com.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return "", ""
	}
	return f.Object().Pkg().Path(), f.Name()
}

// showsToUser: the argument is rendered for a human reader.
func showsToUser(com *ssa.CallCommon) bool {
	pkg, name := calleePkg(com)
	if pkg == "fmt" && (strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Print")) {
		return true
	}
	if com.IsInvoke() && isNamed(com.Value.Type(), hclPath, "DiagnosticWriter") {
		return true
	}
	return false
}

// writesToMemory: an io.Writer argument is an in-memory buffer, which cannot fail.
func writesToMemory(com *ssa.CallCommon) bool {
	isBuf := func(t types.Type) bool {
		return isPtrTo(t, "bytes", "Buffer") || isPtrTo(t, "strings", "Builder")
	}
	for _, a := range com.Args {
		if isBuf(a.Type()) {
			return true
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && isBuf(mi.X.Type()) {
			return true
		}
	}
	return false
}

// Within reports whether f is one of the named functions or is only called
// (directly or through such helpers) from them.
func (p *Prog) Within(f *ssa.Function, names ...string) bool {
	return p.within(f, names, map[*ssa.Function]bool{})
}

func (p *Prog) within(f *ssa.Function, names []string, seen map[*ssa.Function]bool) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	n := p.FuncName(f)
	for _, w := range names {
		if n == w {
			return true
		}
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	callers := p.Callers(f)
	if len(callers) == 0 {
		return false
	}
	for _, g := range callers {
		if !p.within(g, names, seen) {
			return false
		}
	}
	return true
}

// Callers lists the repository functions that may call f.
func (p *Prog) Callers(f *ssa.Function) []*ssa.Function {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]*ssa.Function{}
		for _, g := range p.AllFuncs() {
			seen := map[*ssa.Function]bool{}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, t := range p.Callees(ci.Common()) {
							if !seen[t] {
								seen[t] = true
								p.callers[t] = append(p.callers[t], g)
							}
						}
					}
				}
			}
		}
	}
	return p.callers[f]
}

// recvNamed gives the name of the receiver's type of a method or of the
// method a closure is in.
func recvNamed(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() == nil {
		return ""
	}
	t := f.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// c01Allowed is the table of confirmed exceptions for results that are
// discarded.
func (c *Ctx) c01Allowed(f *ssa.Function, com *ssa.CallCommon, ri int) string {
	pkg, name := calleePkg(com)
	switch {
	case strings.HasSuffix(pkg, "go-textseg/textseg"):
		return "textseg functions cannot fail on in-memory input with the split functions used"
	case writesToMemory(com):
		return "writing to an in-memory buffer cannot fail"
	case showsToUser(com):
		return "output for a human reader is best effort"
	case pkg == "os" && name == "WriteString", pkg == "io" && name == "Write" && isDiagWriter(f):
		return "output for a human reader is best effort"
	case len(resultDiagIndexes(f.Signature)) == 0 && !givesBody(f.Signature) && !isErr(com.Signature().Results().At(ri).Type()):
		return "the enclosing operation answers a question and has no diagnostics to return"
	case pkg == synPath && name == "Value" && recvOf(com, "LiteralValueExpr"):
		return "a literal value never produces diagnostics"
	case pkg == synPath && name == "Value" && recvOf(com, "TemplateExpr") && len(com.Args) == 2 && isNilConst(com.Args[1]):
		return "a template that is a plain string literal never produces diagnostics"
	}
	if callee := com.StaticCallee(); callee != nil && recvNamed(f) == "SplatExpr" && recvNamed(callee) == "SplatExpr" && c.PkgOf(f) == "hcl/hclsyntax" {
		return "the splat result type is computed after the same errors were found in the elements"
	}
	if strings.HasPrefix(c.PkgOf(f), "cmd/") {
		if pkg != "" && c.isRepoPath(pkg) && len(com.Args) == 1 && isNamed(unwrapIface(com.Args[0]).Type(), hclPath, "DiagnosticWriter") {
			return "output for a human reader is best effort"
		}
	}
	return ""
}

func unwrapIface(v ssa.Value) ssa.Value {
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		return ci.X
	}
	return v
}

func recvOf(com *ssa.CallCommon, name string) bool {
	f := com.StaticCallee()
	return f != nil && recvNamed(f) == name
}

func isDiagWriter(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	ms := types.NewMethodSet(r.Type())
	return ms.Lookup(nil, "WriteDiagnostics") != nil
}

// c01AllowedLost is the table of confirmed exceptions for values that are
// looked at but not passed on.
func (c *Ctx) c01AllowedLost(f *ssa.Function, src ssa.Value) string {
	call, ok := src.(*ssa.Call)
	if ex, isEx := src.(*ssa.Extract); isEx {
		call, ok = ex.Tuple.(*ssa.Call)
	}
	if !ok {
		return ""
	}
	com := call.Common()
	pkg, name := calleePkg(com)
	switch {
	case pkg == "os" && name == "Stat", pkg == "path/filepath" && name == "Rel", strings.HasSuffix(pkg, "ssh/terminal"):
		return "existence probes and lookups with a fallback"
	case c.PkgOf(f) == "cmd/hclspecsuite" && pkg == "io/ioutil" && name == "ReadFile":
		return "the test-suite runner reads sources only to show snippets"
	case isDiagWriter(f) && name == "TraverseAbs":
		return "showing the values of related variables is best effort"
	case c.Within(f, "cmd/hcldec.showVarRefsJSON") && (name == "TraverseAbs" || name == "Marshal"):
		return "the current value of a referenced variable is shown if available"
	case pkg == ctyPath+"/convert" && c.Within(f, "(*hcl/hclsyntax.ForExpr).Value"):
		return "once one key is unknown or invalid the result is unknown and further key errors wait for known keys"
	}
	if name == "Value" && com.IsInvoke() {
		if fld := loadedField(com.Value); fld == "ConditionalExpr.TrueResult" || fld == "ConditionalExpr.FalseResult" {
			return "only the selected arm of a conditional contributes its diagnostics"
		}
	}
	return ""
}

// loadedField names the struct field a value was loaded from ("T.F").
func loadedField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	return fieldName(fa)
}

func fieldName(fa *ssa.FieldAddr) string {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n := ""
	if nt, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return n + "." + st.Field(fa.Field).Name()
}
