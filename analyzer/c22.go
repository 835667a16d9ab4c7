package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C22: ranges of what parsing produces.
//
// A range is real when it was taken from a token, from something parsed, or
// made from such. It is not when it is the zero range, or a variable that some
// way leaves unset. Everything that parsing makes has real ranges.

func init() {
	register("C22", "syntax tree nodes carry real source ranges", runC22)
}

type rangeCheck struct {
	c       *Ctx
	sites   map[*ssa.Function][]*ssa.CallCommon
	in      map[*ssa.CallCommon]ssa.Instruction
	busy    map[string]bool
	results map[string]string
	moves   map[*ssa.Function]bool
	forms   map[string]*rangeForm
}

var rangePkgs = []string{"hcl/hclsyntax", "hcl/json"}

func runC22(c *Ctx) {
	r := &rangeCheck{c: c, in: map[*ssa.CallCommon]ssa.Instruction{}, busy: map[string]bool{}, results: map[string]string{}, moves: map[*ssa.Function]bool{}, forms: map[string]*rangeForm{}}
	r.findSites()
	for _, f := range c.Funcs {
		if !contains(rangePkgs, c.PkgOf(f)) || f.Synthetic != "" {
			continue
		}
		r.made(f)
		r.stored(f)
		r.returned(f)
		r.pointed(f)
		r.ordered(f)
		r.covers(f)
		r.turned(f)
		r.extended(f)
	}
	for _, k := range sortedForms(r.forms) {
		c.Obligation("%s has a range of its fields %d and %d", k, r.forms[k].from, r.forms[k].to)
	}
	c.Floor("ranges given to nodes", 60)
	c.Floor("ranges returned", 20)
	c.Floor("ranges of diagnostics", 100)
	c.Floor("ranges made of two", 40)
}

func (r *rangeCheck) findSites() {
	r.sites = map[*ssa.Function][]*ssa.CallCommon{}
	for _, f := range r.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						r.sites[g] = append(r.sites[g], ci.Common())
						r.in[ci.Common()] = in
					}
				}
			}
		}
	}
}

func isRange(t types.Type) bool { return isNamed(t, hclPath, "Range") }
func isPosition(t types.Type) bool {
	return isNamed(t, hclPath, "Pos")
}

// ranged: the fields of a struct that are ranges.
func ranged(t types.Type) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int
	for i := 0; i < st.NumFields(); i++ {
		if isRange(st.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// located: the fields of a struct that are ranges or positions.
func located(t types.Type) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); isRange(ft) || isPosition(ft) {
			out = append(out, i)
		}
	}
	return out
}

// --- what is known when something is used

type facts22 map[ssa.Value]bool

func factsAt(b *ssa.BasicBlock) facts22 {
	out := facts22{}
	for _, d := range dominatingTests(b) {
		out[d.cond] = d.yes
	}
	return out
}

// closed: the way from one block to the next contradicts what is known.
func (k facts22) closed(from, to *ssa.BasicBlock) bool {
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		cond, yes := iff.Cond, from.Succs[0] == to
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, yes = u.X, !yes
		}
		if want, ok := k[cond]; ok && want != yes {
			return true
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		want, ok := k[phi]
		if !ok {
			continue
		}
		for i, p := range to.Preds {
			if p != from {
				continue
			}
			if kc, ok := phi.Edges[i].(*ssa.Const); ok && kc.Value != nil && kc.Value.Kind() == constant.Bool && constant.BoolVal(kc.Value) != want {
				return true
			}
		}
	}
	return false
}

// --- is it real?

// why: "" when the value is real, or what it can be instead.
func (r *rangeCheck) why(v ssa.Value, k facts22) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return "the zero value"
			}
		}
		return ""
	case *ssa.Phi:
		id := fmt.Sprintf("%p", x)
		if r.busy[id] {
			return ""
		}
		r.busy[id] = true
		defer delete(r.busy, id)
		for i, ed := range x.Edges {
			if k.closed(x.Block().Preds[i], x.Block()) {
				continue
			}
			if w := r.why(ed, k); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Field:
		return r.whyField(x.X, x.Field, k)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return r.whyLoad(x.X, x, k)
		}
	case *ssa.Call:
		return r.whyCall(&x.Call, 0, k)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return r.whyCall(&call.Call, x.Index, k)
		}
	case *ssa.Parameter:
		return r.whyParam(x)
	case *ssa.ChangeType:
		return r.why(x.X, k)
	case *ssa.MakeInterface:
		return r.why(x.X, k)
	}
	return ""
}

// whyField: a field of a struct value; of one that is not real nothing is.
func (r *rangeCheck) whyField(v ssa.Value, field int, k facts22) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			base, path := addrPath(x.X)
			if al, ok := base.(*ssa.Alloc); ok {
				return r.whyPath(al, append(append([]int{}, path...), field), x, k)
			}
		}
	case *ssa.Phi, *ssa.Const, *ssa.Parameter:
		return r.why(v, k)
	case *ssa.Call, *ssa.Extract:
		return r.why(v, k)
	}
	return ""
}

// addrPath: the variable and the fields an address leads through.
func addrPath(v ssa.Value) (ssa.Value, []int) {
	var path []int
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v, path
		}
		path = append([]int{fa.Field}, path...)
		v = fa.X
	}
}

func (r *rangeCheck) whyLoad(addr ssa.Value, at ssa.Instruction, k facts22) string {
	base, path := addrPath(addr)
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return "" // of something made elsewhere, where it is checked
	}
	return r.whyPath(al, path, at, k)
}

// whyPath: a part of a variable.
func (r *rangeCheck) whyPath(al *ssa.Alloc, path []int, at ssa.Instruction, k facts22) string {
	t := derefType(al.Type())
	for _, f := range path {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		t = st.Field(f).Type()
	}
	if isRange(t) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if w := r.reaching(al, append(append([]int{}, path...), i), at, k); w != "" {
				return w
			}
		}
		return ""
	}
	if fs := located(t); len(fs) > 0 {
		for _, i := range fs {
			if w := r.whyPath(al, append(append([]int{}, path...), i), at, k); w != "" {
				return w
			}
		}
		return ""
	}
	return r.reaching(al, path, at, k)
}

// reaching: what was last stored on any way to a use.
func (r *rangeCheck) reaching(al *ssa.Alloc, path []int, at ssa.Instruction, k facts22) string {
	for _, ref := range *al.Referrers() {
		if mc, ok := ref.(*ssa.MakeClosure); ok && closureSets(mc, al) {
			return ""
		}
	}
	id := fmt.Sprintf("%p %v %p", al, path, at)
	if r.busy[id] {
		return ""
	}
	r.busy[id] = true
	defer delete(r.busy, id)
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) string
	back = func(b *ssa.BasicBlock, i int) string {
		for ; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				base, p := addrPath(x.Addr)
				if base != ssa.Value(al) {
					continue
				}
				if isPrefix(path, p) && len(p) > len(path) {
					return "" // a position that is written out
				}
				if !isPrefix(p, path) {
					continue
				}
				return r.whyStored(x.Val, path[len(p):], k)
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if base, p := addrPath(a); base == ssa.Value(al) && (isPrefix(p, path) || isPrefix(path, p)) && !r.reads(x.Common(), a) {
						return ""
					}
				}
			case *ssa.Alloc:
				if x == al {
					return "a variable that is not set on some way"
				}
			}
		}
		for _, p := range b.Preds {
			if k.closed(p, b) || seen[p] {
				continue
			}
			seen[p] = true
			if w := back(p, len(p.Instrs)-1); w != "" {
				return w
			}
		}
		return ""
	}
	i := 0
	for j, in := range at.Block().Instrs {
		if in == at {
			i = j
		}
	}
	return back(at.Block(), i-1)
}

// reads: a call that only reads what an address given to it points to.
func (r *rangeCheck) reads(com *ssa.CallCommon, arg ssa.Value) bool {
	g := com.StaticCallee()
	if g == nil || !r.c.InRepo(g) {
		return false
	}
	for i, a := range com.Args {
		if a == arg && i < len(g.Params) {
			for _, ref := range *g.Params[i].Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				if fa, ok := ref.(*ssa.FieldAddr); ok {
					for _, u := range *fa.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
							return false
						}
					}
					continue
				}
				return false
			}
		}
	}
	return true
}

func closureSets(mc *ssa.MakeClosure, al *ssa.Alloc) bool {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != ssa.Value(al) {
			continue
		}
		for _, ref := range *f.FreeVars[i].Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(f.FreeVars[i]) {
				return true
			}
		}
	}
	return false
}

func isPrefix(p, path []int) bool {
	if len(p) > len(path) {
		return false
	}
	for i := range p {
		if p[i] != path[i] {
			return false
		}
	}
	return true
}

// whyStored: the rest of a path in a value that was stored whole.
func (r *rangeCheck) whyStored(v ssa.Value, rest []int, k facts22) string {
	if len(rest) > 0 {
		if ld, ok := isLoad(v); ok {
			base, path := addrPath(ld.X)
			if al, ok := base.(*ssa.Alloc); ok {
				return r.reaching(al, append(append([]int{}, path...), rest...), ld, k)
			}
			return ""
		}
	}
	return r.why(v, k)
}

func (r *rangeCheck) whyCall(com *ssa.CallCommon, result int, k facts22) string {
	g := com.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !r.c.InRepo(g) {
		return ""
	}
	t := g.Signature.Results().At(result).Type()
	if !isRange(t) && !isPosition(t) && len(ranged(derefType(t))) == 0 {
		return ""
	}
	if _, ptr := t.(*types.Pointer); ptr && !isRange(derefType(t)) {
		return "" // something made elsewhere
	}
	// functions of ranges alone, like joining two
	if r.c.PkgOf(g) == "hcl" {
		for _, a := range com.Args {
			if isRange(a.Type()) || isPosition(a.Type()) {
				if w := r.why(a, k); w != "" {
					return w
				}
			}
		}
		return ""
	}
	id := fmt.Sprintf("%p %d", g, result)
	if w, ok := r.results[id]; ok {
		return w
	}
	r.results[id] = ""
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if w := r.why(ret.Results[result], factsAt(b)); w != "" {
			r.results[id] = w + " (" + r.c.FuncName(g) + ")"
		}
	}
	return r.results[id]
}

func (r *rangeCheck) whyParam(p *ssa.Parameter) string {
	f := p.Parent()
	if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil || r.c.addressTaken(f) {
		return ""
	}
	n := -1
	for i, q := range f.Params {
		if q == p {
			n = i
		}
	}
	id := fmt.Sprintf("%p", p)
	if w, ok := r.results[id]; ok {
		return w
	}
	r.results[id] = ""
	for _, com := range r.sites[f] {
		if n < len(com.Args) {
			if w := r.why(com.Args[n], factsAt(r.in[com].Block())); w != "" {
				r.results[id] = w
			}
		}
	}
	return r.results[id]
}

// --- where ranges go

// made: every range of something that is made is set, and real.
func (r *rangeCheck) made(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			t := derefType(al.Type())
			fs := ranged(t)
			if len(fs) == 0 || !r.whole(al) {
				continue
			}
			for _, use := range *al.Referrers() {
				if !escapes22(use, al) {
					continue
				}
				for _, i := range fs {
					r.c.Count("ranges given to nodes", 1)
					fn := fieldOf(t, i)
					r.c.Obligation("%s makes %s: %s is real", name, shortType(t), fn)
					if w := r.whyPath(al, []int{i}, use, factsAt(use.Block())); w != "" {
						r.c.Report("made", name+" "+shortType(t)+"."+fn, al, fmt.Sprintf("%s makes %s whose %s can be %s", name, shortType(t), fn, w))
					}
				}
				break
			}
		}
	}
}

// whole: something that is written out, not a variable for something that
// comes from elsewhere.
func (r *rangeCheck) whole(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return false
		}
		if ci, ok := ref.(ssa.CallInstruction); ok && !isMethodCall(ci.Common(), al) {
			return ci.Common().StaticCallee() != nil
		}
	}
	return true
}

func isMethodCall(com *ssa.CallCommon, al *ssa.Alloc) bool {
	g := com.StaticCallee()
	return g != nil && g.Signature.Recv() != nil && len(com.Args) > 0 && com.Args[0] == ssa.Value(al)
}

func escapes22(use ssa.Instruction, al *ssa.Alloc) bool {
	switch x := use.(type) {
	case *ssa.FieldAddr, *ssa.DebugRef:
		return false
	case *ssa.Store:
		return x.Val == ssa.Value(al)
	}
	return true
}

// stored: ranges put into elements and fields of other things.
func (r *rangeCheck) stored(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !isRange(st.Val.Type()) {
				continue
			}
			base, _ := addrPath(st.Addr)
			if _, ok := base.(*ssa.Alloc); ok {
				if _, elem := st.Addr.(*ssa.IndexAddr); !elem {
					continue
				}
			}
			r.c.Count("ranges stored", 1)
			if r.placeholder(st) {
				continue
			}
			if w := r.why(st.Val, factsAt(b)); w != "" {
				r.c.Report("stored", name, st, name+" keeps a range that can be "+w)
			}
		}
	}
}

// placeholder: an element appended to be set before the sequence is used.
func (r *rangeCheck) placeholder(st *ssa.Store) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *al.Referrers() {
		sl, ok := ref.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *sl.Referrers() {
			call, ok := u.(*ssa.Call)
			if !ok || len(call.Call.Args) != 2 || call.Call.Args[1] != ssa.Value(sl) || call.Referrers() == nil {
				continue
			}
			var sets []ssa.Instruction
			for _, v := range *call.Referrers() {
				if ix, ok := v.(*ssa.IndexAddr); ok {
					for _, w := range *ix.Referrers() {
						if s2, ok := w.(*ssa.Store); ok && s2.Addr == ssa.Value(ix) {
							sets = append(sets, s2)
						}
					}
				}
			}
			if len(sets) == 0 {
				return false
			}
			for _, v := range *call.Referrers() {
				switch x := v.(type) {
				case *ssa.IndexAddr:
					continue
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						continue
					}
				}
				set := false
				for _, s2 := range sets {
					set = set || instrBefore(s2, v)
				}
				if !set {
					return false
				}
			}
			return true
		}
	}
	return false
}

// returned: ranges that methods and functions for others give.
func (r *rangeCheck) returned(f *ssa.Function) {
	if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || !hasRangeMethod(f.Signature.Recv().Type()) {
		return
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if !isRange(f.Signature.Results().At(i).Type()) {
			continue
		}
		name := r.c.FuncName(f)
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			r.c.Count("ranges returned", 1)
			if w := r.why(ret.Results[i], factsAt(b)); w != "" {
				r.c.Report("returned", name, At(ret.Pos()), name+" can return "+w+" as a range")
			}
		}
	}
}

// hasRangeMethod: a node, which is a struct with a range; collections of nodes
// that may be empty are documented to have none.
func hasRangeMethod(t types.Type) bool {
	if _, ok := derefType(t).Underlying().(*types.Struct); !ok {
		return false
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, "Range")
	_, ok := obj.(*types.Func)
	return ok
}

// pointed: the subjects and contexts of diagnostics.
func (r *rangeCheck) pointed(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isNamed(derefType(fa.X.Type()), hclPath, "Diagnostic") || !isRange(derefType(st.Val.Type())) {
				continue
			}
			r.c.Count("ranges of diagnostics", 1)
			if w := r.whyPointed(st.Val, st, factsAt(b)); w != "" {
				r.c.Report("diagnostic", name+" "+fieldOf(fa.X.Type(), fa.Field), st, fmt.Sprintf("%s reports something whose %s can be %s", name, fieldOf(fa.X.Type(), fa.Field), w))
			}
		}
	}
}

// whyPointed: what a pointer to a range points to.
func (r *rangeCheck) whyPointed(v ssa.Value, at ssa.Instruction, k facts22) string {
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g != nil && len(x.Call.Args) == 1 && isRange(x.Call.Args[0].Type()) {
			return r.why(x.Call.Args[0], k)
		}
	case *ssa.FieldAddr, *ssa.Alloc:
		return r.whyLoad(v, at, k)
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if isNilConst(ed) || k.closed(x.Block().Preds[i], x.Block()) {
				continue
			}
			if w := r.whyPointed(ed, x, k); w != "" {
				return w
			}
		}
	}
	return ""
}

// --- order

// origins22: the calls, parameters and so on a range comes from.
func (r *rangeCheck) origins22(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	return r.originsFrom(v, 1, seen)
}

// originsFrom: of a range made of two the first or the second is taken.
func (r *rangeCheck) originsFrom(v ssa.Value, side int, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Field:
		return r.originsFrom(x.X, side, seen)
	case *ssa.Phi:
		var out []ssa.Value
		for _, ed := range x.Edges {
			out = append(out, r.originsFrom(ed, side, seen)...)
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.MUL {
			base, _ := addrPath(x.X)
			if al, ok := base.(*ssa.Alloc); ok {
				var out []ssa.Value
				for _, w := range valuesIn(al) {
					out = append(out, r.originsFrom(w, side, seen)...)
				}
				return out
			}
			return r.originsFrom(base, side, seen)
		}
	case *ssa.Extract:
		return r.originsFrom(x.Tuple, side, seen)
	case *ssa.MakeInterface:
		return r.originsFrom(x.X, side, seen)
	case *ssa.ChangeInterface:
		return r.originsFrom(x.X, side, seen)
	case *ssa.TypeAssert:
		return r.originsFrom(x.X, side, seen)
	case *ssa.Call:
		// the range of something that was parsed before
		if x.Call.IsInvoke() {
			return r.originsFrom(x.Call.Value, side, seen)
		}
		if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(x.Call.Args) == 1 && isRange(x.Type()) && len(ranged(derefType(x.Call.Args[0].Type()))) > 0 {
			return r.originsFrom(x.Call.Args[0], side, seen)
		}
		if r.isJoin(&x.Call) {
			return r.originsFrom(x.Call.Args[side], side, seen)
		}
		return []ssa.Value{x}
	}
	return []ssa.Value{v}
}

func (r *rangeCheck) isJoin(com *ssa.CallCommon) bool {
	g := com.StaticCallee()
	if g == nil || r.c.PkgOf(g) != "hcl" || g.Signature.Recv() != nil || len(com.Args) != 2 {
		return false
	}
	return isRange(com.Args[0].Type()) && isRange(com.Args[1].Type()) && g.Signature.Results().Len() == 1 && isRange(g.Signature.Results().At(0).Type())
}

// reader: a call that takes its result from the tokens that follow.
func (r *rangeCheck) reader(v ssa.Value) (*ssa.Call, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	g := call.Call.StaticCallee()
	if g == nil || !contains(rangePkgs, r.c.PkgOf(g)) || g.Signature.Recv() == nil {
		return nil, false
	}
	return call, true
}

// before: all of one come before all of the other.
func (r *rangeCheck) before(as, bs []ssa.Value) bool {
	if len(as) == 0 || len(bs) == 0 {
		return false
	}
	for _, a := range as {
		for _, b := range bs {
			if a == b {
				return false
			}
			cb, ok := r.reader(b)
			if !ok {
				return false
			}
			if _, ok := a.(*ssa.Parameter); ok {
				if !r.advances(cb.Call.StaticCallee()) && r.between(nil, cb) == 0 {
					return false
				}
				continue
			}
			ca, ok := r.reader(a)
			if !ok || !instrBefore(ca, cb) || loopsBack(ca, cb) {
				return false
			}
			// what is only looked at can be the same token
			need := 0
			if !r.advances(ca.Call.StaticCallee()) {
				need++
			}
			if !r.advances(cb.Call.StaticCallee()) {
				need++
			}
			if need > 0 && r.between(ca, cb) < need {
				return false
			}
		}
	}
	return true
}

// advances: a function that goes on to further tokens.
func (r *rangeCheck) advances(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if a, ok := r.moves[f]; ok {
		return a
	}
	r.moves[f] = false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && len(f.Params) > 0 && f.Signature.Recv() != nil && fa.X == ssa.Value(f.Params[0]) {
					if bt, ok := x.Val.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						r.moves[f] = true
						return true
					}
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && contains(rangePkgs, r.c.PkgOf(g)) && r.advances(g) {
					r.moves[f] = true
					return true
				}
			}
		}
	}
	return false
}

// between: how many calls that go on are certain between two others.
func (r *rangeCheck) between(a, b *ssa.Call) int {
	n := 0
	for _, bl := range b.Parent().Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call == a || call == b || !instrBefore(call, b) || a != nil && !instrBefore(a, call) {
				continue
			}
			if _, ok := r.reader(call); ok && r.advances(call.Call.StaticCallee()) {
				n++
			}
		}
	}
	return n
}

// loopsBack: the first can be of a later round than the second.
func loopsBack(a, b *ssa.Call) bool {
	la := innermost(a.Parent(), a.Block())
	return la != nil && !la.blocks[b.Block()]
}

// ordered: a range of two goes from the earlier to the later.
func (r *rangeCheck) ordered(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !r.isJoin(&call.Call) {
				continue
			}
			r.c.Count("ranges made of two", 1)
			from := r.origins22(call.Call.Args[0], map[ssa.Value]bool{})
			to := r.origins22(call.Call.Args[1], map[ssa.Value]bool{})
			if r.turnedFields(call.Call.Args[0], call.Call.Args[1]) {
				r.c.Report("order", name, call, name+" makes a range that ends with the start of something or starts with its end")
			}
			if r.before(to, from) {
				r.c.Report("order", name, call, name+" makes a range that ends with something read before its start")
			}
		}
	}
}

// turnedFields: a range ends with what the range of a node starts with, or the
// other way round.
func (r *rangeCheck) turnedFields(a, z ssa.Value) bool {
	if sameRead(a, z) {
		return false
	}
	field := func(v ssa.Value, start bool) bool {
		ld, ok := isLoad(v)
		if !ok {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		nt := namedOf(derefType(fa.X.Type()))
		if nt == nil {
			return false
		}
		from, to, ok := r.rangeOf(nt)
		return ok && from != to && (start && fa.Field == from || !start && fa.Field == to)
	}
	return field(z, true) && r.sameNode(a, z) || field(a, false) && r.sameNode(z, a)
}

// sameNode: a range is one of the node another one is of.
func (r *rangeCheck) sameNode(v, of ssa.Value) bool {
	base := func(v ssa.Value) ssa.Value {
		if ld, ok := isLoad(v); ok {
			b, _ := addrPath(ld.X)
			return b
		}
		return nil
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for _, ed := range phi.Edges {
			if b := base(ed); b == nil || !r.sameNode(ed, of) {
				return false
			}
		}
		return true
	}
	b := base(v)
	if ia, ok := b.(*ssa.IndexAddr); ok {
		b = base(ia.X)
	}
	return b != nil && b == base(of)
}

// --- what a range covers

// rangeOf: the fields a node's range starts and ends with.
func (r *rangeCheck) rangeOf(t *types.Named) (from, to int, ok bool) {
	for _, f := range r.c.Funcs {
		if f.Name() != "Range" || f.Signature.Recv() == nil || !types.Identical(derefType(f.Signature.Recv().Type()), t) || f.Synthetic != "" || f.Signature.Params().Len() != 0 {
			continue
		}
		from, to = -1, -1
		for _, b := range f.Blocks {
			ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isRet || len(ret.Results) != 1 {
				continue
			}
			a, z := ret.Results[0], ret.Results[0]
			if call, isCall := a.(*ssa.Call); isCall && r.isJoin(&call.Call) {
				a, z = call.Call.Args[0], call.Call.Args[1]
			}
			from, to = ownField(a, f.Params[0]), ownField(z, f.Params[0])
		}
		return from, to, from >= 0 && to >= 0
	}
	return -1, -1, false
}

// ownField: the field of a parameter that a value is.
func ownField(v ssa.Value, p *ssa.Parameter) int {
	switch x := v.(type) {
	case *ssa.Field:
		if x.X == ssa.Value(p) {
			return x.Field
		}
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return -1
		}
		if fa.X == ssa.Value(p) {
			return fa.Field
		}
		if al, ok := fa.X.(*ssa.Alloc); ok {
			if vs := valuesIn(al); len(vs) == 1 && vs[0] == ssa.Value(p) {
				return fa.Field
			}
		}
	}
	return -1
}

// covers: the range of a node has its other ranges, its parts and what they
// were read from in it.
func (r *rangeCheck) covers(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			nt := namedOf(derefType(al.Type()))
			if nt == nil || len(ranged(nt)) == 0 {
				continue
			}
			from, to, ok := r.rangeOf(nt)
			if !ok {
				if len(ranged(nt)) != 1 {
					continue
				}
				from = ranged(nt)[0]
				to = from
			}
			vals := fieldValues(al)
			if vals[from] == nil || vals[to] == nil {
				continue
			}
			st := nt.Underlying().(*types.Struct)
			tn := shortType(nt)
			start := r.originsFrom(vals[from], 0, map[ssa.Value]bool{})
			end := r.originsFrom(vals[to], 1, map[ssa.Value]bool{})
			for i := 0; i < st.NumFields(); i++ {
				v := vals[i]
				if v == nil || i == from || i == to {
					continue
				}
				part := isRange(st.Field(i).Type()) || hasRange(st.Field(i).Type())
				var vs, ve []ssa.Value
				if part {
					vs = r.originsFrom(v, 0, map[ssa.Value]bool{})
					ve = r.originsFrom(v, 1, map[ssa.Value]bool{})
				} else if vs, ok = r.readFrom(v, map[ssa.Value]bool{}); ok {
					ve = vs
				} else {
					continue
				}
				r.c.Count("parts in ranges", 1)
				if r.before(vs, start) && (isRange(st.Field(i).Type()) || allReaders(r, vs)) {
					r.c.Report("cover", name+" "+tn+" start", al, fmt.Sprintf("%s makes %s whose range starts after its %s", name, tn, st.Field(i).Name()))
				}
				if r.before(end, ve) {
					r.c.Report("cover", name+" "+tn+" end", al, fmt.Sprintf("%s makes %s whose range ends before its %s", name, tn, st.Field(i).Name()))
				}
			}
			r.elements(name, tn, al, vals, from, to)
			r.form(name, tn, al, vals, from, to)
		}
	}
}

func fieldValues(al *ssa.Alloc) map[int]ssa.Value {
	vals := map[int]ssa.Value{}
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, u := range *fa.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					vals[fa.Field] = st.Val
				}
			}
		}
	}
	return vals
}

// elements: a range made of those of the elements of a list goes from its
// first to its last.
func (r *rangeCheck) elements(name, tn string, al *ssa.Alloc, vals map[int]ssa.Value, from, to int) {
	if from != to {
		return
	}
	first, last := vals[from], vals[from]
	if call, ok := first.(*ssa.Call); ok && r.isJoin(&call.Call) {
		first, last = call.Call.Args[0], call.Call.Args[1]
	}
	for i, v := range vals {
		if i == from {
			continue
		}
		if _, ok := v.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		a, okA := rangeElement(first, v)
		z, okZ := rangeElement(last, v)
		if !okA && !okZ || onlyOne(al.Block(), v) {
			continue
		}
		r.c.Count("ranges of lists", 1)
		if okA {
			if n, ok := constInt(a); ok && n != 0 || !ok && fromEnd(a, v) {
				r.c.Report("cover", name+" "+tn+" first", al, fmt.Sprintf("%s makes %s whose range does not start with its first element", name, tn))
			}
		}
		if okZ {
			if _, ok := constInt(z); ok || fromEnd(z, v) && !lastOf(z) {
				r.c.Report("cover", name+" "+tn+" last", al, fmt.Sprintf("%s makes %s whose range does not end with its last element", name, tn))
			}
		}
	}
}

// rangeElement: the index of the element of a list that a range is of.
func rangeElement(v, list ssa.Value) (ssa.Value, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	x := call.Call.Value
	if !call.Call.IsInvoke() {
		if len(call.Call.Args) != 1 {
			return nil, false
		}
		x = call.Call.Args[0]
	}
	ld, ok := isLoad(x)
	if !ok {
		return nil, false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok || !sameRead(ia.X, list) {
		return nil, false
	}
	return ia.Index, true
}

// onlyOne: the list is known to have one element.
func onlyOne(b *ssa.BasicBlock, list ssa.Value) bool {
	for _, t := range dominatingTests(b) {
		bo, ok := t.cond.(*ssa.BinOp)
		if !ok || !t.yes || bo.Op != token.EQL {
			continue
		}
		if n, ok := constInt(bo.Y); ok && n == 1 && lengthIs(bo.X, list) {
			return true
		}
	}
	return false
}

func lengthIs(v, list ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && sameRead(call.Call.Args[0], list)
}

func fromEnd(v, list ssa.Value) bool {
	bo, ok := v.(*ssa.BinOp)
	return ok && bo.Op == token.SUB && lengthIs(bo.X, list)
}

func lastOf(v ssa.Value) bool {
	n, ok := constInt(v.(*ssa.BinOp).Y)
	return ok && n == 1
}

// rangeForm: the fields a range was made of where a node is made.
type rangeForm struct {
	from, to int
	fields   string
	where    string
}

// form: a node that is made in different places has its range of the same
// parts.
func (r *rangeCheck) form(name, tn string, al *ssa.Alloc, vals map[int]ssa.Value, from, to int) {
	if from != to {
		return
	}
	a, z := vals[from], vals[from]
	if call, ok := a.(*ssa.Call); ok && r.isJoin(&call.Call) {
		a, z = call.Call.Args[0], call.Call.Args[1]
	}
	got := rangeForm{from: -1, to: -1, where: name}
	for i := 0; i < len(vals)+8; i++ {
		v := vals[i]
		if v == nil || i == from || isNilConst(v) || isRange(v.Type()) {
			continue
		}
		got.fields += fmt.Sprint(i, " ")
		if ofField(a, v) {
			got.from = i
		}
		if ofField(z, v) {
			got.to = i
		}
	}
	if got.from < 0 || got.to < 0 {
		return
	}
	r.c.Count("ranges made of parts", 1)
	key := tn + " " + got.fields
	had := r.forms[key]
	if had == nil {
		r.forms[key] = &got
		return
	}
	if had.from != got.from || had.to != got.to {
		r.c.Report("form", tn, al, fmt.Sprintf("%s and %s make %s with ranges of different parts", had.where, name, tn))
	}
}

// ofField: a range is a value or the range of a value.
func ofField(rng, v ssa.Value) bool {
	if sameRead(rng, v) {
		return true
	}
	call, ok := rng.(*ssa.Call)
	if !ok || !isRange(call.Type()) {
		return false
	}
	if call.Call.IsInvoke() {
		return call.Call.Value == v
	}
	return len(call.Call.Args) == 1 && call.Call.Args[0] == v
}

func sameRead(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok := isLoad(a)
	if !ok {
		return false
	}
	lb, ok := isLoad(b)
	if !ok {
		return false
	}
	if la.X == lb.X {
		return true
	}
	fa, ok := la.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fb, ok := lb.X.(*ssa.FieldAddr)
	return ok && fa.X == fb.X && fa.Field == fb.Field
}

// readFrom: the calls that read the tokens something was made of.
func (r *rangeCheck) readFrom(v ssa.Value, seen map[ssa.Value]bool) ([]ssa.Value, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	var from []ssa.Value
	switch x := v.(type) {
	case *ssa.Call:
		if _, ok := r.reader(x); ok {
			if !r.advances(x.Call.StaticCallee()) && !holdsToken(x.Type()) {
				break
			}
			return []ssa.Value{x}, true
		}
		if g := x.Call.StaticCallee(); g == nil || r.c.InRepo(g) {
			return nil, false
		}
		from = x.Call.Args
	case *ssa.Extract:
		from = []ssa.Value{x.Tuple}
	case *ssa.Field:
		from = []ssa.Value{x.X}
	case *ssa.Convert:
		from = []ssa.Value{x.X}
	case *ssa.ChangeType:
		from = []ssa.Value{x.X}
	case *ssa.MakeInterface:
		from = []ssa.Value{x.X}
	case *ssa.TypeAssert:
		from = []ssa.Value{x.X}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		base, _ := addrPath(x.X)
		if al, ok := base.(*ssa.Alloc); ok {
			from = valuesIn(al)
		} else {
			from = []ssa.Value{base}
		}
	case *ssa.Slice:
		from = []ssa.Value{x.X}
	case *ssa.Const, *ssa.Global:
		return nil, true
	}
	if len(from) == 0 {
		return nil, false
	}
	var out []ssa.Value
	for _, w := range from {
		vs, ok := r.readFrom(w, seen)
		if !ok {
			return nil, false
		}
		out = append(out, vs...)
	}
	return out, true
}

func holdsToken(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	return ok && len(ranged(t)) > 0 && st.NumFields() > 1
}

func allReaders(r *rangeCheck, vs []ssa.Value) bool {
	for _, v := range vs {
		if _, ok := r.reader(v); !ok {
			return false
		}
	}
	return true
}

// hasRange: something that has a range itself.
func hasRange(t types.Type) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, "Range")
	_, ok := obj.(*types.Func)
	return ok
}

// turned: a range that is written out does not start with the end of
// something and end with its start.
func (r *rangeCheck) turned(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || !isRange(derefType(al.Type())) {
				continue
			}
			side := map[string]string{}
			for _, ref := range *al.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						side[fieldOf(fa.X.Type(), fa.Field)] = takenFrom(st.Val, al)
					}
				}
			}
			r.c.Count("ranges written out", 1)
			if side["Start"] == "End" && side["End"] == "Start" {
				r.c.Report("turned", name, al, name+" makes a range that starts with an end and ends with a start")
			}
		}
	}
}

// takenFrom: the field of another range a position was taken from.
func takenFrom(v ssa.Value, to *ssa.Alloc) string {
	var t types.Type
	i := 0
	switch x := v.(type) {
	case *ssa.Field:
		t, i = x.X.Type(), x.Field
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fa.X != ssa.Value(to) {
			t, i = derefType(fa.X.Type()), fa.Field
		}
	}
	if t == nil || !isRange(t) {
		return ""
	}
	return fieldOf(t, i)
}

// extended: something that gets further parts gets a wider range.
func (r *rangeCheck) extended(f *ssa.Function) {
	name := r.c.FuncName(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if _, fresh := fa.X.(*ssa.Alloc); fresh {
				continue
			}
			nt := namedOf(derefType(fa.X.Type()))
			call, isCall := st.Val.(*ssa.Call)
			if nt == nil || !isCall || len(ranged(nt)) == 0 || !isAppend(call) {
				continue
			}
			from, to, ok := r.rangeOf(nt)
			if !ok || from != to {
				continue
			}
			r.c.Count("extensions", 1)
			hit := map[*ssa.BasicBlock]map[string]bool{}
			for _, b2 := range f.Blocks {
				for _, in2 := range b2.Instrs {
					if s2, ok := in2.(*ssa.Store); ok {
						if part, ok := s2.Addr.(*ssa.FieldAddr); ok && fieldOf(part.X.Type(), part.Field) == "End" {
							// only its end is set
							if fa2, ok := part.X.(*ssa.FieldAddr); ok && fa2.X == fa.X && fa2.Field == to {
								hit[b2] = map[string]bool{"x": true}
							}
						}
						if fa2, ok := s2.Addr.(*ssa.FieldAddr); ok && fa2.X == fa.X && fa2.Field == to {
							hit[b2] = map[string]bool{"x": true}
							own, other := r.madeOf(s2.Val, fa.X, to, map[ssa.Value]bool{})
							if call, ok := s2.Val.(*ssa.Call); ok && r.isJoin(&call.Call) {
								own, _ = r.madeOf(call.Call.Args[0], fa.X, to, map[ssa.Value]bool{})
								_, other = r.madeOf(call.Call.Args[1], fa.X, to, map[ssa.Value]bool{})
							}
							if !own {
								r.c.Report("extend", name+" start", s2, fmt.Sprintf("%s adds to %s but its range no longer starts where it did", name, shortType(nt)))
							}
							if !other {
								r.c.Report("extend", name+" end", s2, fmt.Sprintf("%s adds to %s but its range still ends where it did", name, shortType(nt)))
							}
						}
					}
				}
			}
			if !hit[b]["x"] && !afterwards(b, hit) {
				r.c.Report("extend", name, st, fmt.Sprintf("%s adds to %s without extending its range", name, shortType(nt)))
			}
		}
	}
}

// madeOf: whether a range is made of a field and of something else.
func (r *rangeCheck) madeOf(v, base ssa.Value, field int, seen map[ssa.Value]bool) (own, other bool) {
	if seen[v] {
		return false, false
	}
	seen[v] = true
	var from []ssa.Value
	switch x := v.(type) {
	case *ssa.Call:
		from = x.Call.Args
		if len(from) == 0 {
			return false, true
		}
	case *ssa.Field:
		from = []ssa.Value{x.X}
	case *ssa.Phi:
		from = x.Edges
	case *ssa.UnOp:
		if x.Op == token.MUL {
			addr := x.X
			for {
				fa, ok := addr.(*ssa.FieldAddr)
				if !ok {
					break
				}
				if fa.X == base {
					return fa.Field == field, fa.Field != field
				}
				addr = fa.X
			}
			if al, ok := addr.(*ssa.Alloc); ok {
				from = valuesIn(al)
				for _, w := range fieldValues(al) {
					from = append(from, w)
				}
			}
		}
	}
	if len(from) == 0 {
		return false, true
	}
	for _, w := range from {
		a, b := r.madeOf(w, base, field, seen)
		own, other = own || a, other || b
	}
	return own, other
}

func isAppend(call *ssa.Call) bool {
	bi, ok := call.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "append"
}

func afterwards(b *ssa.BasicBlock, hit map[*ssa.BasicBlock]map[string]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] || hit[x]["x"] {
			return true
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

func sortedForms(m map[string]*rangeForm) []string {
	in := map[string]bool{}
	for k := range m {
		in[k] = true
	}
	return sortedKeys(in)
}
