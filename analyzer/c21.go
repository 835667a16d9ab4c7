package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "nothing whose order can be observed may be collected, written, called back or chosen in the order of a map iteration: sequences collected in map order must be sorted before they are used, followed through functions, fields and further loops", runC21)
}

// Map iteration order.
//
// A region is code that is repeated in an arbitrary order: the body of a loop
// over a map, or over a sequence that was itself collected in such a loop.
// Inside a region, appending to a sequence that outlives it taints that
// sequence; a tainted sequence must be sorted, or only be counted, looped over
// (which makes another region) or put into something that has no order.

type ordering struct {
	c *Ctx
	e *effects
	// functions whose result is in arbitrary order, parameters that get such
	// a sequence, fields that hold one
	result map[*ssa.Function]map[int]bool
	param  map[*ssa.Parameter]bool
	field  map[fieldID]bool
	work   []*ssa.Function
	queued map[*ssa.Function]bool
	found  map[string]func()
	once   map[string]bool
}

func runC21(c *Ctx) {
	o := &ordering{c: c, e: c.effectsOf(), result: map[*ssa.Function]map[int]bool{}, param: map[*ssa.Parameter]bool{}, field: map[fieldID]bool{}, queued: map[*ssa.Function]bool{}, once: map[string]bool{}}
	for _, f := range c.Funcs {
		if !c.generated(f) {
			o.push(f)
		}
	}
	for len(o.work) > 0 {
		f := o.work[0]
		o.work = o.work[1:]
		o.queued[f] = false
		o.function(f)
	}
	c.Floor("map loops", 40)
}

func (o *ordering) push(f *ssa.Function) {
	if !o.queued[f] {
		o.queued[f] = true
		o.work = append(o.work, f)
	}
}

func (o *ordering) report(rule, key string, in ssa.Instruction, format string, args ...interface{}) {
	k := rule + key
	if o.once[k] {
		return
	}
	o.once[k] = true
	o.c.Report(rule, key, in, fmt.Sprintf(format, args...))
}

func (o *ordering) function(f *ssa.Function) {
	seen := map[ssa.Value]bool{}
	looped := map[*ssa.BasicBlock]bool{}
	for _, l := range loopsOf(f) {
		for b := range l.blocks {
			looped[b] = true
		}
		for _, in := range l.header.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			key := fmt.Sprint("loop ", nx.Pos(), f, l.header.Index)
			if !o.once[key] {
				o.once[key] = true
				o.c.Count("map loops", 1)
				o.c.Obligation("%s %s loop over a map", o.c.PosString(loopPos(l)), o.c.FuncName(f))
			}
			if !l.single(nx) {
				o.region(f, l, nx, seen)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			// taking one element
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString && !looped[b] && !(&loop{header: b}).single(nx) {
				if f.Name() == "Range" && f.Signature.Recv() != nil {
					o.c.Exception(o.c.FuncName(f) + ": documented to give the range of an arbitrary attribute")
					continue
				}
				if onlyContainer(nx) {
					continue
				}
				o.report("first", o.c.FuncName(f), nx, "which element this gives depends on the iteration order of a map")
			}
		}
	}
	for _, p := range f.Params {
		if o.param[p] {
			o.tainted(f, p, nil, seen, "the sequence it is given")
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				for _, g := range o.c.Callees(&x.Call) {
					for i := range o.result[g] {
						if v := resultValue(x, i); v != nil {
							o.tainted(f, v, nil, seen, "what "+o.c.FuncName(g)+" gives")
						}
					}
				}
				// keys of a map found by reflection
				if g := x.Call.StaticCallee(); g != nil && g.String() == "(reflect.Value).MapKeys" {
					o.tainted(f, x, nil, seen, "the keys of a map")
				}
			case *ssa.UnOp:
				if id, ok := namedField(x.X); ok && x.Op == token.MUL && o.field[id] {
					o.tainted(f, x, nil, seen, "field "+id.t.Obj().Name())
				}
			}
		}
	}
}

// single: the map has one element.
func (l *loop) single(nx *ssa.Next) bool {
	m := nx.Iter.(*ssa.Range).X
	for b := l.header; b.Idom() != nil; b = b.Idom() {
		p := b.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != b || len(b.Preds) != 1 && b != l.header {
			continue
		}
		x, ok := iff.Cond.(*ssa.BinOp)
		if !ok || x.Op != token.EQL {
			continue
		}
		if n, ok := constInt(x.Y); !ok || n != 1 {
			continue
		}
		call, ok := x.X.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Call.Args[0] == m {
			return true
		}
	}
	return false
}

// onlyContainer: of the element only the list it belongs to is used, which is
// the same for all.
func onlyContainer(nx *ssa.Next) bool {
	for _, r := range *nx.Referrers() {
		x, ok := r.(*ssa.Extract)
		if !ok || x.Index == 0 {
			continue
		}
		for _, u := range *x.Referrers() {
			fa, ok := u.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			st, ok := derefType(derefType(fa.Type())).Underlying().(*types.Struct)
			if !ok {
				return false
			}
			holds := false
			for i := 0; i < st.NumFields(); i++ {
				holds = holds || types.Identical(st.Field(i).Type(), x.Type())
			}
			if !holds {
				return false
			}
		}
	}
	return true
}

func resultValue(call *ssa.Call, i int) ssa.Value {
	if call.Call.Signature().Results().Len() == 1 {
		return call
	}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			return x
		}
	}
	return nil
}

// unordered types: diagnostics, whose order is left open.
func orderOpen(t types.Type) bool {
	return strings.HasSuffix(t.String(), "hcl.Diagnostics") || strings.HasSuffix(t.String(), "[]*github.com/hashicorp/hcl2/hcl.Diagnostic")
}

// region judges code that is repeated in arbitrary order.
func (o *ordering) region(f *ssa.Function, l *loop, item ssa.Value, seen map[ssa.Value]bool) {
	if seen[item] {
		return
	}
	seen[item] = true
	from := l.derived(item)
	name := o.c.FuncName(f)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				o.regionCall(f, l, x, from, seen)
			case *ssa.Store:
				// the last one wins
				if al, ok := x.Addr.(*ssa.Alloc); ok && !l.has(al) && from[x.Val] && !appended(x.Val) && l.loadedAfter(al) {
					o.lastWins(f, l, x, x.Val)
				}
			}
		}
		// ways out other than the end of the sequence
		for _, s := range b.Succs {
			if l.blocks[s] || b == l.header {
				continue
			}
			o.way(f, l, b, s, from)
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			o.chosen(f, l, r, r.Results, from)
		}
	}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range phi.Edges {
			if !l.blocks[l.header.Preds[i]] || !from[e] || e == ssa.Value(phi) || appended(e) {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok || !l.usedAfter(phi) || commutes(e) {
				continue
			}
			o.lastWins(f, l, phi, e)
		}
	}
	_ = name
}

func appended(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func commutes(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		return x.Call.IsInvoke() || x.Call.StaticCallee() != nil
	}
	return false
}

func (l *loop) loadedAfter(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if _, ok := r.(*ssa.Store); !ok && !l.has(r) {
			return true
		}
	}
	return false
}

func (l *loop) usedAfter(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !l.has(r) {
			return true
		}
	}
	return false
}

func (o *ordering) lastWins(f *ssa.Function, l *loop, in ssa.Instruction, v ssa.Value) {
	switch v.Type().Underlying().(type) {
	case *types.Basic:
		if b := v.Type().Underlying().(*types.Basic); b.Info()&types.IsBoolean != 0 {
			return
		}
	}
	if orderOpen(v.Type()) {
		return
	}
	o.report("last", o.c.FuncName(f), in, "which element this keeps depends on the iteration order of a map")
}

// derived: the values computed from the element of this round.
func (l *loop) derived(item ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{item: true}
	for changed := true; changed; {
		changed = false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || out[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && out[*op] {
						out[v] = true
						changed = true
						break
					}
				}
				// stored in a local of this round
				if al, ok := v.(*ssa.Alloc); ok && !out[v] {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == v && out[st.Val] {
							out[v] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return out
}

// way judges leaving a loop early.
func (o *ordering) way(f *ssa.Function, l *loop, from, to *ssa.BasicBlock, der map[ssa.Value]bool) {
	if l.lookup(from, der) {
		return
	}
	// what is returned or kept at the place the exit leads to
	for _, in := range to.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			for i, p := range to.Preds {
				if p == from {
					o.chosen(f, l, from.Instrs[len(from.Instrs)-1], []ssa.Value{x.Edges[i]}, der)
				}
			}
		case *ssa.Return:
			o.chosen(f, l, x, x.Results, der)
		}
	}
}

func (o *ordering) chosen(f *ssa.Function, l *loop, in ssa.Instruction, vals []ssa.Value, der map[ssa.Value]bool) {
	if l.lookup(in.Block(), der) {
		return
	}
	for _, v := range vals {
		if !der[v] || orderOpen(v.Type()) || types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
			continue
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			continue
		}
		o.report("first", o.c.FuncName(f), in, "which element this gives depends on the iteration order of a map")
	}
}

// lookup: the block is only reached for the one element that equals
// something.
func (l *loop) lookup(b *ssa.BasicBlock, der map[ssa.Value]bool) bool {
	for d := b; d != nil && (l.blocks[d] || d == b); d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.blocks[p] {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if call, ok := iff.Cond.(*ssa.Call); ok && p.Succs[0] == d && len(d.Preds) == 1 && compares(call, der) {
			return true
		}
		x, ok := iff.Cond.(*ssa.BinOp)
		if ok && x.Op == token.EQL && p.Succs[0] == d && len(d.Preds) == 1 && (der[x.X] != der[x.Y]) && !isNilConst(x.X) && !isNilConst(x.Y) {
			return true
		}
	}
	return false
}

// compares: the call tells whether something of the element equals something
// that does not depend on it.
func compares(call *ssa.Call, der map[ssa.Value]bool) bool {
	g := call.Call.StaticCallee()
	in, out := false, false
	for _, a := range call.Call.Args {
		in, out = in || der[a], out || !der[a]
	}
	if g == nil || !in || !out {
		return false
	}
	if g.Name() == "ContainsPos" {
		return true // the elements' ranges do not overlap
	}
	if g.Pkg != nil && (g.String() == "bytes.Equal" || g.String() == "reflect.DeepEqual") {
		return true
	}
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		switch x := r.Results[0].(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL {
				return false
			}
		case *ssa.Call:
			if h := x.Call.StaticCallee(); h == nil || h.String() != "bytes.Equal" {
				return false
			}
		case *ssa.Const:
			if x.Value == nil || x.Value.String() != "false" {
				return false
			}
		default:
			return false
		}
	}
	return len(g.Blocks) > 0
}

// regionCall judges a call inside a region.
func (o *ordering) regionCall(f *ssa.Function, l *loop, in ssa.CallInstruction, from map[ssa.Value]bool, seen map[ssa.Value]bool) {
	cc := in.Common()
	name := o.c.FuncName(f)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			o.appending(f, l, in.Value(), from, seen)
		}
		return
	}
	outside := func(v ssa.Value) bool {
		if i, ok := v.(ssa.Instruction); ok && l.has(i) {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			}
			if i, ok := v.(ssa.Instruction); ok && l.has(i) {
				return false
			}
		}
		return !from[v]
	}
	// a callback of the caller
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		switch v := cc.Value.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			o.report("callback", name, in, "the caller's function is called in the iteration order of a map")
		case *ssa.UnOp:
			if fv, ok := v.X.(*ssa.FreeVar); ok && !ownClosure(f, fv) {
				o.report("callback", name, in, "the caller's function is called in the iteration order of a map")
			}
		}
	}
	// text written out
	if to, ok := writesText(cc); ok && outside(to) {
		o.report("write", name, in, "this is written in the iteration order of a map")
	}
	for _, g := range o.c.Callees(cc) {
		s := o.e.sums[g]
		if s == nil {
			continue
		}
		for _, ef := range s.sortedEffects() {
			if ef.on.k != 'P' {
				continue
			}
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			if ef.on.i >= len(args) || !outside(args[ef.on.i]) || strings.HasPrefix(ef.what, "entry of") || o.mapField(ef) {
				continue
			}
			o.report("effect", name+" "+o.c.FuncName(g), in, "%s changes %s in the iteration order of a map", o.c.FuncName(g), ef.what)
		}
	}
}

// ownClosure: the captured variable holds a function literal of the function
// that declares it, such as a recursive one.
func ownClosure(f *ssa.Function, fv *ssa.FreeVar) bool {
	for i, v := range f.FreeVars {
		if v != fv || f.Parent() == nil {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(f) {
					continue
				}
				al, ok := mc.Bindings[i].(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if _, ok := st.Val.(*ssa.MakeClosure); !ok {
							return false
						}
					}
				}
				return true
			}
		}
	}
	return false
}

// mapField: what is written is a field that holds a map.
func (o *ordering) mapField(ef effect) bool {
	i := strings.LastIndexByte(ef.what, '.')
	j := strings.LastIndexByte(ef.wt, '.')
	if i < 0 || j < 0 {
		return false
	}
	for _, p := range o.c.ByPat {
		if p.PkgPath != ef.wt[:j] {
			continue
		}
		tn := p.Types.Scope().Lookup(ef.wt[j+1:])
		if tn == nil {
			return false
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		for k := 0; ok && k < st.NumFields(); k++ {
			if st.Field(k).Name() == ef.what[i+1:] {
				_, ok := st.Field(k).Type().Underlying().(*types.Map)
				return ok
			}
		}
	}
	return false
}

func writesText(cc *ssa.CallCommon) (ssa.Value, bool) {
	if cc.IsInvoke() {
		if strings.HasPrefix(cc.Method.Name(), "Write") || strings.HasPrefix(cc.Method.Name(), "Print") {
			return cc.Value, true
		}
		return nil, false
	}
	g := cc.StaticCallee()
	if g == nil || len(cc.Args) == 0 || g.Pkg == nil {
		return nil, false
	}
	switch {
	case g.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(g.Name(), "Fprint"):
		return cc.Args[0], true
	case g.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(g.Name(), "Print"):
		return ssa.NewConst(nil, types.Typ[types.UntypedNil]), true
	case g.Signature.Recv() != nil && (strings.HasPrefix(g.Name(), "Write") || strings.HasPrefix(g.Name(), "Encode")) && (g.Pkg.Pkg.Path() == "bytes" || g.Pkg.Pkg.Path() == "strings" || g.Pkg.Pkg.Path() == "bufio" || g.Pkg.Pkg.Path() == "encoding/json" || g.Pkg.Pkg.Path() == "os"):
		return cc.Args[0], true
	}
	return nil, false
}

// appending judges an append inside a region.
func (o *ordering) appending(f *ssa.Function, l *loop, v *ssa.Call, from map[ssa.Value]bool, seen map[ssa.Value]bool) {
	if v == nil || orderOpen(v.Type()) {
		return
	}
	to := v.Call.Args[0]
	// a sequence of this round
	if i, ok := to.(ssa.Instruction); ok && l.has(i) && from[to] {
		if lk, ok := to.(*ssa.Lookup); !ok || from[lk.X] {
			if phi, ok := to.(*ssa.Phi); !ok || phi.Block() != l.header {
				if _, ok := isLoad(to); !ok {
					if _, ok := to.(*ssa.Phi); !ok {
						return
					}
				}
			}
		}
	}
	what := "what is collected from a map"
	outer := false
	var reach func(x ssa.Value, depth int)
	done := map[ssa.Value]bool{}
	reach = func(x ssa.Value, depth int) {
		if done[x] || depth > 8 {
			return
		}
		done[x] = true
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				if r.Block() == l.header {
					outer = true
					o.tainted(f, r, l, seen, what)
				}
				if l.has(r) {
					reach(r, depth+1)
				} else {
					outer = true
					o.tainted(f, r, l, seen, what)
				}
			case *ssa.Store:
				if r.Val == x {
					o.stored(f, l, r, from, seen, what)
				}
			case *ssa.MapUpdate:
				if r.Value == x && !from[r.Map] {
					// an entry for something else than this element
					if lk, ok := to.(*ssa.Lookup); ok && (lk.Index == r.Key) && keyItself(lk.Index, from) {
						continue
					}
					o.entries(f, l, r, seen, what)
				}
			case *ssa.ChangeType:
				reach(r, depth+1)
			}
		}
	}
	reach(v, 0)
	_ = outer
}

// keyItself: the key of the map that is being looped over.
func keyItself(v ssa.Value, from map[ssa.Value]bool) bool {
	x, ok := v.(*ssa.Extract)
	if !ok || x.Index != 1 {
		return false
	}
	_, ok = x.Tuple.(*ssa.Next)
	return ok
}

// entries: sequences in arbitrary order were put into a map; whoever takes
// them out gets them.
func (o *ordering) entries(f *ssa.Function, l *loop, up *ssa.MapUpdate, seen map[ssa.Value]bool, what string) {
	for _, r := range *up.Map.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup:
			if !l.has(r) {
				o.tainted(f, r, nil, seen, what)
			}
		case *ssa.Range:
			for _, n := range *r.Referrers() {
				if nx, ok := n.(*ssa.Next); ok {
					for _, e := range *nx.Referrers() {
						if x, ok := e.(*ssa.Extract); ok && x.Index == 2 {
							o.tainted(f, x, nil, seen, what)
						}
					}
				}
			}
		case *ssa.Return:
			o.report("collect", o.c.FuncName(f), r, "%s is given out in arbitrary order", what)
		}
	}
}

// stored: a tainted sequence goes into memory.
func (o *ordering) stored(f *ssa.Function, l *loop, st *ssa.Store, from map[ssa.Value]bool, seen map[ssa.Value]bool, what string) {
	addr := st.Addr
	if al, ok := addr.(*ssa.Alloc); ok {
		if l != nil && l.has(al) {
			return
		}
		var sorted ssa.Instruction
		for _, r := range *al.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && sorted == nil && (l == nil || !l.has(u)) {
				sorted = o.sorts(u)
			}
		}
		for _, r := range *al.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && (l == nil || !l.has(u)) && (sorted == nil || !before(sorted, u)) {
				o.tainted(f, u, l, seen, what)
			}
		}
		return
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if from != nil && from[fa.X] {
			return // of the element
		}
		// sorted afterwards?
		base := fa.X
		if base.Referrers() != nil {
			for _, r := range *base.Referrers() {
				fb, ok := r.(*ssa.FieldAddr)
				if !ok || fb.Field != fa.Field || (l != nil && l.has(fb)) {
					continue
				}
				for _, u := range *fb.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok && o.sorts(ld) != nil {
						return
					}
				}
			}
		}
	}
	if id, ok := namedField(addr); ok && id.t.Obj().Name() == "BodySchema" && o.c.PkgOf(f) == "ext/dynblock" {
		o.c.Exception("ext/dynblock BodySchema: the names added are those already read, what is found for them is dropped again")
		return
	}
	o.report("collect", o.c.FuncName(f)+" "+describeAddr(addr), st, "%s goes into %s in arbitrary order", what, describeAddr(addr))
}

// sorts finds the call that sorts the sequence.
func (o *ordering) sorts(v ssa.Value) ssa.Instruction {
	done := map[ssa.Value]bool{}
	var find func(x ssa.Value, depth int) ssa.Instruction
	find = func(x ssa.Value, depth int) ssa.Instruction {
		if done[x] || depth > 5 || x.Referrers() == nil {
			return nil
		}
		done[x] = true
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
				if in := find(r.(ssa.Value), depth+1); in != nil {
					return in
				}
			case *ssa.Store:
				// a field of a value that implements sorting
				if fa, ok := r.Addr.(*ssa.FieldAddr); ok && r.Val == x {
					if in := find(fa.X, depth+1); in != nil {
						return in
					}
				}
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == x {
					for _, u := range *al.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							if in := find(ld, depth+1); in != nil {
								return in
							}
						}
					}
				}
			case *ssa.UnOp:
				if in := find(r, depth+1); in != nil {
					return in
				}
			case *ssa.Call:
				g := r.Call.StaticCallee()
				if g == nil {
					continue
				}
				if g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
					return r
				}
				// a function of the repository that sorts its parameter
				for i, a := range r.Call.Args {
					if a == x && i < len(g.Params) && len(g.Blocks) > 0 && o.sorts(g.Params[i]) != nil {
						return r
					}
				}
			}
		}
		return nil
	}
	return find(v, 0)
}

// tainted judges the uses of a sequence in arbitrary order.
func (o *ordering) tainted(f *ssa.Function, v ssa.Value, l *loop, seen map[ssa.Value]bool, what string) {
	if seen[v] || orderOpen(v.Type()) {
		return
	}
	seen[v] = true
	if v.Referrers() == nil {
		return
	}
	name := o.c.FuncName(f)
	sorted := o.sorts(v)
	for _, r := range *v.Referrers() {
		if l != nil && l.has(r) {
			continue
		}
		if sorted != nil && sorted != r && before(sorted, r) {
			continue
		}
		switch x := r.(type) {
		case *ssa.Return:
			for i, res := range x.Results {
				if res != v {
					continue
				}
				if f.Object() != nil && f.Object().Exported() && exportedRecv(f) {
					o.report("collect", name, x, "%s is returned in arbitrary order", what)
				}
				o.addResult(f, i)
			}
		case *ssa.Phi:
			o.tainted(f, x, l, seen, what)
		case *ssa.ChangeType:
			if !onlySorted(x, o) {
				o.tainted(f, x, l, seen, what)
			}
		case *ssa.Slice:
			o.tainted(f, x, l, seen, what)
		case *ssa.Store:
			if x.Val == v && sorted == nil {
				o.stored(f, l, x, nil, seen, what)
			}
		case *ssa.IndexAddr:
			lp := innermost(f, x.Block())
			if lp == nil {
				o.report("first", name, x, "%s is in arbitrary order, and this takes one element", what)
				continue
			}
			for _, u := range *x.Referrers() {
				if ld, ok := u.(*ssa.UnOp); ok {
					o.region(f, lp, ld, seen)
				}
			}
		case *ssa.MakeInterface:
			if sorted == nil {
				o.report("collect", name, x, "%s is used in arbitrary order", what)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append", "copy":
					o.tainted(f, x, l, seen, what)
				}
				continue
			}
			if sorted == ssa.Instruction(x) {
				continue
			}
			for _, g := range o.c.Callees(&x.Call) {
				if o.c.InRepo(g) {
					args := x.Call.Args
					if x.Call.IsInvoke() {
						args = append([]ssa.Value{x.Call.Value}, args...)
					}
					for i, a := range args {
						if a == v && i < len(g.Params) && !o.param[g.Params[i]] {
							o.param[g.Params[i]] = true
							o.push(g)
						}
					}
					continue
				}
				if !orderless(g) {
					o.report("collect", name, x, "%s is passed to %s in arbitrary order", what, g.Name())
				}
			}
		}
	}
}

// orderless: what it makes has no order.
func orderless(g *ssa.Function) bool {
	switch g.Name() {
	case "SetVal", "Len", "IsNil", "Kind":
		return true
	}
	return false
}

func exportedRecv(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return true
	}
	n, ok := derefType(f.Signature.Recv().Type()).(*types.Named)
	return ok && n.Obj().Exported()
}

func onlySorted(v ssa.Value, o *ordering) bool {
	return o.sorts(v) != nil
}

func (o *ordering) addResult(f *ssa.Function, i int) {
	if o.result[f] == nil {
		o.result[f] = map[int]bool{}
	}
	if o.result[f][i] {
		return
	}
	o.result[f][i] = true
	for _, g := range o.c.Funcs {
		o.push(g)
	}
}

// before: a is executed before b whenever b is.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func innermost(f *ssa.Function, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range loopsOf(f) {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}
