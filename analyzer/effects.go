package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Side-effect (ownership) analysis.
//
// Every reference-like value of a function gets a set of origins: reachable
// from parameter i, reachable from a captured variable, reachable from a
// package-level variable, or allocated by the function itself. A store through
// an address whose origin is not the function's own is an effect on that
// origin. Effects, result origins and content flows are summarised per function
// and applied at call sites until nothing changes. Interface calls reach every
// repository implementation; functions outside the repository are assumed not
// to write, except for a table of known mutators, and to return something
// derived from their arguments.

type origin struct {
	k byte // 'P' parameter, 'F' free variable, 'G' global, 'A' own allocation
	i int
	v ssa.Value // for G and A
	d uint8     // how many pointers away (2: two or more), for P, F and G
}

// deeper is what can be found by following one more pointer.
func (o origin) deeper() origin {
	if o.d < 2 {
		o.d++
	}
	return o
}

type oset map[origin]bool

func (s oset) addAll(t oset) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

// effect is one write that a function may do to something it does not own.
type effect struct {
	on   origin // P, F or G
	what string // what is written ("BodyContent.Blocks", "element of []T", ...)
	in   string // function that contains the store
	pos  token.Pos
	wt   string // type of the thing written, for the type filter
}

// flow: the contents of "to" may now include "from", or something newly
// allocated that contains it.
type flow struct {
	to, from origin
	nested   bool
	wt       string // type of the thing written, for the type filter
}

type summary struct {
	effects map[effect]bool
	// results: origins of each result, and of what fresh results contain
	results  []oset            // P, F, G and A{nil} for fresh
	contents []map[string]oset // what a fresh result may contain, by field (P, F, G, and fresh)
	nested   []map[string]oset // what fresh things inside it may contain
	flows    map[flow]bool
}

type effects struct {
	p    *Prog
	sums map[*ssa.Function]*summary
	imm  map[types.Type]bool

	reachMemo map[string]map[string]bool
	states    map[*ssa.Function]*fnState
	empty     map[*ssa.Global]bool
	ranged    map[string]bool
}

var freshOrigin = origin{k: 'A'}

func computeEffects(p *Prog) *effects {
	e := &effects{p: p, sums: map[*ssa.Function]*summary{}, imm: map[types.Type]bool{}, reachMemo: map[string]map[string]bool{}, states: map[*ssa.Function]*fnState{}, empty: map[*ssa.Global]bool{}}
	// all repository functions, wrappers included
	fns := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || fns[f] || len(f.Blocks) == 0 {
			return
		}
		fns[f] = true
		order = append(order, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(ci.Common()) {
						if p.InRepo(g) || g.Synthetic != "" {
							add(g)
						}
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		add(f)
	}
	deps := map[*ssa.Function][]*ssa.Function{}
	for _, f := range order {
		n := f.Signature.Results().Len()
		s := &summary{effects: map[effect]bool{}, flows: map[flow]bool{}}
		for i := 0; i < n; i++ {
			s.results = append(s.results, oset{})
			s.contents = append(s.contents, map[string]oset{})
			s.nested = append(s.nested, map[string]oset{})
		}
		e.sums[f] = s
	}
	for _, f := range order {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(ci.Common()) {
						if e.sums[g] != nil && !seen[g] {
							seen[g] = true
							deps[g] = append(deps[g], f)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if e.sums[g] != nil && !seen[g] {
						seen[g] = true
						deps[g] = append(deps[g], f)
					}
				}
			}
		}
	}
	work := append([]*ssa.Function(nil), order...)
	inWork := map[*ssa.Function]bool{}
	for _, f := range work {
		inWork[f] = true
	}
	rounds := 0
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		inWork[f] = false
		rounds++
		if rounds > 200000 {
			panic("effect analysis does not converge")
		}
		if e.analyse(f) {
			for _, g := range deps[f] {
				if !inWork[g] {
					inWork[g] = true
					work = append(work, g)
				}
			}
		}
	}
	return e
}

// immutable: values of this type give no way to change anything shared.
func (e *effects) immutable(t types.Type) bool {
	if t == nil {
		return true
	}
	if r, ok := e.imm[t]; ok {
		return r
	}
	e.imm[t] = true // recursive types: assume, then verify
	r := e.immutable1(t)
	e.imm[t] = r
	return r
}

func (e *effects) immutable1(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil {
			switch o.Pkg().Path() + "." + o.Name() {
			case ctyPath + ".Value", ctyPath + ".Type", ctyPath + ".Path", ctyPath + ".ElementIterator",
				ctyPath + "/function.Function", "reflect.Type":
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !e.immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return e.immutable(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !e.immutable(u.At(i).Type()) {
				return false
			}
		}
		return true
	case *types.Pointer:
		// types and big numbers are never changed in place here
		return isNamed(u.Elem(), "math/big", "Float") || isNamed(u.Elem(), "math/big", "Int")
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Signature:
		return false
	}
	return false
}

type fnState struct {
	e    *effects
	f    *ssa.Function
	val  map[ssa.Value]oset
	cont map[ssa.Value]map[string]oset // contents of own allocations by field
	sum  *summary
	ch   bool // something changed in this pass
	out  bool // the summary changed

	reachMemo, reachOut map[origin]oset
	escaped             map[*ssa.Function]bool // closures that can outlive a call
}

func (e *effects) analyse(f *ssa.Function) bool {
	st := e.states[f]
	if st == nil {
		st = &fnState{e: e, f: f, val: map[ssa.Value]oset{}, cont: map[ssa.Value]map[string]oset{}, sum: e.sums[f], escaped: map[*ssa.Function]bool{}}
		e.states[f] = st
	}
	st.out = false
	for i, p := range f.Params {
		if !e.immutable(p.Type()) {
			st.val[p] = oset{{k: 'P', i: i}: true}
		}
	}
	for i, fv := range f.FreeVars {
		st.val[fv] = oset{{k: 'F', i: i}: true}
	}
	for n := 0; ; n++ {
		st.ch = false
		st.reachMemo, st.reachOut = map[origin]oset{}, map[origin]oset{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.ch {
			break
		}
		if n > 200 {
			panic("no fixpoint in " + f.String())
		}
	}
	return st.out
}

func (st *fnState) get(v ssa.Value) oset {
	switch x := v.(type) {
	case *ssa.Global:
		return oset{{k: 'G', v: x}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return st.val[v]
}

func (st *fnState) set(v ssa.Value, s oset) {
	if len(s) == 0 {
		return
	}
	if st.e.immutable(v.Type()) {
		return
	}
	cur := st.val[v]
	if cur == nil {
		cur = oset{}
		st.val[v] = cur
	}
	if cur.addAll(s) {
		st.ch = true
	}
}

func (st *fnState) contents(o origin, field string) oset {
	if o.k != 'A' {
		return oset{o.deeper(): true}
	}
	r := oset{}
	m := st.cont[o.v]
	if field == "*" {
		for _, s := range m {
			r.addAll(s)
		}
		return r
	}
	r.addAll(m[field])
	r.addAll(m["*"])
	return r
}

func (st *fnState) addContents(o origin, field string, s oset) {
	if o.k != 'A' || len(s) == 0 {
		return
	}
	m := st.cont[o.v]
	if m == nil {
		m = map[string]oset{}
		st.cont[o.v] = m
	}
	if m[field] == nil {
		m[field] = oset{}
	}
	if m[field].addAll(s) {
		st.ch = true
	}
}

// addrParts splits an address into the value it is based on and the first
// field selected from that.
func addrParts(addr ssa.Value) (base ssa.Value, field string) {
	field = "*"
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			field = fmt.Sprintf("%d", x.Field)
			addr = x.X
			if _, ok := addr.(*ssa.FieldAddr); ok {
				continue
			}
			if _, ok := addr.(*ssa.IndexAddr); ok {
				continue
			}
			return addr, field
		case *ssa.IndexAddr:
			field = "[]"
			addr = x.X
			if _, ok := addr.(*ssa.FieldAddr); ok {
				if _, isArr := x.X.Type().Underlying().(*types.Pointer); isArr {
					continue
				}
			}
			return addr, field
		default:
			return addr, field
		}
	}
}

func (st *fnState) load(addr ssa.Value) oset {
	if g, ok := addr.(*ssa.Global); ok && st.e.emptyGlobal(g) {
		return nil
	}
	base, field := addrParts(addr)
	r := oset{}
	for o := range st.get(base) {
		r.addAll(st.contents(o, field))
	}
	return r
}

func describeAddr(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return fieldName(x)
	case *ssa.IndexAddr:
		return "element of " + shortType(x.X.Type())
	case *ssa.Global:
		return "package variable " + x.Name()
	case *ssa.FreeVar:
		return "captured variable " + x.Name()
	}
	return "*" + shortType(addr.Type())
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (st *fnState) effect(on oset, what string, pos token.Pos, wt types.Type) {
	for o := range on {
		if o.k == 'A' {
			continue
		}
		st.addEffect(effect{on: o, what: what, in: st.e.p.FuncName(st.f), pos: pos, wt: st.e.typeKey(wt)})
	}
}

func (st *fnState) originType(o origin) types.Type {
	switch o.k {
	case 'P':
		return st.f.Params[o.i].Type()
	case 'F':
		return st.f.FreeVars[o.i].Type()
	}
	return o.v.Type()
}

func (st *fnState) addEffect(ef effect) {
	if !st.e.canReach(st.originType(ef.on), ef.wt) {
		return
	}
	if !st.sum.effects[ef] {
		st.sum.effects[ef] = true
		st.out = true
		st.ch = true
	}
}

func (st *fnState) write(base oset, field string, val oset, what string, pos token.Pos, wt types.Type) {
	st.effect(base, what, pos, wt)
	for o := range base {
		if o.k == 'A' {
			st.addContents(o, field, val)
			continue
		}
		for v := range val {
			if v == o {
				continue
			}
			if v.k == 'A' {
				if !st.e.canReach(st.originType(o), st.e.typeKey(wt)) {
					continue
				}
				st.escape(v)
				// the outside now refers to our allocation: what that
				// contains flows out too
				for c := range st.reach(v) {
					st.addFlow(flow{o, c, true, st.e.typeKey(wt)})
				}
				continue
			}
			st.addFlow(flow{o, v, false, st.e.typeKey(wt)})
		}
	}
}

// escape notes that what o stands for outlives this call.
func (st *fnState) escape(o origin) {
	if o.k != 'A' {
		return
	}
	for x := range st.reachAll(o) {
		if mc, ok := x.v.(*ssa.MakeClosure); ok && x.k == 'A' {
			st.escaped[mc.Fn.(*ssa.Function)] = true
		}
	}
}

func (st *fnState) addFlow(fl flow) {
	if (fl.to == fl.from && !fl.nested) || fl.from.k == 'A' {
		return
	}
	if !st.e.canReach(st.originType(fl.to), fl.wt) {
		return
	}
	if !st.sum.flows[fl] {
		st.sum.flows[fl] = true
		st.out = true
		st.ch = true
	}
}

// reach gives everything not our own that is reachable from an own allocation.
func (st *fnState) reach(o origin) oset {
	if r, ok := st.reachOut[o]; ok {
		return r
	}
	r := oset{}
	for x := range st.reachAll(o) {
		if x.k != 'A' {
			r[x] = true
		}
	}
	st.reachOut[o] = r
	return r
}

// reachAll gives everything reachable from o, itself included. Results are
// kept for one pass over the function; the last pass changes nothing, so what
// it used was complete.
func (st *fnState) reachAll(o origin) oset {
	if r, ok := st.reachMemo[o]; ok {
		return r
	}
	r := oset{}
	work := []origin{o}
	r[o] = true
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x.k != 'A' {
			continue
		}
		if m, ok := st.reachMemo[x]; ok && x != o {
			for y := range m {
				r[y] = true
			}
			continue
		}
		for _, cs := range st.cont[x.v] {
			for y := range cs {
				if !r[y] {
					r[y] = true
					work = append(work, y)
				}
			}
		}
	}
	st.reachMemo[o] = r
	return r
}

func (st *fnState) instr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		st.set(in, oset{{k: 'A', v: in}: true})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		st.set(v, oset{{k: 'A', v: v}: true})
	case *ssa.MakeClosure:
		o := origin{k: 'A', v: in}
		st.set(in, oset{o: true})
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			st.addContents(o, fmt.Sprintf("%d", i), st.get(b))
		}
		// The closure may run: its effects on captured variables are ours.
		if s := st.e.sums[fn]; s != nil {
			st.applyFree(s, in)
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			st.set(in, st.get(e))
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		v := in.(ssa.Value)
		base, _ := addrParts(v)
		st.set(v, st.get(base))
	case *ssa.Field:
		st.set(in, st.get(in.X))
	case *ssa.Index:
		st.set(in, st.get(in.X))
	case *ssa.UnOp:
		if in.Op == token.MUL {
			st.set(in, st.load(in.X))
		} else if in.Op == token.ARROW {
			r := oset{}
			for o := range st.get(in.X) {
				r.addAll(st.contents(o, "*"))
			}
			st.set(in, r)
		}
	case *ssa.Slice:
		st.set(in, st.get(in.X))
	case *ssa.ChangeType:
		st.set(in, st.get(in.X))
	case *ssa.Convert:
		// []byte(string) and the like make copies
		st.set(in, st.get(in.X))
	case *ssa.ChangeInterface:
		st.set(in, st.get(in.X))
	case *ssa.MakeInterface:
		st.set(in, st.get(in.X))
	case *ssa.TypeAssert:
		st.set(in, st.get(in.X))
	case *ssa.SliceToArrayPointer:
		st.set(in, st.get(in.X))
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			st.set(in, st.callResult(c, in.Index))
			return
		}
		st.set(in, st.get(in.Tuple))
	case *ssa.Lookup:
		r := oset{}
		for o := range st.get(in.X) {
			r.addAll(st.contents(o, "[]"))
		}
		st.setTuple(in, r)
	case *ssa.Range:
		st.setAny(in, st.get(in.X))
	case *ssa.Next:
		r := oset{}
		for o := range st.get(in.Iter) {
			r.addAll(st.contents(o, "[]"))
		}
		st.setAny(in, r)
	case *ssa.Store:
		base, field := addrParts(in.Addr)
		bo := st.get(base)
		val := st.get(in.Val)
		// copy of a whole struct between own allocations keeps fields apart
		if field == "*" {
			if u, ok := in.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if src, f2 := addrParts(u.X); f2 == "*" {
					if a, ok := src.(*ssa.Alloc); ok {
						for o := range bo {
							if o.k == 'A' {
								for f, s := range st.cont[a] {
									st.addContents(o, f, s)
								}
							}
						}
						st.effect(bo, describeAddr(in.Addr), in.Pos(), writtenType(in.Addr))
						return
					}
				}
			}
		}
		st.write(bo, field, val, describeAddr(in.Addr), in.Pos(), writtenType(in.Addr))
	case *ssa.MapUpdate:
		v := oset{}
		v.addAll(st.get(in.Value))
		if st.e.rangedKeys()[in.Map.Type().Underlying().String()] {
			v.addAll(st.get(in.Key))
		}
		what := "entry of " + shortType(in.Map.Type())
		if u, ok := in.Map.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				what = "entry of " + fieldName(fa)
			}
		}
		st.write(st.get(in.Map), "[]", v, what, in.Pos(), in.Map.Type())
	case *ssa.Send:
		st.write(st.get(in.Chan), "[]", st.get(in.X), "channel", in.Pos(), in.Chan.Type())
	case *ssa.Return:
		for i, r := range in.Results {
			for o := range st.get(r) {
				res, con := st.sum.results[i], st.sum.contents[i]
				if o.k == 'A' {
					st.escape(o)
					if !res[freshOrigin] {
						res[freshOrigin] = true
						st.out, st.ch = true, true
					}
					nest := st.sum.nested[i]
					for f, cs := range st.cont[o.v] {
						for c := range cs {
							k := c
							if c.k == 'A' {
								k = freshOrigin
								for rc := range st.reach(c) {
									st.addTo(nest, f, rc)
								}
							}
							st.addTo(con, f, k)
						}
					}
					continue
				}
				if !res[o] {
					res[o] = true
					st.out, st.ch = true, true
				}
			}
		}
	case ssa.CallInstruction:
		st.call(in)
	}
}

func (st *fnState) addTo(m map[string]oset, f string, o origin) {
	if m[f] == nil {
		m[f] = oset{}
	}
	if !m[f][o] {
		m[f][o] = true
		st.out, st.ch = true, true
	}
}

func (st *fnState) setTuple(v ssa.Value, s oset) { st.setAny(v, s) }

func (st *fnState) setAny(v ssa.Value, s oset) {
	if len(s) == 0 {
		return
	}
	cur := st.val[v]
	if cur == nil {
		cur = oset{}
		st.val[v] = cur
	}
	if cur.addAll(s) {
		st.ch = true
	}
}

// follow gives what a callee can mean by the origin of an argument followed
// d times.
func (st *fnState) follow(s oset, d uint8) oset {
	cur := s
	for i := uint8(0); i < d; i++ {
		next := oset{}
		for o := range cur {
			next.addAll(st.contents(o, "*"))
		}
		cur = next
	}
	if d == 2 {
		all := oset{}
		for o := range cur {
			all.addAll(st.reachAll(o))
		}
		return all
	}
	return cur
}

// applyFree applies a closure's effects on its captured variables.
func (st *fnState) applyFree(s *summary, mc *ssa.MakeClosure) {
	bind := func(o origin) oset {
		switch o.k {
		case 'F':
			return st.follow(st.get(mc.Bindings[o.i]), o.d)
		case 'G':
			return oset{o: true}
		}
		return nil
	}
	for ef := range s.effects {
		if ef.on.k != 'F' {
			continue
		}
		for o := range bind(ef.on) {
			if o.k != 'A' {
				st.addEffect(effect{on: o, what: ef.what, in: ef.in, pos: ef.pos, wt: ef.wt})
			}
		}
	}
	for fl := range s.flows {
		for to := range bind(fl.to) {
			for from := range bind(fl.from) {
				st.flowInto(mc, fl.to, to, "*", from, fl.nested, fl.wt)
			}
		}
	}
}

func (st *fnState) flowInto(at ssa.Instruction, orig, to origin, field string, from origin, nested bool, wt string) {
	if to == from && !nested {
		return
	}
	if to.k == 'A' {
		if constCell(to.v) {
			return // nobody else stores to this variable
		}
		if nested {
			n := origin{k: 'A', v: resKey{c: at, idx: -1, field: field, to: orig}.value()}
			st.addContents(n, "*", oset{n: true, from: true})
			st.addContents(to, field, oset{n: true})
			return
		}
		st.addContents(to, field, oset{from: true})
		return
	}
	if from.k == 'A' {
		if !st.e.canReach(st.originType(to), wt) {
			return
		}
		st.escape(from)
		for c := range st.reach(from) {
			st.addFlow(flow{to, c, true, wt})
		}
		return
	}
	st.addFlow(flow{to, from, nested, wt})
}

// callResult: origins of one result of a call, recorded under the call.
func (st *fnState) callResult(c *ssa.Call, idx int) oset {
	return st.val[resKey{c: c, idx: idx}.value()]
}

type resKey struct {
	c     ssa.Instruction
	idx   int
	field string
	to    origin
}

// results of multi-value calls are kept in the call's Extracts; to find them
// we use per-index placeholder values.
var resPlaceholders = map[resKey]*ssa.Alloc{}

func (k resKey) value() ssa.Value {
	v := resPlaceholders[k]
	if v == nil {
		v = &ssa.Alloc{Comment: fmt.Sprintf("result %d of %s", k.idx, k.c)}
		resPlaceholders[k] = v
	}
	return v
}

func (st *fnState) call(in ssa.CallInstruction) {
	com := in.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		st.builtin(in, b, com)
		return
	}
	var args []ssa.Value
	if com.IsInvoke() {
		args = append(args, com.Value)
	}
	args = append(args, com.Args...)
	callees := st.e.p.Callees(com)
	var mc *ssa.MakeClosure
	if m, ok := com.Value.(*ssa.MakeClosure); ok {
		mc = m
	}
	// a function value that was made here can only be what was made
	if !com.IsInvoke() && com.StaticCallee() == nil {
		known := map[*ssa.Function]bool{}
		all := true
		fo := st.get(com.Value)
		for o := range fo {
			if m, ok := o.v.(*ssa.MakeClosure); ok && o.k == 'A' {
				known[m.Fn.(*ssa.Function)] = true
			} else {
				all = false
			}
		}
		if all && len(known) > 0 {
			if len(fo) == 1 {
				for o := range fo {
					mc = o.v.(*ssa.MakeClosure)
				}
			}
			callees = nil
			for f := range known {
				callees = append(callees, f)
			}
			sort.Slice(callees, func(i, j int) bool { return callees[i].String() < callees[j].String() })
		}
	}
	external := false
	if len(callees) == 0 {
		external = true
	}
	for _, g := range callees {
		s := st.e.sums[g]
		if s == nil {
			external = true
			continue
		}
		st.applySummary(in, g, s, args, mc, com)
	}
	if com.IsInvoke() && !isRepoInterface(st.e.p, com.Value.Type()) {
		external = true
	}
	if external {
		st.externalCall(in, com, args)
	}
}

func isRepoInterface(p *Prog, t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && p.isRepoPath(n.Obj().Pkg().Path())
}

func (st *fnState) applySummary(in ssa.CallInstruction, g *ssa.Function, s *summary, args []ssa.Value, mc *ssa.MakeClosure, com *ssa.CallCommon) {
	var funObj oset
	if !com.IsInvoke() {
		funObj = st.get(com.Value)
	}
	cache := map[origin]oset{}
	var bind1 func(o origin) oset
	bind := func(o origin) oset {
		if o.k == 'G' {
			return oset{o: true}
		}
		r, ok := cache[o]
		if !ok {
			r = bind1(o)
			cache[o] = r
		}
		return r
	}
	bind1 = func(o origin) oset {
		switch o.k {
		case 'P':
			if o.i < len(args) {
				return st.follow(st.get(args[o.i]), o.d)
			}
		case 'F':
			if mc != nil {
				return st.follow(st.get(mc.Bindings[o.i]), o.d)
			}
			// captured variables of a function value made elsewhere: applied
			// where the closure is made; what it returns may stem from
			// whatever the function value holds
			r := oset{}
			for fo := range funObj {
				if m, ok := fo.v.(*ssa.MakeClosure); ok && m.Fn != g {
					continue
				}
				r.addAll(st.contents(fo, fmt.Sprintf("%d", o.i)))
			}
			return st.follow(r, o.d)
		case 'G':
			return oset{o: true}
		}
		return nil
	}
	for ef := range s.effects {
		if ef.on.k == 'F' && mc == nil {
			continue
		}
		for o := range bind(ef.on) {
			if o.k != 'A' {
				st.addEffect(effect{on: o, what: ef.what, in: ef.in, pos: ef.pos, wt: ef.wt})
			}
		}
	}
	for fl := range s.flows {
		if fl.to.k == 'F' && mc == nil && fl.from.k != 'P' {
			continue // applied where the closure is made
		}
		field := "*"
		if fl.to.k == 'P' && fl.to.i < len(args) {
			_, field = addrParts(args[fl.to.i])
		}
		for to := range bind(fl.to) {
			for from := range bind(fl.from) {
				st.flowInto(in, fl.to, to, field, from, fl.nested, fl.wt)
			}
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	n := len(s.results)
	for i := 0; i < n; i++ {
		r := oset{}
		for o := range s.results[i] {
			if o.k == 'A' {
				a := origin{k: 'A', v: resKey{c: c, idx: i}.value()}
				r[a] = true
				for f, cs := range s.contents[i] {
					for co := range cs {
						if co.k != 'A' {
							st.addContents(a, f, bind(co))
							continue
						}
						n := origin{k: 'A', v: resKey{c: c, idx: i, field: f}.value()}
						st.addContents(a, f, oset{n: true})
						in := oset{n: true}
						for no := range s.nested[i][f] {
							in.addAll(bind(no))
						}
						st.addContents(n, "*", in)
					}
				}
				continue
			}
			r.addAll(bind(o))
		}
		if n == 1 {
			st.set(c, r)
		} else {
			st.setAny(resKey{c: c, idx: i}.value(), r)
		}
	}
}

func (st *fnState) builtin(in ssa.CallInstruction, b *ssa.Builtin, com *ssa.CallCommon) {
	c, _ := in.(*ssa.Call)
	switch b.Name() {
	case "append":
		base := com.Args[0]
		bo := st.get(base)
		a := origin{k: 'A', v: c}
		if sl, ok := base.(*ssa.Slice); !ok || sl.Max == nil {
			st.effect(nonDiag(base, bo), "spare capacity of "+describeSlice(base), in.Pos(), base.Type())
		}
		content := oset{}
		for o := range bo {
			content.addAll(st.contents(o, "[]"))
		}
		if len(com.Args) > 1 {
			for o := range st.get(com.Args[1]) {
				content.addAll(st.contents(o, "[]"))
			}
		}
		st.addContents(a, "[]", content)
		r := oset{a: true}
		for o := range bo {
			r[o] = true
			if o.k == 'A' {
				st.addContents(o, "[]", content)
			}
		}
		if c != nil {
			st.set(c, r)
		}
	case "copy":
		val := oset{}
		for o := range st.get(com.Args[1]) {
			val.addAll(st.contents(o, "[]"))
		}
		st.write(st.get(com.Args[0]), "[]", val, "elements of "+shortType(com.Args[0].Type()), in.Pos(), com.Args[0].Type())
	case "delete":
		st.effect(st.get(com.Args[0]), "entry of "+describeSlice(com.Args[0]), in.Pos(), com.Args[0].Type())
	case "clear":
		st.effect(st.get(com.Args[0]), "entries of "+describeSlice(com.Args[0]), in.Pos(), com.Args[0].Type())
	case "recover", "print", "println", "panic", "len", "cap", "min", "max", "close":
	}
}

func describeSlice(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa)
		}
	}
	return shortType(v.Type())
}

// nonDiag: the accumulation idiom "diags = append(diags, ...)" on diagnostics
// returned by a callee is not counted as a write.
func nonDiag(v ssa.Value, s oset) oset {
	return s
}

// mutators are functions outside the repository that write to an argument.
var mutators = map[string][]int{
	"sync/atomic.AddInt32": {0}, "sync/atomic.AddInt64": {0}, "sync/atomic.AddUint32": {0}, "sync/atomic.AddUint64": {0},
	"sync/atomic.StoreInt32": {0}, "sync/atomic.StoreInt64": {0}, "sync/atomic.StorePointer": {0},
	"sync/atomic.CompareAndSwapInt32": {0}, "sync/atomic.CompareAndSwapInt64": {0}, "sync/atomic.CompareAndSwapPointer": {0},
	"sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0}, "sort.Slice": {0}, "sort.SliceStable": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0},
	"encoding/json.Unmarshal": {1}, "encoding/gob.Register": {}, "unicode/utf8.EncodeRune": {0},
	"io.ReadFull": {1}, "encoding/binary.PutVarint": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0},
	"(*encoding/json.Decoder).Decode": {0, 1},
}

// readers are methods with a pointer receiver, outside the repository, that do
// not change what they are called on.
var readers = map[string]bool{
	"(*bytes.Buffer).Bytes": true, "(*bytes.Buffer).Len": true, "(*bytes.Buffer).String": true, "(*bytes.Buffer).Cap": true,
	"(*strings.Builder).String": true, "(*strings.Builder).Len": true,
	// locking is not a change anyone can see
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true,
	"(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
}

// isMutatorMethod: any method with a pointer receiver may change its receiver,
// unless it is known not to.
func isMutatorMethod(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	recv := f.Signature.Recv().Type()
	if isNamed(recv, "reflect", "Value") {
		return strings.HasPrefix(f.Name(), "Set") || f.Name() == "Grow" || f.Name() == "Clear"
	}
	if _, ok := recv.(*types.Pointer); !ok {
		return false
	}
	if isPtrTo(recv, "regexp", "Regexp") {
		return false
	}
	return !readers[f.String()]
}

func (st *fnState) externalCall(in ssa.CallInstruction, com *ssa.CallCommon, args []ssa.Value) {
	f := com.StaticCallee()
	if f != nil {
		name := f.String()
		if idx, ok := mutators[name]; ok {
			for _, i := range idx {
				if i < len(args) {
					st.effect(st.get(args[i]), "argument of "+name, in.Pos(), nil)
				}
			}
		}
		if isMutatorMethod(f) {
			val := oset{}
			for _, a := range args[1:] {
				val.addAll(st.get(a))
			}
			base := oset{}
			for o := range st.get(args[0]) {
				if g, ok := o.v.(*ssa.Global); ok && !st.e.p.isRepoPath(g.Pkg.Pkg.Path()) {
					continue // another library's own variable
				}
				base[o] = true
			}
			st.write(base, "*", val, "target of "+f.Name(), in.Pos(), nil)
		}
	}
	// a closure handed to an external function may run there (its effects on
	// captured variables were applied where it was made) and may be kept
	if f == nil || !strings.HasPrefix(f.String(), "sort.") && !strings.HasPrefix(f.String(), "strings.") && !strings.HasPrefix(f.String(), "bytes.") && !strings.HasPrefix(f.String(), "slices.") {
		for _, a := range args {
			for o := range st.get(a) {
				st.escape(o)
			}
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	r := oset{}
	for _, a := range args {
		r.addAll(st.get(a))
	}
	sig := com.Signature()
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		if st.e.immutable(sig.Results().At(i).Type()) {
			continue
		}
		a := origin{k: 'A', v: resKey{c: c, idx: i}.value()}
		rr := oset{a: true}
		inner := oset{a: true}
		inner.addAll(r)
		if derives(sig.Results().At(i).Type(), args) {
			rr.addAll(r)
		}
		st.addContents(a, "*", inner)
		if n == 1 {
			st.set(c, rr)
		} else {
			st.setAny(resKey{c: c, idx: i}.value(), rr)
		}
	}
}

// derives: an external function's result may be the very memory of an
// argument only if types make that possible; byte slices made from strings and
// marshalled output are new.
func derives(res types.Type, args []ssa.Value) bool {
	for _, a := range args {
		if types.Identical(a.Type(), res) {
			return true
		}
		switch a.Type().Underlying().(type) {
		case *types.Interface:
			return true
		}
		if isNamed(a.Type(), "reflect", "Value") || isNamed(res, "reflect", "Value") {
			return true
		}
	}
	return false
}

// sortedEffects lists a function's effects in a stable order.
func (s *summary) sortedEffects() []effect {
	var out []effect
	for ef := range s.effects {
		out = append(out, ef)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.on.k != b.on.k {
			return a.on.k < b.on.k
		}
		if a.on.i != b.on.i {
			return a.on.i < b.on.i
		}
		if a.in != b.in {
			return a.in < b.in
		}
		if a.what != b.what {
			return a.what < b.what
		}
		return a.pos < b.pos
	})
	return out
}

// writtenType gives the type whose object a store changes.
func writtenType(addr ssa.Value) types.Type {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return x.X.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.IndexAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return x.X.Type()
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *effects) typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.String()
	}
	return t.Underlying().String()
}

// canReach: can an object of the given type be reached from a value of type t?
func (e *effects) canReach(t types.Type, want string) bool {
	if want == "" {
		return true
	}
	k := t.String()
	m := e.reachMemo[k]
	if m == nil {
		m = map[string]bool{}
		e.reachMemo[k] = m
		e.reachTypes(t, m)
	}
	return m["*"] || m[want]
}

func (e *effects) reachTypes(t types.Type, m map[string]bool) {
	k := t.String()
	if m[k] {
		return
	}
	m[k] = true
	if e.immutable(t) {
		return
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		m[n.Underlying().String()] = true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		e.reachTypes(u.Elem(), m)
	case *types.Slice:
		e.reachTypes(u.Elem(), m)
	case *types.Array:
		e.reachTypes(u.Elem(), m)
	case *types.Map:
		e.reachTypes(u.Key(), m)
		e.reachTypes(u.Elem(), m)
	case *types.Chan:
		e.reachTypes(u.Elem(), m)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.reachTypes(u.Field(i).Type(), m)
		}
	case *types.Interface:
		if u.NumMethods() == 0 || !isRepoInterface(e.p, t) {
			m["*"] = true
			return
		}
		for _, impl := range e.p.Implementers(u) {
			e.reachTypes(impl, m)
		}
	case *types.Signature:
		m["*"] = true
	}
}

// constCell: the variable is only assigned by the function that declares it
// (closures capturing it only read it), so nothing can flow into it from
// elsewhere.
func constCell(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Block() == nil {
		return false
	}
	var readOnly func(v ssa.Value, own bool) bool
	readOnly = func(v ssa.Value, own bool) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v || !own {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !readOnly(fn.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return readOnly(a, true)
}

// emptyGlobal: the variable only ever holds an empty slice made when its
// package is initialised, so nothing can be reached (or changed) through it.
func (e *effects) emptyGlobal(g *ssa.Global) bool {
	if r, ok := e.empty[g]; ok {
		return r
	}
	stores := 0
	ok := true
	for _, f := range e.p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands [16]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if *op != g {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						stores++
						v := in.Val
						if mi, isI := v.(*ssa.MakeInterface); isI {
							v = mi.X
						}
						if ct, isC := v.(*ssa.ChangeType); isC {
							v = ct.X
						}
						sl, isS := v.(*ssa.Slice)
						if !isS {
							ok = false
							break
						}
						p, isP := sl.X.Type().Underlying().(*types.Pointer)
						if !isP {
							ok = false
							break
						}
						arr, isA := p.Elem().Underlying().(*types.Array)
						if !isA || arr.Len() != 0 {
							ok = false
						}
					default:
						ok = false
					}
				}
			}
		}
	}
	r := ok && stores > 0
	e.empty[g] = r
	return r
}

// rangedKeys: the types of maps whose keys some function reads back.
func (e *effects) rangedKeys() map[string]bool {
	if e.ranged == nil {
		e.ranged = map[string]bool{}
		for _, f := range e.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Range); ok {
						e.ranged[r.X.Type().Underlying().String()] = true
					}
				}
			}
		}
	}
	return e.ranged
}
