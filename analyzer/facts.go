package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The facts engine is a forward dataflow analysis of what is established about
// values at each point: which types a configuration value can have, whether it
// is known and not null, how long a sequence is at least, whether a pointer,
// interface or error is nil, whether diagnostics contain errors. Conditions
// refine the facts along the branch taken. Facts of parameters, struct fields
// and results are solved for the whole repository at once, starting from
// "nothing can arrive here" and weakening until everything agrees.

// Classes of configuration types.
const (
	tString uint16 = 1 << iota
	tNumber
	tBool
	tDyn
	tList
	tSet
	tMap
	tTuple
	tObject
	tCapsule
	tNilEv // no type: something that yields nil can arrive here
	tAll   = 1<<11 - 1
	tTypes = 1<<10 - 1
	tIter  = tList | tSet | tMap | tTuple | tObject
	tColl  = tList | tSet | tMap
)

const (
	fKnown uint16 = 1 << iota
	fNonnull
	fNonnil
	fNil
	fTrue  // booleans: true; diagnostics: contain errors; configuration booleans: True() holds
	fFalse // the opposite
	fWhole // wholly known
	fEmpty // sequences, maps: no elements
	fAll   = 1<<8 - 1
)

type fact struct {
	mask   uint16
	flags  uint16
	minlen uint8
}

const maxLen = 16

var (
	topFact = fact{mask: tAll}
	// anyFact is what is known about a value from an unknown source.
	anyFact = fact{mask: tTypes}
	botFact = fact{mask: 0, flags: fAll, minlen: maxLen}
)

func (a fact) bot() bool {
	return a.mask == 0 || a.flags&(fNil|fNonnil) == fNil|fNonnil || a.flags&(fTrue|fFalse) == fTrue|fFalse || a.flags&fEmpty != 0 && a.minlen > 0
}

func (a fact) has(fl uint16) bool { return a.flags&fl == fl }

func (a fact) join(b fact) fact {
	if a.bot() {
		return b
	}
	if b.bot() {
		return a
	}
	return fact{a.mask | b.mask, a.flags & b.flags, min8(a.minlen, b.minlen)}
}

func (a fact) meet(b fact) fact {
	return fact{a.mask & b.mask, a.flags | b.flags, max8(a.minlen, b.minlen)}.norm()
}

// norm adds consequences: a known value that is not null has a concrete type,
// something with elements is not nil.
func (a fact) norm() fact {
	if a.has(fWhole) {
		a.flags |= fKnown
	}
	if a.has(fKnown | fNonnull) {
		a.mask &^= tDyn
	}
	if a.minlen > 0 {
		a.flags |= fNonnil
	}
	if a.has(fNonnil) && a.mask != tNilEv {
		a.mask &^= tNilEv
	}
	return a
}

// lasting leaves out what adding an element changes.
func (a fact) lasting() fact {
	if !a.bot() {
		a.flags &^= fEmpty
	}
	return a
}

func min8(a, b uint8) uint8 {
	if a < b {
		return a
	}
	return b
}

func max8(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}

// key names a value or a storage place.
type fkey struct {
	root ssa.Value
	path string
}

// fstate is what holds at one point; nil means the point is not reached.
type fstate struct {
	m map[ssa.Value][]pfact // lists are never changed in place
}

type pfact struct {
	path string
	x    fact
	cell ssa.Value // last value stored in the place, when known
}

func newState() *fstate { return &fstate{map[ssa.Value][]pfact{}} }

func (s *fstate) clone() *fstate {
	n := &fstate{make(map[ssa.Value][]pfact, len(s.m))}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func (s *fstate) find(k fkey) *pfact {
	l := s.m[k.root]
	for i := range l {
		if l[i].path == k.path {
			return &l[i]
		}
	}
	return nil
}

func (s *fstate) at(k fkey) (fact, bool) {
	if p := s.find(k); p != nil {
		return p.x, true
	}
	return topFact, false
}

// cell is the value last stored in a place.
func (s *fstate) cell(k fkey) ssa.Value {
	if p := s.find(k); p != nil {
		return p.cell
	}
	return nil
}

func (s *fstate) set(k fkey, x fact) {
	c := s.cell(k)
	s.put(k, x, c)
}

func (s *fstate) put(k fkey, x fact, cell ssa.Value) {
	old := s.m[k.root]
	l := make([]pfact, 0, len(old)+1)
	for _, p := range old {
		if p.path != k.path {
			l = append(l, p)
		}
	}
	s.m[k.root] = append(l, pfact{k.path, x, cell})
}

// forget drops what is known about a place and its parts.
func (s *fstate) forget(k fkey) {
	pre := strings.TrimSuffix(k.path, "*")
	if old, ok := s.m[k.root]; ok {
		var l []pfact
		for _, p := range old {
			if !strings.HasPrefix(p.path, pre) || p.path == "" {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			delete(s.m, k.root)
		} else {
			s.m[k.root] = l
		}
	}
}

func (s *fstate) equal(t *fstate) bool {
	if s == nil || t == nil {
		return s == t
	}
	if len(s.m) != len(t.m) {
		return false
	}
	for k, v := range s.m {
		w := t.m[k]
		if len(v) != len(w) {
			return false
		}
		if len(v) > 0 && &v[0] == &w[0] {
			continue
		}
		for _, p := range v {
			if q := t.find(fkey{k, p.path}); q == nil || *q != p {
				return false
			}
		}
	}
	return true
}

func joinStates(a, b *fstate) *fstate {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	n := newState()
	for k, v := range a.m {
		w, ok := b.m[k]
		if !ok {
			continue
		}
		if len(v) == len(w) && len(v) > 0 && &v[0] == &w[0] {
			n.m[k] = v
			continue
		}
		var l []pfact
		for _, p := range v {
			if q := b.find(fkey{k, p.path}); q != nil {
				j := pfact{p.path, p.x.join(q.x), p.cell}
				if q.cell != p.cell {
					j.cell = nil
				}
				if j.x != topFact || j.cell != nil {
					l = append(l, j)
				}
			}
		}
		if l != nil {
			n.m[k] = l
		}
	}
	return n
}

// facts is the solved analysis of the repository.
type facts struct {
	p      *Prog
	params map[*ssa.Parameter]fact
	fields map[fieldID]fact
	rets   map[*ssa.Function][]fact
	// conditional results: result i when result j reports success
	condRets map[*ssa.Function]map[[2]int]fact
	// what a boolean function's parameters satisfy when it returns true/false
	implied map[*ssa.Function]map[bool][]fact
	globals map[*ssa.Global]ssa.Value

	open      map[*ssa.Function]bool
	reflected map[*types.Named]bool
	assigned  map[fieldID]bool
	unset     map[fieldID]bool
	sites     map[*ssa.Function][]ssa.CallInstruction
	recovered map[*ssa.Function]bool
	done      map[*ssa.Function]*ffunc
	solving   bool
	depth     int
	changed   bool
}

type fieldID struct {
	t *types.Named
	i int
}

// ffunc is the analysis of one function.
type ffunc struct {
	fs   *facts
	f    *ssa.Function
	in   map[*ssa.BasicBlock]*fstate
	edge map[[2]*ssa.BasicBlock][]*fstate // per successor position
	out  map[*ssa.BasicBlock]*fstate
	busy map[ssa.Value]bool

	busyPhi  map[*ssa.Phi]bool
	paths    bool // path by path: keep track of comparisons with constants
	headers  map[*ssa.BasicBlock]bool
	closures []*ssa.MakeClosure
	stored   map[ssa.Value]bool
	again    map[*ssa.BasicBlock]bool // blocks in loops
	loads    map[placeShape][]ssa.Value
	lookups  []ssa.Value // read from maps by key
}

// placeShape groups places that can be the same.
type placeShape struct {
	t types.Type
	i int
	v ssa.Value
}

func shapeOf(addr ssa.Value) (placeShape, bool) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return placeShape{t: derefType(x.X.Type()), i: x.Field}, true
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return placeShape{v: addr}, true
	}
	return placeShape{}, false
}

// detach keeps what is known about values read from a place that is about to
// change.
func (a *ffunc) detach(st *fstate, shape placeShape, k fkey) {
	for _, v := range a.loads[shape] {
		if a.valKey(st, v) == k || st.cell(k) != nil && a.valKey(st, v) == a.valKey(st, st.cell(k)) {
			if x := a.get(st, v); !x.bot() {
				st.put(fkey{v, ""}, x, nil)
			}
		}
	}
}

// Facts solves the analysis.
func (p *Prog) Facts() *facts {
	if p.factsCache != nil {
		return p.factsCache
	}
	fs := &facts{
		p:         p,
		params:    map[*ssa.Parameter]fact{},
		fields:    map[fieldID]fact{},
		rets:      map[*ssa.Function][]fact{},
		condRets:  map[*ssa.Function]map[[2]int]fact{},
		implied:   map[*ssa.Function]map[bool][]fact{},
		globals:   map[*ssa.Global]ssa.Value{},
		open:      map[*ssa.Function]bool{},
		sites:     map[*ssa.Function][]ssa.CallInstruction{},
		recovered: map[*ssa.Function]bool{},
		done:      map[*ssa.Function]*ffunc{},
	}
	p.factsCache = fs
	fs.prepare()
	fs.solve()
	return fs
}

func (fs *facts) prepare() {
	p := fs.p
	p.initAddr()
	invoked := map[string]bool{}
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if g := cc.StaticCallee(); g != nil && p.InRepo(g) {
					fs.sites[g] = append(fs.sites[g], ci)
				} else if cc.IsInvoke() {
					invoked[cc.Method.Name()] = true
				}
			}
		}
	}
	taken := map[*ssa.Function]bool{}
	for _, l := range p.addrOf {
		for _, f := range l {
			taken[f] = true
		}
	}
	for _, f := range p.AllFuncs() {
		switch {
		case f.Parent() != nil:
			// a closure that is only called where it is made is closed
			fs.open[f] = !fs.localClosure(f)
		case f.Object() == nil:
			fs.open[f] = true
		case f.Object().Exported():
			fs.open[f] = true
			if r := f.Signature.Recv(); r != nil {
				if n, ok := derefType(r.Type()).(*types.Named); ok && !n.Obj().Exported() && !invoked[f.Name()] && !fs.satisfiesExternal(f) {
					fs.open[f] = false
				}
			}
			if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Name() != "main" {
				fs.open[f] = taken[f] || f.Signature.Recv() != nil && (invoked[f.Name()] || fs.satisfiesExternal(f))
			}
		default:
			fs.open[f] = taken[f] || f.Signature.Recv() != nil && invoked[f.Name()] || f.Name() == "init" || f.Name() == "main"
		}
	}
	// functions whose panics the function library turns into errors
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), ctyPath+"/function", "Spec") {
					continue
				}
				if fn := funcOf(s.Val); fn != nil {
					fs.recovered[fn] = true
				}
			}
		}
	}
	// package variables assigned once, during initialisation
	multi := map[*ssa.Global]bool{}
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if fs.globals[g] != nil || f.Synthetic != "package initializer" {
							multi[g] = true
						}
						fs.globals[g] = s.Val
					}
				}
			}
		}
	}
	for g := range multi {
		delete(fs.globals, g)
	}
	// types that other code can fill in by reflection, and assigned fields
	fs.reflected = map[*types.Named]bool{}
	fs.assigned = map[fieldID]bool{}
	fs.unset = map[fieldID]bool{}
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					fs.zeroed(in)
				case *ssa.MakeInterface:
					if it := in.Type().Underlying().(*types.Interface); it.NumMethods() == 0 {
						if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
							fs.reflect(pt.Elem())
						}
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if n, ok := types.Unalias(derefType(fa.X.Type())).(*types.Named); ok {
							fs.assigned[fieldID{n, fa.Field}] = true
						}
					}
				}
			}
		}
	}
}

// chained: the field leads to a struct of the same type, so that there has to
// be one in which it is nil.
func chained(id fieldID) bool {
	p, ok := id.t.Underlying().(*types.Struct).Field(id.i).Type().(*types.Pointer)
	return ok && types.Identical(p.Elem(), id.t)
}

// zeroed notes the fields that a new struct starts out without.
func (fs *facts) zeroed(al *ssa.Alloc) {
	n, ok := types.Unalias(derefType(al.Type())).(*types.Named)
	if !ok {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	set := map[int]bool{}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == ssa.Value(al) {
				return
			}
		case *ssa.FieldAddr:
			for _, u := range *r.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(r) {
					set[r.Field] = true
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if !set[i] {
			fs.unset[fieldID{n, i}] = true
		}
	}
}

// reflect marks a type and everything inside that reflection can fill in.
func (fs *facts) reflect(t types.Type) {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		if fs.reflected[t] {
			return
		}
		fs.reflected[t] = true
		fs.reflect(t.Underlying())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Exported() {
				fs.reflect(t.Field(i).Type())
			}
		}
	case *types.Pointer:
		fs.reflect(t.Elem())
	case *types.Slice:
		fs.reflect(t.Elem())
	case *types.Array:
		fs.reflect(t.Elem())
	case *types.Map:
		fs.reflect(t.Elem())
	}
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.MakeInterface:
		return funcOf(x.X)
	}
	return nil
}

// satisfiesExternal: methods of unexported types may be called through
// interfaces outside of the repository.
func (fs *facts) satisfiesExternal(f *ssa.Function) bool {
	r := f.Signature.Recv()
	// the type is converted to an interface somewhere
	for _, g := range fs.p.AllFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && types.Identical(derefType(mi.X.Type()), derefType(r.Type())) {
					it := mi.Type().Underlying().(*types.Interface)
					if it.NumMethods() == 0 {
						return true
					}
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == f.Name() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (fs *facts) localClosure(f *ssa.Function) bool {
	par := f.Parent()
	if len(f.FreeVars) == 0 {
		return !fs.p.addressTaken(f)
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for _, r := range *mc.Referrers() {
				switch r := r.(type) {
				case ssa.CallInstruction:
					if r.Common().Value != ssa.Value(mc) {
						return false
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		}
	}
	return true
}

func (fs *facts) solve() {
	fs.solving = true
	funcs := fs.p.AllFuncs()
	for _, f := range funcs {
		for _, pa := range f.Params {
			if fs.open[f] {
				fs.params[pa] = anyFact
			} else {
				fs.params[pa] = botFact
			}
		}
		n := f.Signature.Results().Len()
		rs := make([]fact, n)
		for i := range rs {
			rs[i] = botFact
		}
		fs.rets[f] = rs
		cr := map[[2]int]fact{}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i != j && okKind(f.Signature.Results().At(j).Type()) != 0 {
					cr[[2]int{i, j}] = botFact
				}
			}
		}
		fs.condRets[f] = cr
		if n == 1 && isBool(f.Signature.Results().At(0).Type()) {
			im := map[bool][]fact{}
			for _, t := range []bool{false, true} {
				l := make([]fact, len(f.Params))
				for i := range l {
					l[i] = botFact
				}
				im[t] = l
			}
			fs.implied[f] = im
		}
	}
	for round := 0; round < 60; round++ {
		fs.changed = false
		newParams := map[*ssa.Parameter]fact{}
		newFields := map[fieldID]fact{}
		for id := range fs.unset {
			// anything else is filled in before the struct is used
			if t := id.t.Underlying().(*types.Struct).Field(id.i).Type(); fs.assigned[id] && isBool(t) {
				newFields[id] = zeroFact(t)
			}
		}
		for id := range fs.assigned {
			if chained(id) {
				newFields[id] = topFact
			}
		}
		for _, f := range funcs {
			if !fs.reached(f) {
				continue
			}
			a := fs.analyse(f, nil)
			fs.done[f] = a
			fs.collect(a, newParams, newFields)
		}
		for _, f := range funcs {
			if fs.open[f] {
				continue
			}
			for _, pa := range f.Params {
				n, ok := newParams[pa]
				if !ok {
					n = botFact
				}
				if fs.params[pa] != n {
					fs.params[pa] = n
					fs.changed = true
				}
			}
		}
		for id, n := range newFields {
			if old, ok := fs.fields[id]; !ok || old != n {
				fs.fields[id] = n
				fs.changed = true
			}
		}
		if !fs.changed {
			break
		}
	}
	fs.solving = false
	// functions nothing in the repository calls: judge them for any argument
	for _, f := range funcs {
		if fs.done[f] == nil {
			for _, pa := range f.Params {
				fs.params[pa] = anyFact
			}
			fs.done[f] = fs.analyse(f, nil)
		}
	}
}

// reached: some call can get here (as far as solved).
func (fs *facts) reached(f *ssa.Function) bool {
	if fs.open[f] {
		return true
	}
	for _, pa := range f.Params {
		if fs.params[pa].bot() {
			// one argument not yet known: wait, unless nothing is known at all
			return false
		}
	}
	if len(f.Params) == 0 {
		return true
	}
	return true
}

func (fs *facts) collect(a *ffunc, params map[*ssa.Parameter]fact, fields map[fieldID]fact) {
	f := a.f
	n := f.Signature.Results().Len()
	rs := make([]fact, n)
	for i := range rs {
		rs[i] = botFact
	}
	cr := map[[2]int]fact{}
	for k := range fs.condRets[f] {
		cr[k] = botFact
	}
	im := map[bool][]fact{}
	if fs.implied[f] != nil {
		for _, t := range []bool{false, true} {
			l := make([]fact, len(f.Params))
			for i := range l {
				l[i] = botFact
			}
			im[t] = l
		}
	}
	rec := fs.exempt(f)
	a.walk(func(st *fstate, in ssa.Instruction) {
		switch in := in.(type) {
		case ssa.CallInstruction:
			if rec {
				return
			}
			g := in.Common().StaticCallee()
			if g == nil || fs.open[g] || !fs.p.InRepo(g) {
				return
			}
			for i, pa := range g.Params {
				if i < len(in.Common().Args) {
					x := a.get(st, in.Common().Args[i]).lasting()
					if old, ok := params[pa]; ok {
						x = old.join(x)
					}
					params[pa] = x
				}
			}
		case *ssa.Store:
			if id, ok := fs.fieldOf(in.Addr); ok {
				x := a.get(st, in.Val).lasting()
				if old, ok := fields[id]; ok {
					x = old.join(x)
				}
				fields[id] = x
			}
		case *ssa.Return:
			for i, r := range in.Results {
				rs[i] = rs[i].join(a.get(st, r).lasting())
			}
			for k := range cr {
				s2 := a.assumeOK(st.clone(), in.Results[k[1]])
				if s2 == nil {
					continue
				}
				cr[k] = cr[k].join(a.get(s2, in.Results[k[0]]).lasting())
			}
			if len(im) > 0 {
				for _, t := range []bool{false, true} {
					s2 := a.assume(st.clone(), in.Results[0], t)
					if s2 == nil {
						continue
					}
					for i, pa := range f.Params {
						im[t][i] = im[t][i].join(a.get(s2, pa))
					}
				}
			}
		}
	})
	for i := range rs {
		if fs.rets[f][i] != rs[i] {
			fs.changed = true
		}
	}
	fs.rets[f] = rs
	for k, v := range cr {
		if fs.condRets[f][k] != v {
			fs.changed = true
		}
	}
	fs.condRets[f] = cr
	if fs.implied[f] != nil {
		for t, l := range im {
			for i := range l {
				if fs.implied[f][t][i] != l[i] {
					fs.changed = true
				}
			}
		}
		fs.implied[f] = im
	}
}

// exempt: a panic inside is turned into an error by the function library.
func (fs *facts) exempt(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if fs.recovered[f] {
			return true
		}
	}
	return false
}

// fieldOf identifies a field of an unexported struct type or an unexported
// field, all of whose assignments are in the repository.
func (fs *facts) fieldOf(addr ssa.Value) (fieldID, bool) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return fieldID{}, false
	}
	return fs.fieldID(derefType(fa.X.Type()), fa.Field)
}

func (fs *facts) fieldID(t types.Type, i int) (fieldID, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !fs.p.isRepoPath(n.Obj().Pkg().Path()) {
		return fieldID{}, false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return fieldID{}, false
	}
	if n.Obj().Exported() && st.Field(i).Exported() || fs.reflected[n] || !fs.assigned[fieldID{n, i}] {
		return fieldID{}, false
	}
	return fieldID{n, i}, true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// okKind: can a result of this type tell about success? 1 bool, 2 error, 3
// diagnostics.
func okKind(t types.Type) int {
	switch {
	case isBool(t):
		return 1
	case isErrorType(t):
		return 2
	case isNamed(t, hclPath, "Diagnostics"):
		return 3
	}
	return 0
}

// assumeOK refines a state by the success of a companion result.
func (a *ffunc) assumeOK(st *fstate, v ssa.Value) *fstate {
	switch okKind(v.Type()) {
	case 1:
		return a.assume(st, v, true)
	case 2:
		return a.refine(st, v, fact{tAll, fNil, 0})
	case 3:
		return a.refine(st, v, fact{tAll, fFalse, 0})
	}
	return st
}

// isOK: is the companion result known to report success here?
func (a *ffunc) isOK(st *fstate, v ssa.Value) bool {
	x := a.get(st, v)
	switch okKind(v.Type()) {
	case 1:
		return x.has(fTrue)
	case 2:
		return x.has(fNil)
	case 3:
		return x.has(fFalse) || x.has(fNil)
	}
	return false
}

// analyse runs the dataflow over one function.
func (fs *facts) analyse(f *ssa.Function, entry *fstate) *ffunc {

	a := &ffunc{fs: fs, f: f, in: map[*ssa.BasicBlock]*fstate{}, edge: map[[2]*ssa.BasicBlock][]*fstate{}, out: map[*ssa.BasicBlock]*fstate{}, busy: map[ssa.Value]bool{}, stored: map[ssa.Value]bool{}, again: map[*ssa.BasicBlock]bool{}, busyPhi: map[*ssa.Phi]bool{}, loads: map[placeShape][]ssa.Value{}}
	if len(f.Blocks) == 0 {
		return a
	}
	if entry == nil {
		entry = newState()
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				a.closures = append(a.closures, mc)
			}
			switch in := in.(type) {
			case *ssa.Store:
				a.stored[in.Val] = true
			case *ssa.MapUpdate:
				a.stored[in.Value] = true
			case *ssa.UnOp:
				if sh, ok := shapeOf(in.X); ok && in.Op == token.MUL {
					a.loads[sh] = append(a.loads[sh], in)
				}
			case *ssa.Lookup:
				if in.CommaOk {
					if e := extractOf(in, 0); e != nil {
						a.lookups = append(a.lookups, e)
					}
				} else {
					a.lookups = append(a.lookups, in)
				}
			}
		}
	}
	a.headers = map[*ssa.BasicBlock]bool{}
	for _, l := range loopsOf(f) {
		a.headers[l.header] = true
		for b := range l.blocks {
			a.again[b] = true
		}
	}
	order := rpo(f)
	for round := 0; round < 40; round++ {
		changed := false
		for _, b := range order {
			var st *fstate
			if b == f.Blocks[0] {
				st = entry.clone()
			}
			if len(b.Preds) > 0 {
				st = joinStates(st, a.enter(b))
			}
			if b == f.Recover && st == nil {
				st = newState()
			}
			if old, ok := a.in[b]; ok && old.equal(st) && round > 0 {
				continue
			}
			a.in[b] = st
			changed = true
			if st == nil {
				a.out[b] = nil
				for _, s := range b.Succs {
					a.edge[[2]*ssa.BasicBlock{b, s}] = nil
				}
				continue
			}
			st = st.clone()
			for _, in := range b.Instrs {
				if st == nil {
					break
				}
				st = a.step(st, in)
			}
			a.out[b] = st
			for _, s := range b.Succs {
				delete(a.edge, [2]*ssa.BasicBlock{b, s})
			}
			for i, s := range b.Succs {
				var es *fstate
				if st != nil {
					es = st
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						es = a.assume(st.clone(), iff.Cond, i == 0)
					}
				}
				k := [2]*ssa.BasicBlock{b, s}
				a.edge[k] = append(a.edge[k], es)
			}
		}
		if !changed {
			break
		}
	}
	return a
}

// enter joins the states of the incoming edges and gives the phis their facts.
func (a *ffunc) enter(b *ssa.BasicBlock) *fstate {
	var res *fstate
	used := map[*ssa.BasicBlock]int{}
	for i, p := range b.Preds {
		es := a.edge[[2]*ssa.BasicBlock{p, b}]
		n := used[p]
		used[p]++
		if n >= len(es) || es[n] == nil {
			continue
		}
		res = joinStates(res, a.phis(es[n], b, i))
	}
	return res
}

// phis is the state after entering a block by its i-th incoming edge.
func (a *ffunc) phis(st *fstate, b *ssa.BasicBlock, i int) *fstate {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if len(phis) == 0 {
		return st
	}
	vals := make([]fact, len(phis))
	for j, ph := range phis {
		vals[j] = a.get(st, ph.Edges[i])
	}
	st = st.clone()
	for _, ph := range phis {
		a.kill(st, ph)
	}
	for j, ph := range phis {
		if a.paths && !a.headers[b] {
			st.put(fkey{ph, ""}, vals[j], ph.Edges[i])
		} else {
			st.set(fkey{ph, ""}, vals[j])
		}
	}
	return st
}

// pathwise judges an instruction path by path: does the test hold whichever
// way it is reached? This keeps correlations between conditions that the
// joined states have lost. Rounds of a loop are told apart by what is known
// about the variables that change in it and about storage.
func (a *ffunc) pathwise(in ssa.Instruction, test func(st *fstate) bool) bool {
	target := in.Block()
	toward := map[*ssa.BasicBlock]bool{target: true}
	for work := []*ssa.BasicBlock{target}; len(work) > 0; {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !toward[p] {
				toward[p] = true
				work = append(work, p)
			}
		}
	}
	rounds := map[*ssa.BasicBlock]map[string]*fstate{}
	budget := 20000
	a.paths = true
	defer func() { a.paths = false }()
	type start struct {
		b  *ssa.BasicBlock
		st *fstate
	}
	var starts []start
	loop := func(b *ssa.BasicBlock, st *fstate) {
		m := rounds[b]
		if m == nil {
			m = map[string]*fstate{}
			rounds[b] = m
		}
		if _, all := m["*"]; all {
			return
		}
		k := roundKey(b, st)
		if _, ok := m[k]; !ok && len(m) >= 64 {
			m["*"] = a.in[b]
			starts = append(starts, start{b, a.in[b]})
			return
		}
		n := joinStates(m[k], st)
		if m[k] != nil && n.equal(m[k]) {
			return
		}
		m[k] = n
		starts = append(starts, start{b, n})
	}
	var visit func(b *ssa.BasicBlock, st *fstate) bool
	visit = func(b *ssa.BasicBlock, st *fstate) bool {
		if budget--; budget < 0 {
			return false
		}
		st = st.clone()
		for _, x := range b.Instrs {
			if st == nil {
				return true
			}
			if x == in {
				if !test(st) {
					return false
				}
			}
			st = a.step(st, x)
		}
		if st == nil {
			return true
		}
		used := map[*ssa.BasicBlock]int{}
		for i, s := range b.Succs {
			nth := used[s]
			used[s]++
			if !toward[s] {
				continue
			}
			es := st
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				es = a.assume(st.clone(), iff.Cond, i == 0)
			}
			if es == nil {
				continue
			}
			j := -1
			for k, p := range s.Preds {
				if p == b {
					if nth == 0 {
						j = k
						break
					}
					nth--
				}
			}
			if a.headers[s] {
				loop(s, a.phis(es, s, j))
				continue
			}
			if !visit(s, a.phis(es, s, j)) {
				return false
			}
		}
		return true
	}
	for _, b := range a.f.Blocks {
		if toward[b] && a.in[b] != nil && (b == a.f.Blocks[0] || b == a.f.Recover) {
			if !visit(b, a.in[b]) {
				return false
			}
		}
	}
	for len(starts) > 0 {
		s := starts[len(starts)-1]
		starts = starts[:len(starts)-1]
		if !visit(s.b, s.st) {
			return false
		}
	}
	return true
}

// roundKey tells apart the states in which a loop is entered again.
func roundKey(b *ssa.BasicBlock, st *fstate) string {
	var l []string
	add := func(name string, x fact) {
		l = append(l, fmt.Sprintf("%s=%x.%v", name, x.flags&(fNil|fNonnil|fTrue|fFalse|fEmpty), x.minlen > 0))
	}
	for v, ps := range st.m {
		ph, isPhi := v.(*ssa.Phi)
		if in, ok := v.(ssa.Instruction); ok && b.Dominates(in.Block()) && !(isPhi && ph.Block() == b) {
			continue // computed anew
		}
		for _, p := range ps {
			if p.path != "" && !strings.Contains(p.path, "{") || isPhi && ph.Block() == b {
				add(v.Name()+p.path, p.x)
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// kill forgets a value that is computed anew.
func (a *ffunc) kill(s *fstate, v ssa.Value) {
	delete(s.m, v)
	if !a.stored[v] || !a.again[v.(ssa.Instruction).Block()] {
		return
	}
	for k, l := range s.m {
		for _, p := range l {
			if p.cell == v {
				s.put(fkey{k, p.path}, p.x, nil)
				break
			}
		}
	}
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
		post = append(post, b)
	}
	walk(f.Blocks[0])
	if f.Recover != nil {
		walk(f.Recover)
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// walk visits every reached instruction with the state before it.
func (a *ffunc) walk(cb func(st *fstate, in ssa.Instruction)) {
	for _, b := range a.f.Blocks {
		st := a.in[b]
		if st == nil {
			continue
		}
		st = st.clone()
		for _, in := range b.Instrs {
			if st == nil {
				break
			}
			cb(st, in)
			st = a.step(st, in)
		}
	}
}

// step is the effect of one instruction.
func (a *ffunc) step(st *fstate, in ssa.Instruction) *fstate {
	switch in := in.(type) {
	case *ssa.Phi:
		return st
	case *ssa.Store:
		k := a.addrKey(st, in.Addr)
		x := a.get(st, in.Val)
		if sh, ok := shapeOf(in.Addr); ok {
			a.detach(st, sh, k)
		}
		st.forget(k) // with its parts
		if _, ok := isLoad(in.Val); ok {
			st.put(k, x, nil)
		} else {
			st.put(k, x, in.Val)
		}
		return st
	case *ssa.Alloc:
		a.kill(st, in)
		st.set(fkey{in, "*"}, zeroFact(derefType(in.Type())))
		return st
	case *ssa.MapUpdate:
		a.dropEntries(st)
		k := a.valKey(st, in.Map)
		x, _ := st.at(k)
		x.flags &^= fEmpty
		x.minlen = max8(x.minlen, 1)
		st.set(k, x.norm())
		if k, ok := a.entryKey(st, in.Map, in.Key); ok {
			v := in.Value
			if _, ok := isLoad(v); ok {
				v = nil
			}
			st.put(k, a.get(st, in.Value), v)
		}
		return st
	case *ssa.Range:
		a.kill(st, in)
		st.set(fkey{in, "first"}, topFact)
		return st
	case *ssa.Panic:
		return nil
	case ssa.CallInstruction:
		if v, ok := in.(ssa.Value); ok {
			a.kill(st, v)
		}
		a.callEffects(st, in.Common())
		if d, ok := in.Common().Value.(*ssa.Builtin); ok && d.Name() == "delete" {
			k := a.valKey(st, in.Common().Args[0])
			if x, ok := st.at(k); ok {
				x.minlen = 0
				st.set(k, x)
			}
		}
		if g := in.Common().StaticCallee(); g != nil {
			if g.String() == "os.Exit" || g.String() == "log.Fatal" || g.String() == "log.Fatalf" {
				return nil
			}
			if rs := a.fs.rets[g]; a.fs.p.InRepo(g) && len(g.Blocks) > 0 && !a.fs.solving && !returns(g) {
				_ = rs
				return nil
			}
		}
		return st
	}
	if v, ok := in.(ssa.Value); ok {
		a.kill(st, v)
	}
	return st
}

// entryKey names an entry of a map.
func (a *ffunc) entryKey(st *fstate, m, key ssa.Value) (fkey, bool) {
	if _, ok := m.Type().Underlying().(*types.Map); !ok {
		return fkey{}, false
	}
	k := a.valKey(st, m)
	if c, ok := key.(*ssa.Const); ok {
		if c.Value == nil {
			return fkey{}, false
		}
		return fkey{k.root, k.path + "{" + c.Value.ExactString() + "}"}, true
	}
	kk := a.valKey(st, key)
	if kk.root.Parent() != a.f {
		return fkey{}, false
	}
	return fkey{k.root, k.path + "{" + kk.root.Name() + kk.path + "}"}, true
}

// dropEntries forgets what is known about the entries of maps.
func (a *ffunc) dropEntries(st *fstate) {
	if a.lookups == nil {
		return
	}
	for _, v := range a.lookups {
		if st.find(fkey{v, ""}) == nil {
			if x, ok := st.at(a.valKey(st, v)); ok {
				st.put(fkey{v, ""}, x, nil)
			}
		}
	}
	for v, l := range st.m {
		for i := range l {
			if strings.Contains(l[i].path, "{") {
				var n []pfact
				for _, p := range l {
					if !strings.Contains(p.path, "{") {
						n = append(n, p)
					}
				}
				if n == nil {
					delete(st.m, v)
				} else {
					st.m[v] = n
				}
				break
			}
		}
	}
}

// returns: does the function have a return that can be reached at all?
func returns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// callEffects drops what a closure may have changed.
func (a *ffunc) callEffects(st *fstate, cc *ssa.CallCommon) {
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		a.dropEntries(st)
	}
	// variables assigned by closures of this function
	drop := func(fn *ssa.Function, bindings []ssa.Value) {
		for i, fv := range fn.FreeVars {
			if i >= len(bindings) || !storesTo(fn, fv) {
				continue
			}
			st.forget(fkey{bindings[i], "*"})
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		drop(mc.Fn.(*ssa.Function), mc.Bindings)
		return
	}
	for _, mc := range a.closures {
		if cc.StaticCallee() == nil || passes(cc, mc) {
			drop(mc.Fn.(*ssa.Function), mc.Bindings)
		}
	}
	// places whose address is given to the callee
	for _, arg := range cc.Args {
		if al, ok := arg.(*ssa.Alloc); ok {
			st.forget(fkey{al, "*"})
		}
	}
}

func passes(cc *ssa.CallCommon, mc *ssa.MakeClosure) bool {
	for _, arg := range cc.Args {
		if strip(arg) == ssa.Value(mc) {
			return true
		}
	}
	return false
}

func storesTo(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == ssa.Value(fv) {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == ssa.Value(fv) && storesTo(g, g.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func zeroFact(t types.Type) fact {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return fact{tAll, fNil, 0}
	case *types.Slice:
		if isNamed(t, hclPath, "Diagnostics") {
			return fact{tAll, fNil | fFalse, 0}
		}
		return fact{tAll, fNil, 0}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return fact{tAll, fFalse, 0}
		}
	case *types.Array:
		return fact{tAll, fNonnil, clampLen(int(u.Len()))}
	}
	return anyFact
}

func clampLen(n int) uint8 {
	if n < 0 {
		return 0
	}
	if n > maxLen {
		return maxLen
	}
	return uint8(n)
}

// addrKey names the place an address designates.
func (a *ffunc) addrKey(st *fstate, addr ssa.Value) fkey {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k := a.valKey(st, x.X)
		return fkey{k.root, k.path + "." + strconv.Itoa(x.Field)}
	case *ssa.IndexAddr:
		if n, ok := constInt(x.Index); ok && n < 32 {
			c := x.Index.(*ssa.Const)
			k := a.valKey(st, x.X)
			return fkey{k.root, k.path + "[" + c.Value.ExactString() + "]"}
		}
		return fkey{x, "*"}
	}
	k := a.valKey(st, addr)
	return fkey{k.root, k.path + "*"}
}

// valKey names a value; different instructions reading the same place give the
// same name.
func (a *ffunc) valKey(st *fstate, v ssa.Value) fkey {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return a.valKey(st, x.X)
	case *ssa.ChangeInterface:
		return a.valKey(st, x.X)
	case *ssa.MakeInterface:
		return a.valKey(st, x.X)
	case *ssa.Lookup:
		if x.CommaOk || st.find(fkey{v, ""}) != nil {
			break
		}
		if k, ok := a.entryKey(st, x.X, x.Index); ok {
			return k
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && st.find(fkey{v, ""}) == nil {
			if k, ok := a.entryKey(st, l.X, l.Index); ok {
				return k
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if st.find(fkey{v, ""}) != nil {
				break // the place has changed since
			}
			k := a.addrKey(st, x.X)
			if w := st.cell(k); w != nil && w != v {
				return a.valKey(st, w)
			}
			return k
		}
	case *ssa.Phi:
		if a.paths {
			if w := st.cell(fkey{x, ""}); w != nil && w != v {
				return a.valKey(st, w)
			}
		}
	case *ssa.Field:
		k := a.valKey(st, x.X)
		return fkey{k.root, k.path + "." + strconv.Itoa(x.Field)}
	case *ssa.Call:
		if isCtyMethod(&x.Call, "Value", "Type") {
			return a.valKey(st, x.Call.Args[0])
		}
	}
	return fkey{v, ""}
}

// isCtyMethod: a call of the method of cty.Value or cty.Type.
func isCtyMethod(cc *ssa.CallCommon, typ string, names ...string) bool {
	g := cc.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != ctyPath || g.Signature.Recv() == nil {
		return false
	}
	n, ok := g.Signature.Recv().Type().(*types.Named)
	if !ok || n.Obj().Name() != typ {
		return false
	}
	for _, m := range names {
		if g.Name() == m {
			return true
		}
	}
	return len(names) == 0
}

func isConvert(v ssa.Value) (*ssa.Call, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	g := c.Call.StaticCallee()
	return c, g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == ctyPath+"/convert" && g.Name() == "Convert"
}

// get is what is known about a value in a state.
func (a *ffunc) get(st *fstate, v ssa.Value) fact {
	if a.busy[v] {
		return anyFact
	}
	a.busy[v] = true
	defer delete(a.busy, v)
	k := a.valKey(st, v)
	x := topFact
	if k.root == v || k.path != "" {
		x = a.intrinsic(st, v)
	} else {
		x = a.get(st, k.root)
	}
	if y, ok := st.at(k); ok {
		x = x.meet(y)
	}
	if !nilable(v.Type()) {
		x.mask &= tTypes
	}
	return x.norm()
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return true
	}
	return false
}

func (a *ffunc) intrinsic(st *fstate, v ssa.Value) fact {
	fs := a.fs
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroFact(x.Type())
		}
		switch x.Value.Kind() {
		case constant.String:
			return fact{tAll, 0, clampLen(len(constant.StringVal(x.Value)))}
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return fact{tAll, fTrue, 0}
			}
			return fact{tAll, fFalse, 0}
		}
	case *ssa.Alloc:
		n := uint8(0)
		if at, ok := derefType(x.Type()).Underlying().(*types.Array); ok {
			n = clampLen(int(at.Len()))
		}
		return fact{tAll, fNonnil, n}
	case *ssa.MakeSlice:
		n := 0
		if c, ok := x.Len.(*ssa.Const); ok {
			n = int(c.Int64())
		} else if s, k := lenOf(x.Len); s != nil {
			n = int(a.get(st, s).minlen) + k
		}
		return fact{tAll, fNonnil, clampLen(n)}
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
		return fact{tAll, fNonnil, 0}
	case *ssa.MakeInterface:
		r := a.get(st, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			r = r.meet(fact{tAll, fNonnil, 0})
			r.flags &^= fNil
		}
		return r
	case *ssa.ChangeType:
		return a.get(st, x.X)
	case *ssa.ChangeInterface:
		return a.get(st, x.X)
	case *ssa.Convert:
		if isBytesOrString(x.Type()) && isBytesOrString(x.X.Type()) {
			return fact{tAll, 0, a.get(st, x.X).minlen}
		}
	case *ssa.Slice:
		return a.sliceFact(st, x)
	case *ssa.Parameter:
		if f, ok := fs.params[x]; ok {
			return f
		}
	case *ssa.FreeVar:
		return fact{tAll, fNonnil, 0}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return flip(a.get(st, x.X))
		}
		if x.Op != token.MUL {
			break
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if f, ok := ctyGlobal(g); ok {
				return f
			}
			if g.Name() == "Args" && g.Pkg.Pkg.Path() == "os" {
				return fact{tAll, fNonnil, 1}
			}
			if w := fs.globals[g]; w != nil {
				if c, ok := w.(*ssa.Call); ok {
					return a.result(newState(), c, 0)
				}
				if _, ok := w.(*ssa.Const); !ok {
					return fact{tAll, a.get(newState(), w).flags & fNonnil, a.get(newState(), w).minlen}
				}
			}
			return anyFact
		}
		if id, ok := fs.fieldOf(x.X); ok {
			if f, ok := fs.fields[id]; ok {
				return f
			}
			if fs.solving {
				return botFact
			}
		} else if id, ok := namedField(x.X); ok && chained(id) {
			return topFact
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return a.elemFact(st, ia.X, ia.Index)
		}
		if _, ok := st.at(a.valKey(st, v)); ok {
			return topFact
		}
	case *ssa.Phi:
		return topFact
	case *ssa.Lookup:
		if !x.CommaOk && nilable(x.Type()) {
			return topFact
		}
	case *ssa.Field:
		if id, ok := fs.fieldID(x.X.Type(), x.Field); ok {
			if f, ok := fs.fields[id]; ok {
				return f
			}
			if fs.solving {
				return botFact
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isBytesOrString(x.Type()) {
			return fact{tAll, 0, clampLen(int(a.get(st, x.X).minlen) + int(a.get(st, x.Y).minlen))}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return fact{tAll, fNonnil, 0}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return a.result(st, t, x.Index)
		case *ssa.TypeAssert:
			if x.Index == 0 {
				if ok := extractOf(t, 1); ok != nil && a.get(st, ok).has(fTrue) {
					return fact{tAll, fNonnil, 0}
				}
				return topFact
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				if ok := extractOf(t, 1); ok != nil && a.get(st, ok).has(fTrue) {
					return fact{tAll, fNonnil, 0}
				}
				return topFact
			}
		}
	case *ssa.Call:
		return a.result(st, x, 0)
	}
	return anyFact
}

func flip(x fact) fact {
	r := fact{tAll, 0, 0}
	if x.has(fTrue) {
		r.flags |= fFalse
	}
	if x.has(fFalse) {
		r.flags |= fTrue
	}
	return r
}

func isBytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func extractOf(tuple ssa.Value, i int) *ssa.Extract {
	for _, r := range *tuple.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// lenOf recognises len(x)+k.
func lenOf(v ssa.Value) (ssa.Value, int) {
	switch x := v.(type) {
	case *ssa.Call:
		if c, ok := isBuiltin(x, "len"); ok {
			return c.Call.Args[0], 0
		}
		if g := x.Call.StaticCallee(); g != nil && lenMethod(g) {
			return x.Call.Args[0], 0
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			s, k := lenOf(x.X)
			if s == nil {
				return nil, 0
			}
			n := int(c.Int64())
			switch x.Op {
			case token.ADD:
				return s, k + n
			case token.SUB:
				return s, k - n
			}
		}
		if c, ok := x.X.(*ssa.Const); ok && c.Value != nil && x.Op == token.ADD && c.Value.Kind() == constant.Int {
			if s, k := lenOf(x.Y); s != nil {
				return s, k + int(c.Int64())
			}
		}
	}
	return nil, 0
}

// lenMethod: a method of a struct that gives the length of one of its fields.
// The length is then taken for that of the struct, whose sequences are kept
// in parallel.
func lenMethod(g *ssa.Function) bool {
	if g.Signature.Recv() == nil || g.Name() != "Len" || len(g.Params) != 1 || len(g.Blocks) != 1 {
		return false
	}
	if _, ok := g.Params[0].Type().Underlying().(*types.Struct); !ok {
		return false
	}
	ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	c, ok := ret.Results[0].(*ssa.Call)
	if ok {
		_, ok = isBuiltin(c, "len")
	}
	return ok
}

// seqMethod: a method of a struct with a length that gives one of its
// sequences.
func seqMethod(g *ssa.Function) bool {
	if g.Signature.Recv() == nil || len(g.Params) != 1 || len(g.Blocks) != 1 || g.Signature.Results().Len() != 1 {
		return false
	}
	if _, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	n, ok := g.Params[0].Type().(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := g.Prog.FuncValue(n.Method(i)); m != nil && lenMethod(m) {
			return true
		}
	}
	return false
}

func constInt(v ssa.Value) (int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(c.Value)
	return int(n), exact
}

func (a *ffunc) sliceFact(st *fstate, x *ssa.Slice) fact {
	base := a.get(st, x.X)
	bl := int(base.minlen)
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			bl = int(at.Len())
		}
	}
	lo := 0
	if x.Low != nil {
		n, ok := constInt(x.Low)
		if !ok {
			if s, k := lenOf(x.Low); s != nil && k <= 0 && a.sameSeq(st, s, x.X) && x.High == nil {
				if -k <= bl {
					return fact{tAll, base.flags & fNonnil, clampLen(-k)}
				}
			}
			return fact{tAll, base.flags & fNonnil, 0}
		}
		lo = n
	}
	hi := bl
	if x.High != nil {
		if n, ok := constInt(x.High); ok {
			hi = n
		} else if s, k := lenOf(x.High); s != nil && a.sameSeq(st, s, x.X) {
			hi = bl + k
		} else {
			hi = lo
		}
	}
	r := fact{tAll, base.flags & fNonnil, clampLen(hi - lo)}
	if isNamed(x.Type(), hclPath, "Diagnostics") {
		r.flags |= a.diagLit(x)
	}
	return r
}

// diagLit: a literal list of diagnostics with an error among them contains
// errors.
func (a *ffunc) diagLit(x *ssa.Slice) uint16 {
	arr, ok := x.X.(*ssa.Alloc)
	if !ok {
		return 0
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && errorDiag(s.Val) {
				return fTrue
			}
		}
	}
	return 0
}

// errorDiag: the diagnostic is constructed with error severity.
func errorDiag(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fieldName(fa) != "Diagnostic.Severity" {
			continue
		}
		for _, rr := range *fa.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				if n, ok := constInt(s.Val); ok && n == 1 {
					return true
				}
			}
		}
	}
	return false
}

// sameSeq: do two values name the same sequence?
func (a *ffunc) sameSeq(st *fstate, x, y ssa.Value) bool {
	return x == y || a.valKey(st, x) == a.valKey(st, y)
}

// elemFact: what is known of an element of a sequence.
func (a *ffunc) elemFact(st *fstate, seq, idx ssa.Value) fact {
	return anyFact
}

var ctyGlobals = map[string]fact{
	"String":            {tString, 0, 0},
	"Number":            {tNumber, 0, 0},
	"Bool":              {tBool, 0, 0},
	"DynamicPseudoType": {tDyn, 0, 0},
	"EmptyTuple":        {tTuple, 0, 0},
	"EmptyObject":       {tObject, 0, 0},
	"DynamicVal":        {tDyn, fNonnull, 0},
	"True":              {tBool, fKnown | fNonnull | fWhole | fTrue, 0},
	"False":             {tBool, fKnown | fNonnull | fWhole | fFalse, 0},
	"Zero":              {tNumber, fKnown | fNonnull | fWhole, 0},
	"PositiveInfinity":  {tNumber, fKnown | fNonnull | fWhole, 0},
	"NegativeInfinity":  {tNumber, fKnown | fNonnull | fWhole, 0},
	"EmptyObjectVal":    {tObject, fKnown | fNonnull | fWhole, 0},
	"EmptyTupleVal":     {tTuple, fKnown | fNonnull | fWhole, 0},
}

func ctyGlobal(g *ssa.Global) (fact, bool) {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != ctyPath {
		return anyFact, false
	}
	f, ok := ctyGlobals[g.Name()]
	return f, ok
}

var ctyFuncs = map[string]fact{
	"StringVal":       {tString, fKnown | fNonnull | fWhole, 0},
	"NumberVal":       {tNumber, fKnown | fNonnull | fWhole, 0},
	"NumberIntVal":    {tNumber, fKnown | fNonnull | fWhole, 0},
	"NumberUIntVal":   {tNumber, fKnown | fNonnull | fWhole, 0},
	"NumberFloatVal":  {tNumber, fKnown | fNonnull | fWhole, 0},
	"BoolVal":         {tBool, fKnown | fNonnull | fWhole, 0},
	"ObjectVal":       {tObject, fKnown | fNonnull, 0},
	"TupleVal":        {tTuple, fKnown | fNonnull, 0},
	"ListVal":         {tList, fKnown | fNonnull, 0},
	"ListValEmpty":    {tList, fKnown | fNonnull | fWhole, 0},
	"MapVal":          {tMap, fKnown | fNonnull, 0},
	"MapValEmpty":     {tMap, fKnown | fNonnull | fWhole, 0},
	"SetVal":          {tSet, fKnown | fNonnull, 0},
	"SetValEmpty":     {tSet, fKnown | fNonnull | fWhole, 0},
	"CapsuleVal":      {tCapsule, fKnown | fNonnull | fWhole, 0},
	"List":            {tList, 0, 0},
	"Set":             {tSet, 0, 0},
	"Map":             {tMap, 0, 0},
	"Tuple":           {tTuple, 0, 0},
	"Object":          {tObject, 0, 0},
	"Capsule":         {tCapsule, 0, 0},
	"ParseNumberVal":  {tNumber, fKnown | fNonnull | fWhole, 0}, // with a nil error
	"NumberIntValBig": {tNumber, fKnown | fNonnull | fWhole, 0},
}

// result is what is known about a result of a call.
func (a *ffunc) result(st *fstate, c *ssa.Call, idx int) fact {
	fs := a.fs
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			x := a.get(st, cc.Args[0])
			y := a.get(st, cc.Args[1])
			r := fact{tAll, (x.flags | y.flags) & (fTrue | fNonnil), clampLen(int(x.minlen) + int(y.minlen))}
			if x.has(fFalse) && y.has(fFalse) {
				r.flags |= fFalse
			}
			if isNamed(c.Type(), hclPath, "Diagnostics") {
				if s, ok := cc.Args[1].(*ssa.Slice); ok {
					r.flags |= a.diagLit(s)
				}
			} else {
				r.flags &^= fTrue | fFalse
			}
			return r
		}
		return anyFact
	}
	if cc.IsInvoke() {
		if cc.Method.Name() == "Element" && isNamed(cc.Value.Type(), ctyPath, "ElementIterator") && idx == 0 {
			if it, ok := cc.Value.(*ssa.Call); ok && isCtyMethod(&it.Call, "Value", "ElementIterator") {
				coll := a.get(st, it.Call.Args[0])
				r := fact{0, fKnown | fNonnull, 0}
				if coll.mask&(tMap|tObject) != 0 {
					r.mask |= tString
				}
				if coll.mask&(tList|tTuple) != 0 {
					r.mask |= tNumber
				}
				if coll.mask&tSet != 0 || coll.mask&^tIter != 0 {
					r = anyFact
				}
				return r
			}
		}
		return a.invoked(st, c, idx)
	}
	g := cc.StaticCallee()
	if g == nil {
		return anyFact
	}
	if g.Pkg != nil {
		switch g.Pkg.Pkg.Path() {
		case ctyPath:
			return a.ctyResult(st, c, g, idx)
		case ctyPath + "/convert":
			if g.Name() == "Convert" && idx == 0 {
				in := a.get(st, cc.Args[0])
				r := fact{tAll, in.flags & (fKnown | fNonnull | fWhole), 0}
				if e := extractOf(c, 1); e != nil && a.get(st, e).has(fNil) {
					want := a.get(st, cc.Args[1])
					r.mask = want.mask
					if want.mask&tDyn != 0 {
						r.mask = tAll // any type stays as it is
					}
				}
				return r
			}
			if (g.Name() == "Unify" || g.Name() == "UnifyUnsafe") && idx == 1 {
				// one conversion for each type, if there is a common type
				if e := extractOf(c, 0); e != nil && a.get(st, e).has(fNonnil) {
					return fact{tAll, 0, a.get(st, cc.Args[0]).minlen}
				}
			}
			return anyFact
		case "fmt":
			if g.Name() == "Sprintf" || g.Name() == "Errorf" {
				return fact{tAll, fNonnil, 0}
			}
		case "errors":
			return fact{tAll, fNonnil, 0}
		case "path/filepath":
			if g.Name() == "Base" {
				return fact{tAll, 0, 1}
			}
		}
		if strings.HasSuffix(g.Pkg.Pkg.Path(), "textseg/textseg") && g.Name() == "ScanGraphemeClusters" && idx == 1 {
			// something is scanned when there is something to scan and no more to come
			if a.get(st, cc.Args[0]).minlen > 0 && a.get(st, cc.Args[1]).has(fTrue) {
				return fact{tAll, fNonnil, 1}
			}
		}
	}
	if !fs.p.InRepo(g) || len(g.Blocks) == 0 {
		res := g.Signature.Results()
		if n := res.Len(); n > 1 && idx < n-1 && isErrorType(res.At(n-1).Type()) {
			// nothing is returned along with an error
			if e := extractOf(c, n-1); e == nil || !a.isOK(st, e) {
				return topFact
			}
		}
		return anyFact
	}
	// small methods of the diagnostics type
	if g.Signature.Recv() != nil && isNamed(g.Signature.Recv().Type(), hclPath, "Diagnostics") {
		switch g.Name() {
		case "Append":
			r := fact{tAll, a.get(st, cc.Args[0]).flags & fTrue, 1}
			if errorDiag(cc.Args[1]) {
				r.flags |= fTrue
			}
			return r
		case "Extend":
			x, y := a.get(st, cc.Args[0]), a.get(st, cc.Args[1])
			return fact{tAll, (x.flags|y.flags)&fTrue | x.flags&y.flags&fFalse, clampLen(int(x.minlen) + int(y.minlen))}
		}
	}
	rs := fs.rets[g]
	if idx >= len(rs) {
		return anyFact
	}
	r := rs[idx]
	if rs[idx].bot() && !fs.solving {
		r = anyFact
	}
	if seqMethod(g) {
		r = r.meet(fact{tAll, 0, a.get(st, cc.Args[0]).minlen})
	}
	for k, x := range fs.condRets[g] {
		if k[0] != idx {
			continue
		}
		if e := extractOf(c, k[1]); e != nil && a.isOK(st, e) {
			if !x.bot() || fs.solving {
				r = r.meet(x)
			}
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && !fs.solving && fs.depth < 3 {
		if x := a.closureResult(st, mc, g, cc, idx); !x.bot() {
			r = r.meet(x)
		}
	}
	return r
}

// invoked is what is known about a result of an interface method: whether
// any of the repository's implementations can yield nil.
func (a *ffunc) invoked(st *fstate, c *ssa.Call, idx int) fact {
	fs := a.fs
	if !nilable(c.Call.Signature().Results().At(idx).Type()) {
		return anyFact
	}
	for _, g := range fs.p.Callees(&c.Call) {
		if !fs.p.InRepo(g) || len(g.Blocks) == 0 || idx >= len(fs.rets[g]) {
			continue
		}
		r := fs.rets[g][idx]
		for k, x := range fs.condRets[g] {
			if k[0] == idx {
				if e := extractOf(c, k[1]); e != nil && a.isOK(st, e) && (!x.bot() || fs.solving) {
					r = r.meet(x)
				}
			}
		}
		if !r.bot() && r.mask&tNilEv != 0 {
			return topFact
		}
	}
	return anyFact
}

// closureResult analyses a closure with what is known where it is called.
func (a *ffunc) closureResult(st *fstate, mc *ssa.MakeClosure, g *ssa.Function, cc *ssa.CallCommon, idx int) fact {
	fs := a.fs
	fs.depth++
	defer func() { fs.depth-- }()
	entry := newState()
	for i, fv := range g.FreeVars {
		if i >= len(mc.Bindings) {
			continue
		}
		b := mc.Bindings[i]
		if l, ok := st.m[b]; ok {
			entry.m[fv] = l
		}
		k := fkey{b, "*"}
		if w := st.cell(k); w != nil {
			x := a.get(st, w)
			if old, ok := entry.at(fkey{fv, "*"}); ok {
				x = x.meet(old)
			}
			entry.set(fkey{fv, "*"}, x)
		}
	}
	for i, pa := range g.Params {
		if i < len(cc.Args) {
			entry.set(fkey{pa, ""}, a.get(st, cc.Args[i]))
		}
	}
	b := fs.analyse(g, entry)
	r := botFact
	b.walk(func(s *fstate, in ssa.Instruction) {
		if ret, ok := in.(*ssa.Return); ok && idx < len(ret.Results) {
			r = r.join(b.get(s, ret.Results[idx]))
		}
	})
	return r
}

func (a *ffunc) ctyResult(st *fstate, c *ssa.Call, g *ssa.Function, idx int) fact {
	cc := &c.Call
	if g.Signature.Recv() == nil {
		switch g.Name() {
		case "UnknownVal":
			return fact{a.get(st, cc.Args[0]).mask, fNonnull, 0}
		case "NullVal":
			return fact{a.get(st, cc.Args[0]).mask, fKnown, 0}
		}
		if f, ok := ctyFuncs[g.Name()]; ok && idx == 0 {
			return f
		}
		return anyFact
	}
	if isCtyMethod(cc, "Value", "Type") {
		// named like the value: only the type part applies
		return fact{a.get(st, cc.Args[0]).mask, 0, 0}
	}
	if isCtyMethod(cc, "Value", "HasIndex") {
		r := fact{tBool, fNonnull, 0}
		if a.get(st, cc.Args[0]).has(fKnown) && a.get(st, cc.Args[1]).has(fKnown) {
			r.flags |= fKnown
		}
		return r
	}
	if isCtyMethod(cc, "Value", "Equals", "NotEqual", "LessThan", "GreaterThan", "LessThanOrEqualTo", "GreaterThanOrEqualTo", "Not", "And", "Or") {
		return fact{tBool, fNonnull, 0}
	}
	return anyFact
}

// refine adds a fact about a value.
func (a *ffunc) refine(st *fstate, v ssa.Value, x fact) *fstate {
	if st == nil {
		return nil
	}
	n := a.get(st, v).meet(x)
	if n.bot() {
		return nil
	}
	k := a.valKey(st, v)
	if c, ok := k.root.(*ssa.Const); ok && c != nil {
		return st
	}
	old, _ := st.at(k)
	st.set(k, old.meet(x))
	// the argument of a conversion is as known and as null as its result
	if e, ok := k.root.(*ssa.Extract); ok && k.path == "" && e.Index == 0 {
		if c, ok := isConvert(e.Tuple); ok && x.flags&(fKnown|fNonnull) != 0 {
			if e1 := extractOf(c, 1); e1 != nil && a.get(st, e1).has(fNil) {
				return a.refine(st, c.Call.Args[0], fact{tAll, x.flags & (fKnown | fNonnull), 0})
			}
		}
	}
	// success joined from several ways: only along those that allow it
	if ph, ok := k.root.(*ssa.Phi); ok && k.path == "" && okKind(ph.Type()) >= 2 && x.flags&(fFalse|fNil) != 0 {
		return a.viaEdges(st, ph, func(es *fstate, v ssa.Value) *fstate { return a.refine(es, v, x) })
	}
	// no errors in the whole: none in the parts
	if c, ok := k.root.(*ssa.Call); ok && k.path == "" && x.has(fFalse) && isNamed(c.Type(), hclPath, "Diagnostics") {
		if _, ok := isBuiltin(c, "append"); ok {
			if st = a.refine(st, c.Call.Args[0], fact{tAll, fFalse, 0}); st == nil {
				return nil
			}
			if a.diagLitOf(c.Call.Args[1])&fTrue != 0 {
				return nil
			}
			return a.refine(st, c.Call.Args[1], fact{tAll, fFalse, 0})
		}
		if g := c.Call.StaticCallee(); g != nil && g.Name() == "Extend" && len(c.Call.Args) == 2 {
			if st = a.refine(st, c.Call.Args[0], fact{tAll, fFalse, 0}); st == nil {
				return nil
			}
			return a.refine(st, c.Call.Args[1], fact{tAll, fFalse, 0})
		}
	}
	return st
}

func (a *ffunc) diagLitOf(v ssa.Value) uint16 {
	if s, ok := v.(*ssa.Slice); ok {
		return a.diagLit(s)
	}
	return 0
}

// assume refines a state by the outcome of a condition; nil when it cannot
// have that outcome.
func (a *ffunc) assume(st *fstate, cond ssa.Value, truth bool) *fstate {
	if st == nil {
		return nil
	}
	outcome := fact{tAll, fFalse, 0}
	if truth {
		outcome.flags = fTrue
	}
	x := a.get(st, cond)
	if x.meet(outcome).bot() {
		return nil
	}
	switch c := cond.(type) {
	case *ssa.Const:
		return st
	case *ssa.Extract:
		switch t := c.Tuple.(type) {
		case *ssa.Lookup:
			if truth && c.Index == 1 {
				if st = a.refine(st, t.X, fact{tAll, 0, 1}); st == nil {
					return nil
				}
				if k, ok := a.entryKey(st, t.X, t.Index); ok && nilable(t.Type().(*types.Tuple).At(0).Type()) {
					x, _ := st.at(k)
					st.set(k, x.meet(fact{tAll, fNonnil, 0}))
				}
			}
		case *ssa.Next:
			r, ok := t.Iter.(*ssa.Range)
			if !ok || c.Index != 0 {
				break
			}
			if truth {
				delete(st.m, r)
				if st = a.refine(st, r.X, fact{tAll, 0, 1}); st == nil {
					return nil
				}
			} else if st.find(fkey{r, "first"}) != nil {
				if a.get(st, r.X).minlen > 0 {
					return nil
				}
			}
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return a.assume(st, c.X, !truth)
		}
	case *ssa.Phi:
		st = a.assumePhi(st, c, truth)
		if st == nil {
			return nil
		}
	case *ssa.BinOp:
		st = a.assumeCmp(st, c, truth)
		if st == nil {
			return nil
		}
	case *ssa.Call:
		st = a.assumeCall(st, c, truth)
		if st == nil {
			return nil
		}
	}
	// a place holding a condition stands for the condition stored there
	if u, ok := isLoad(cond); ok {
		if w := st.cell(a.addrKey(st, u.X)); w != nil && w != cond {
			if _, isLoad2 := isLoad(w); !isLoad2 {
				st = a.assume(st, w, truth)
				if st == nil {
					return nil
				}
			}
		}
	}
	return a.refine(st, cond, outcome)
}

// assumePhi: a joined condition has the outcome only along some of the ways it
// is joined from; what holds along all of these holds.
func (a *ffunc) assumePhi(st *fstate, ph *ssa.Phi, truth bool) *fstate {
	return a.viaEdges(st, ph, func(es *fstate, v ssa.Value) *fstate { return a.assume(es, v, truth) })
}

func (a *ffunc) viaEdges(st *fstate, ph *ssa.Phi, with func(*fstate, ssa.Value) *fstate) *fstate {
	if a.busyPhi[ph] {
		return st
	}
	a.busyPhi[ph] = true
	defer delete(a.busyPhi, ph)
	b := ph.Block()
	used := map[*ssa.BasicBlock]int{}
	var j *fstate
	for i, p := range b.Preds {
		es := a.edge[[2]*ssa.BasicBlock{p, b}]
		n := used[p]
		used[p]++
		if n >= len(es) || es[n] == nil {
			continue
		}
		j = joinStates(j, with(es[n].clone(), ph.Edges[i]))
	}
	if j == nil {
		return nil
	}
	for root, l := range j.m {
		if in, ok := root.(ssa.Instruction); ok {
			if in.Block() == nil || !in.Block().Dominates(b) || in == ssa.Instruction(ph) {
				continue
			}
			if ph2, ok := in.(*ssa.Phi); ok && ph2.Block() == b {
				continue
			}
		}
		for _, p := range l {
			k := fkey{root, p.path}
			old, ok := st.at(k)
			if !ok && k.path != "" {
				// a place may have been written since
				_, isParam := root.(*ssa.Parameter)
				_, isAlloc := root.(*ssa.Alloc)
				if !isParam && !isAlloc {
					continue
				}
			}
			m := old.meet(p.x)
			if m.bot() {
				return nil
			}
			st.set(k, m)
		}
	}
	return st
}

func isCtyType(t types.Type) bool { return isNamed(t, ctyPath, "Type") }

func (a *ffunc) assumeCmp(st *fstate, c *ssa.BinOp, truth bool) *fstate {
	op := c.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		}
	}
	if isCtyType(c.X.Type()) {
		for _, pair := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if u, ok := isLoad(pair[1]); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "NilType" && g.Pkg.Pkg.Path() == ctyPath {
					if op == token.NEQ {
						return a.refine(st, pair[0], fact{tAll, fNonnil, 0})
					}
					return a.refine(st, pair[0], fact{tAll, fNil, 0})
				}
			}
		}
		if op == token.EQL || op == token.NEQ {
			return a.assumeType(st, c.X, c.Y, op == token.EQL)
		}
		return st
	}
	if a.paths && (op == token.EQL || op == token.NEQ) {
		if st = a.assumeConst(st, c.X, c.Y, op == token.EQL); st == nil {
			return nil
		}
	}
	// comparison with nil
	for _, pair := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
		if k, ok := pair[1].(*ssa.Const); ok && k.Value == nil && isNilable(k.Type()) {
			switch op {
			case token.EQL:
				fl := fNil
				if isNamed(pair[0].Type(), hclPath, "Diagnostics") {
					fl |= fFalse
				}
				return a.refine(st, pair[0], fact{tAll, fl, 0})
			case token.NEQ:
				return a.refine(st, pair[0], fact{tAll, fNonnil, 0})
			}
			return st
		}
		// comparison with a boolean
		if k, ok := pair[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			want := constant.BoolVal(k.Value)
			switch op {
			case token.EQL:
				return a.assume(st, pair[0], want)
			case token.NEQ:
				return a.assume(st, pair[0], !want)
			}
		}
		// comparison with the empty string
		if k, ok := pair[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			s := constant.StringVal(k.Value)
			if op == token.EQL && s != "" {
				return a.refine(st, pair[0], fact{tAll, 0, clampLen(len(s))})
			}
			if op == token.NEQ && s == "" {
				return a.refine(st, pair[0], fact{tAll, 0, 1})
			}
			return st
		}
	}
	// equality of two pointers or booleans
	if op == token.EQL && isBool(c.X.Type()) {
		x, y := a.get(st, c.X), a.get(st, c.Y)
		if x.has(fTrue) || x.has(fFalse) {
			return a.assume(st, c.Y, x.has(fTrue))
		}
		if y.has(fTrue) || y.has(fFalse) {
			return a.assume(st, c.X, y.has(fTrue))
		}
	}
	return a.assumeLen(st, c.X, c.Y, op)
}

// assumeConst records whether a text or number equals a constant.
func (a *ffunc) assumeConst(st *fstate, x, y ssa.Value, equal bool) *fstate {
	k, ok := y.(*ssa.Const)
	if !ok {
		if k, ok = x.(*ssa.Const); !ok {
			return st
		}
		x = y
	}
	if k.Value == nil || k.Value.Kind() != constant.String && k.Value.Kind() != constant.Int {
		return st
	}
	if _, ok := x.(*ssa.Const); ok {
		return st
	}
	key := a.valKey(st, x)
	name := key.path + "=" + k.Value.ExactString()
	for _, p := range st.m[key.root] {
		if p.path == name && p.x.has(fTrue) != equal {
			return nil
		}
		if strings.HasPrefix(p.path, key.path+"=") && p.path != name && p.x.has(fTrue) && equal {
			return nil
		}
	}
	fl := fFalse
	if equal {
		fl = fTrue
	}
	st.set(fkey{key.root, name}, fact{tAll, fl, 0})
	return st
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// assumeLen uses comparisons of lengths with numbers.
func (a *ffunc) assumeLen(st *fstate, x, y ssa.Value, op token.Token) *fstate {
	flipOp := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if _, ok := lenArg(x); !ok {
		if _, ok := lenArg(y); !ok {
			return st
		}
		x, y = y, x
		op = flipOp[op]
	}
	s, k := lenOf(x)
	if s == nil {
		return st
	}
	n, ok := constInt(y)
	if !ok {
		// len(s)+k against len(t)+j or a number that is at least 0
		lo := a.atLeast(st, y)
		switch op {
		case token.EQL:
			n = lo
		case token.GTR:
			n = lo + 1
		case token.GEQ:
			n = lo
		default:
			if t, j := lenOf(y); t != nil {
				// the other side is longer
				m := int(a.get(st, s).minlen) + k
				switch op {
				case token.LSS:
					return a.refine(st, t, fact{tAll, 0, clampLen(m + 1 - j)})
				case token.LEQ:
					return a.refine(st, t, fact{tAll, 0, clampLen(m - j)})
				}
			}
			return st
		}
		st = a.refine(st, s, fact{tAll, 0, clampLen(n - k)})
		if st != nil && op == token.EQL {
			if t, j := lenOf(y); t != nil {
				return a.refine(st, t, fact{tAll, 0, clampLen(int(a.get(st, s).minlen) + k - j)})
			}
		}
		return st
	}
	cur := int(a.get(st, s).minlen) + k
	switch op {
	case token.EQL:
		if cur > n && cur < maxLen {
			return nil
		}
		if n == k {
			return a.refine(st, s, fact{tAll, fEmpty, 0})
		}
		return a.refine(st, s, fact{tAll, 0, clampLen(n - k)})
	case token.NEQ:
		if cur == n {
			return a.refine(st, s, fact{tAll, 0, clampLen(n + 1 - k)})
		}
	case token.GTR:
		return a.refine(st, s, fact{tAll, 0, clampLen(n + 1 - k)})
	case token.GEQ:
		return a.refine(st, s, fact{tAll, 0, clampLen(n - k)})
	case token.LSS:
		if cur >= n {
			return nil
		}
		if n-k == 1 {
			return a.refine(st, s, fact{tAll, fEmpty, 0})
		}
	case token.LEQ:
		if cur > n {
			return nil
		}
		if n == k {
			return a.refine(st, s, fact{tAll, fEmpty, 0})
		}
	}
	return st
}

func lenArg(v ssa.Value) (ssa.Value, bool) {
	s, _ := lenOf(v)
	return s, s != nil
}

// atLeast: a lower bound of an integer.
func (a *ffunc) atLeast(st *fstate, v ssa.Value) int {
	if n, ok := constInt(v); ok {
		return n
	}
	if s, k := lenOf(v); s != nil {
		return int(a.get(st, s).minlen) + k
	}
	if a.busy[v] {
		return 0
	}
	a.busy[v] = true
	defer delete(a.busy, v)
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return a.atLeast(st, x.X) + a.atLeast(st, x.Y)
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && n != nil {
			return 0
		}
	case *ssa.Phi:
		// a counter that starts at a constant and grows
		lo, first := 0, true
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(x) {
				if n, ok := constInt(b.Y); ok && n >= 0 {
					continue
				}
			}
			n := a.atLeast(st, e)
			if first || n < lo {
				lo, first = n, false
			}
		}
		if !first {
			return lo
		}
	}
	return -1 << 20
}

func (a *ffunc) assumeType(st *fstate, x, y ssa.Value, equal bool) *fstate {
	fx, fy := a.get(st, x), a.get(st, y)
	if equal {
		st = a.refine(st, x, fact{fy.mask, 0, 0})
		if st == nil {
			return nil
		}
		return a.refine(st, y, fact{fx.mask, 0, 0})
	}
	single := func(m uint16) bool { return m == tString || m == tNumber || m == tBool || m == tDyn }
	if single(fy.mask) {
		return a.refine(st, x, fact{tAll &^ fy.mask, 0, 0})
	}
	if single(fx.mask) {
		return a.refine(st, y, fact{tAll &^ fx.mask, 0, 0})
	}
	return st
}

var typePreds = map[string]uint16{
	"IsListType": tList, "IsSetType": tSet, "IsMapType": tMap, "IsTupleType": tTuple, "IsObjectType": tObject,
	"IsCapsuleType": tCapsule, "IsCollectionType": tColl, "IsPrimitiveType": tString | tNumber | tBool,
}

func (a *ffunc) assumeCall(st *fstate, c *ssa.Call, truth bool) *fstate {
	cc := &c.Call
	g := cc.StaticCallee()
	if g == nil {
		return st
	}
	switch {
	case isCtyMethod(cc, "Value", "IsNull"):
		if truth {
			if a.get(st, cc.Args[0]).has(fNonnull) {
				return nil
			}
			return st
		}
		return a.refine(st, cc.Args[0], fact{tAll, fNonnull, 0})
	case isCtyMethod(cc, "Value", "IsKnown"):
		if truth {
			return a.refine(st, cc.Args[0], fact{tAll, fKnown, 0})
		}
		if a.get(st, cc.Args[0]).has(fKnown) {
			return nil
		}
		return a.refine(st, cc.Args[0], fact{tAll, fNonnull, 0})
	case isCtyMethod(cc, "Value", "IsWhollyKnown"):
		if truth {
			return a.refine(st, cc.Args[0], fact{tAll, fKnown | fWhole, 0})
		}
		return st
	case isCtyMethod(cc, "Value", "CanIterateElements"):
		m := uint16(tIter)
		if !truth {
			m = tAll &^ tIter
		}
		return a.refine(st, cc.Args[0], fact{m, 0, 0})
	case isCtyMethod(cc, "Value", "True"), isCtyMethod(cc, "Value", "False"):
		fl := fFalse
		if truth == (g.Name() == "True") {
			fl = fTrue
		}
		return a.refine(st, cc.Args[0], fact{tBool, fl, 0})
	case isCtyMethod(cc, "Type", "Equals"):
		return a.assumeType(st, cc.Args[0], cc.Args[1], truth)
	case isCtyMethod(cc, "Type", "HasDynamicTypes"):
		if !truth {
			return a.refine(st, cc.Args[0], fact{tAll &^ tDyn, 0, 0})
		}
		return st
	case isCtyMethod(cc, "Type"):
		if m, ok := typePreds[g.Name()]; ok {
			if !truth {
				m = tAll &^ m
			}
			return a.refine(st, cc.Args[0], fact{m, 0, 0})
		}
		return st
	}
	if g.Signature.Recv() != nil && isNamed(g.Signature.Recv().Type(), hclPath, "Diagnostics") && g.Name() == "HasErrors" {
		x := fact{tAll, fFalse, 0}
		if truth {
			x = fact{tAll, fTrue, 0}
		}
		return a.refine(st, cc.Args[0], x)
	}
	if (g.String() == "bytes.HasPrefix" || g.String() == "bytes.HasSuffix" || g.String() == "strings.HasPrefix" || g.String() == "strings.HasSuffix") && truth {
		return a.refine(st, cc.Args[0], fact{tAll, 0, a.get(st, cc.Args[1]).minlen})
	}
	if im := a.fs.implied[g]; im != nil && a.fs.p.InRepo(g) {
		for i, x := range im[truth] {
			if i >= len(cc.Args) {
				break
			}
			if x.bot() {
				if a.fs.solving {
					continue
				}
				return nil
			}
			// only what the function itself established about a value
			st = a.refine(st, cc.Args[i], x)
			if st == nil {
				return nil
			}
		}
	}
	return st
}
