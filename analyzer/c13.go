package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "the token sequence of a file is followed through the writer's parser as intervals with symbolic ends: what is cut from a sequence and what is attached to the tree has to make up the sequence again, each part once and in order, in every function and every round of a loop; every kind of tree content gives its tokens back in order; variables are reported in the order of the source", runC13)
}

// The interval domain.
//
// A token sequence is an interval between two boundaries, which are only known
// by name: the ends of a sequence given to a function and the places where it
// was cut. A list of the tree has the intervals appended to it, in order. Two
// states are joined when one describes the other, given what is known to be
// empty there. At the head of a loop, the sequence that remains is assumed to
// begin at a new boundary which the lists filled so far end at; a round has to
// lead to the same situation again.

type segment struct {
	lo, hi string
	list   int // content of a list, if not 0
	bad    string
}

type segs struct {
	items []segment
	ok    bool   // known
	obj   int    // a list (or an object with one)
	num   string // an integer
	size  *segs  // the length of a sequence
	from  ssa.Value
	tuple []segs
}

type segState struct {
	env   map[ssa.Value]segs
	lists map[int][]segment
	eq    [][2]string
	one   []string // sequences of exactly one token
}

func (s *segState) copy() *segState {
	n := &segState{env: make(map[ssa.Value]segs, len(s.env)), lists: make(map[int][]segment, len(s.lists))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.lists {
		n.lists[k] = v
	}
	n.eq = append([][2]string(nil), s.eq...)
	n.one = append([]string(nil), s.one...)
	return n
}

func (s *segState) rep(b string) string {
	best := b
	seen := map[string]bool{b: true}
	work := []string{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x < best {
			best = x
		}
		for _, p := range s.eq {
			for i := 0; i < 2; i++ {
				if p[i] == x && !seen[p[1-i]] {
					seen[p[1-i]] = true
					work = append(work, p[1-i])
				}
			}
		}
	}
	return best
}

// flat gives the intervals with lists spelled out and adjacent ones joined.
func (s *segState) flat(items []segment) []segment {
	var out []segment
	var add func(items []segment, depth int)
	add = func(items []segment, depth int) {
		for _, it := range items {
			if it.list != 0 {
				if depth > 20 {
					out = append(out, segment{bad: "a list in itself"})
					continue
				}
				add(s.lists[it.list], depth+1)
				continue
			}
			if it.bad != "" {
				out = append(out, it)
				continue
			}
			it.lo, it.hi = s.rep(it.lo), s.rep(it.hi)
			if it.lo == it.hi {
				continue
			}
			if n := len(out); n > 0 && out[n-1].bad == "" && out[n-1].hi == it.lo {
				out[n-1].hi = it.hi
				if out[n-1].lo == out[n-1].hi {
					out[n-1] = segment{bad: "tokens repeated"}
				}
				continue
			}
			out = append(out, it)
		}
	}
	add(items, 0)
	return out
}

func segText(items []segment) string {
	var out []string
	for _, it := range items {
		if it.bad != "" {
			out = append(out, "?"+it.bad)
		} else {
			out = append(out, it.lo+".."+it.hi)
		}
	}
	return strings.Join(out, " ")
}

func (s *segState) text(v segs) string {
	if len(v.tuple) > 0 {
		var out []string
		for _, t := range v.tuple {
			out = append(out, s.text(t))
		}
		return strings.Join(out, ";")
	}
	if v.size != nil {
		return "len " + s.text(*v.size)
	}
	if v.num != "" {
		return v.num
	}
	if v.obj != 0 {
		return fmt.Sprintf("list %d", v.obj)
	}
	if !v.ok {
		return "-"
	}
	return segText(s.flat(v.items))
}

type segFlow struct {
	c         *Ctx
	node      *types.Named // elements of the tree
	nodes     *types.Named // lists of them
	stack     []*ssa.Function
	ids       map[string]int
	reported  map[string]bool
	ranges    map[string][]ssa.Value // what a boundary was computed from
	truncated bool
	analysed  map[*ssa.Function]bool
	parts     int
	loops     int
}

func runC13(c *Ctx) {
	s := &segFlow{c: c, ids: map[string]int{}, reported: map[string]bool{}, ranges: map[string][]ssa.Value{}, analysed: map[*ssa.Function]bool{}}
	s.findTree()
	if s.node == nil {
		c.Report("anchor", "tree", nil, "list of tree elements of package hclwrite not found")
		return
	}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != writePkg || f.Signature.Recv() != nil || f.Parent() != nil || !token.IsExported(f.Name()) || f.Signature.Results().Len() == 0 {
			continue
		}
		if !strings.HasSuffix(f.Signature.Results().At(0).Type().String(), ".File") || len(f.Params) == 0 {
			continue
		}
		c.Count("parsing functions", 1)
		st := &segState{env: map[ssa.Value]segs{}, lists: map[int][]segment{}}
		whole := false
		for _, r := range s.call(f, nil, st, "") {
			if len(r.res) == 0 || r.res[0].obj == 0 {
				continue
			}
			got := r.st.flat(r.st.lists[r.res[0].obj])
			if len(got) != 1 || !strings.HasPrefix(got[0].lo, "start of ") || "end of "+strings.TrimPrefix(got[0].lo, "start of ") != got[0].hi {
				s.report("file", f, f, fmt.Sprintf("the tree of a file does not hold the tokens of the file once and in order: %s", segText(got)))
			} else {
				whole = true
			}
		}
		if whole {
			c.Obligation("the tree %s returns holds all tokens of the file", c.FuncName(f))
		} else {
			s.report("file", f, f, "no way found on which the tree gets the tokens of the file")
		}
	}
	if s.truncated {
		c.Report("bound", "states", nil, "too many states to follow")
	}
	for f := range s.analysed {
		c.Count("functions followed", 1)
		_ = f
	}
	c.Count("joins of parts checked", s.parts)
	c.Count("loops checked", s.loops)
	tok := c.LookupType(writePkg, "Token")
	for _, f := range c.Funcs {
		if c.PkgOf(f) == writePkg {
			c12tokens(c, f, tok)
			c13space(c, f, tok)
		}
	}
	c13contents(c, s)
	c13order(c)
	c.Floor("parsing functions", 1)
	c.Floor("functions followed", 20)
	c.Floor("joins of parts checked", 8)
	c.Floor("loops checked", 3)
	c.Floor("kinds of content", 6)
	c.Floor("conversions of tokens", 1)
	c.Floor("orders compared", 9)
}

func (s *segFlow) report(rule string, f *ssa.Function, at interface{ Pos() token.Pos }, msg string) {
	k := rule + s.c.FuncName(f)
	if s.reported[k] {
		return
	}
	s.reported[k] = true
	s.c.Report(rule, s.c.FuncName(f), at, msg)
}

// findTree finds the list type: two pointers to elements, which have a content
// that can give its tokens.
func (s *segFlow) findTree() {
	p := s.c.ByPat[writePkg]
	if p == nil {
		return
	}
	scope := p.Types.Scope()
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || st.NumFields() != 2 {
			continue
		}
		a, ok := st.Field(0).Type().(*types.Pointer)
		if !ok || !types.Identical(a, st.Field(1).Type()) {
			continue
		}
		el, ok := a.Elem().(*types.Named)
		if !ok {
			continue
		}
		est, ok := el.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < est.NumFields(); i++ {
			if it, ok := est.Field(i).Type().Underlying().(*types.Interface); ok && hasMethod(it, "BuildTokens") {
				s.node, s.nodes = el, tn.Type().(*types.Named)
			}
		}
	}
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func isTokens(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == "Tokens" && (strings.HasSuffix(n.Obj().Pkg().Path(), "/hclsyntax") || strings.HasSuffix(n.Obj().Pkg().Path(), "/hclwrite"))
}

func isWriterToken(t types.Type) bool {
	n, ok := derefType(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == "Token" && strings.HasSuffix(n.Obj().Pkg().Path(), "/hclwrite")
}

// hasList: a list, or a structure with one.
func (s *segFlow) hasList(t types.Type) bool {
	t = derefType(t)
	if types.Identical(t, s.nodes) {
		return true
	}
	if types.Identical(t, s.node) {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if types.Identical(derefType(ft), s.nodes) {
			return true
		}
		if _, isPtr := ft.(*types.Pointer); !isPtr && s.hasList(ft) {
			return true
		}
	}
	return false
}

func (s *segFlow) tracked(t types.Type) bool {
	if isTokens(t) || isWriterToken(t) {
		return true
	}
	d := derefType(t)
	if types.Identical(d, s.node) || s.hasList(d) {
		return true
	}
	if it, ok := d.Underlying().(*types.Interface); ok {
		return hasMethod(it, "BuildTokens")
	}
	st, ok := d.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := d.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/hclwrite") {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isTokens(st.Field(i).Type()) || isWriterToken(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// carries: the field decides what the object consists of.
func (s *segFlow) carries(obj types.Type, i int) bool {
	d := derefType(obj)
	st, ok := d.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	ft := st.Field(i).Type()
	if types.Identical(d, s.node) {
		_, ok := ft.Underlying().(*types.Interface)
		return ok
	}
	if types.Identical(d, s.nodes) {
		return false
	}
	if s.hasList(d) {
		return s.hasList(ft)
	}
	return isTokens(ft) || isWriterToken(ft)
}

type segResult struct {
	st  *segState
	res []segs
}

// appends: the function links an element given to it at the end of a list.
func (s *segFlow) appends(f *ssa.Function) (list, elem int, ok bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, isStore := in.(*ssa.Store)
			if !isStore {
				continue
			}
			fa, isField := st.Addr.(*ssa.FieldAddr)
			if !isField || !types.Identical(derefType(fa.X.Type()), s.nodes) {
				continue
			}
			list, elem = -1, -1
			for i, p := range f.Params {
				if fa.X == ssa.Value(p) {
					list = i
				}
				if st.Val == ssa.Value(p) && types.Identical(derefType(p.Type()), s.node) {
					elem = i
				}
			}
			if list >= 0 && elem >= 0 {
				return list, elem, true
			}
		}
	}
	return 0, 0, false
}

func (s *segFlow) call(f *ssa.Function, args []segs, st *segState, frame string) []segResult {
	s.analysed[f] = true
	s.stack = append(s.stack, f)
	defer func() { s.stack = s.stack[:len(s.stack)-1] }()
	outer := st.env
	st = st.copy()
	st.env = map[ssa.Value]segs{}
	for i, p := range f.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if n := len(f.Params) + i; n < len(args) {
			st.env[v] = args[n]
		}
	}
	var out []segResult
	states := map[*ssa.BasicBlock]map[*ssa.BasicBlock][]*segState{}
	put := func(from, to *ssa.BasicBlock, n *segState) {
		if states[to] == nil {
			states[to] = map[*ssa.BasicBlock][]*segState{}
		}
		states[to][from] = append(states[to][from], n)
	}
	put(nil, f.Blocks[0], st)
	loops := loopsOf(f)
	// more than once where a loop has to be looked at again
	opaque := map[*ssa.Phi]bool{}
	for try := 0; ; try++ {
		if try > 0 {
			states = map[*ssa.BasicBlock]map[*ssa.BasicBlock][]*segState{}
			put(nil, f.Blocks[0], st)
			out = nil
		}
		again := false
		heads := map[*ssa.BasicBlock][]segHead{}
		for _, b := range topo(f) {
			var in []*segState
			var preds []*ssa.BasicBlock
			if m := states[b]; m != nil {
				if m[nil] != nil {
					preds = append(preds, nil)
				}
				for _, p := range b.Preds {
					if m[p] != nil {
						preds = append(preds, p)
					}
				}
				for _, p := range preds {
					for _, x := range m[p] {
						x = x.copy()
						s.phis(x, b, p)
						in = append(in, x)
					}
				}
			}
			in = s.join(in)
			if len(in) == 0 {
				continue
			}
			for _, l := range loops {
				if l.header == b {
					for i, x := range in {
						h := s.head(x, f, l, frame, opaque)
						heads[b] = append(heads[b], h)
						in[i] = h.st.copy()
					}
				}
			}
			for _, instr := range b.Instrs {
				var next []*segState
				for _, x := range in {
					next = append(next, s.instr(x, f, instr, frame)...)
				}
				in = next
				if len(in) > 64 {
					s.truncated = true
					in = in[:64]
				}
			}
			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				for _, x := range in {
					var res []segs
					for _, v := range last.Results {
						res = append(res, s.value(x, v))
					}
					out = append(out, segResult{x, res})
				}
			case *ssa.If:
				for i, t := range b.Succs {
					for _, x := range in {
						y := x.copy()
						if !s.assume(y, last.Cond, i == 0) {
							continue
						}
						for _, l := range loops {
							if l.header == b && !l.blocks[t] {
								s.leave(y, f, l, heads[b])
							}
						}
						if s.backEdge(loops, b, t) {
							if s.round(y, f, b, t, heads[t], opaque) {
								again = true
							}
							continue
						}
						put(b, t, y)
					}
				}
			case *ssa.Jump:
				t := b.Succs[0]
				for _, x := range in {
					if s.backEdge(loops, b, t) {
						if s.round(x, f, b, t, heads[t], opaque) {
							again = true
						}
						continue
					}
					put(b, t, x.copy())
				}
			}
		}
		if !again || try > 5 {
			for _, l := range loops {
				s.loops += len(heads[l.header])
			}
			break
		}
	}
	// join the ways out
	var joined []segResult
	for _, r := range out {
		done := false
		for i, q := range joined {
			if st, res, ok := s.joinResults(q, r); ok {
				joined[i] = segResult{st, res}
				done = true
				break
			}
		}
		if !done {
			joined = append(joined, r)
		}
	}
	for i := range joined {
		joined[i] = s.check(f, args, joined[i], frame)
		joined[i].st.env = outer
	}
	return joined
}

func (s *segFlow) joinResults(a, b segResult) (*segState, []segs, bool) {
	for i := 0; i < 2; i++ {
		if s.covers(a.st, b.st, a.res, b.res) {
			st := a.st.copy()
			st.eq, st.one = common(a.st.eq, b.st.eq), both(a.st.one, b.st.one)
			return st, a.res, true
		}
		a, b = b, a
	}
	return nil, nil, false
}

// covers: is what the first state says also true in the second, given what is
// known there?
func (s *segFlow) covers(a, b *segState, ra, rb []segs) bool {
	for id, items := range a.lists {
		if segText(b.flat(items)) != segText(b.flat(b.lists[id])) {
			return false
		}
	}
	for id := range b.lists {
		if _, ok := a.lists[id]; !ok && len(b.flat(b.lists[id])) > 0 {
			return false
		}
	}
	for i := range ra {
		if b.text(ra[i]) != b.text(rb[i]) {
			return false
		}
	}
	return true
}

func common(a, b [][2]string) [][2]string {
	var out [][2]string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

func both(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

func (s *segFlow) join(in []*segState) []*segState {
	var out []*segState
	for _, x := range in {
		done := false
		for i, y := range out {
			if z, ok := s.joinStates(y, x); ok {
				out[i] = z
				done = true
				break
			}
		}
		if !done {
			out = append(out, x)
		}
	}
	return out
}

func (s *segFlow) joinStates(a, b *segState) (*segState, bool) {
	for i := 0; i < 2; i++ {
		if s.covers(a, b, nil, nil) {
			ok := true
			for v, x := range a.env {
				if y, has := b.env[v]; has && b.text(x) != b.text(y) {
					ok = false
					break
				}
			}
			if ok {
				st := a.copy()
				for v := range st.env {
					if _, has := b.env[v]; !has {
						delete(st.env, v)
					}
				}
				st.eq, st.one = common(a.eq, b.eq), both(a.one, b.one)
				return st, true
			}
		}
		a, b = b, a
	}
	return nil, false
}

// topo orders the blocks, leaving out the edges back to a loop's head.
func topo(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, t := range b.Succs {
			if !t.Dominates(b) {
				visit(t)
			}
		}
		out = append(out, b)
	}
	visit(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *segFlow) backEdge(loops []*loop, b, t *ssa.BasicBlock) bool { return t.Dominates(b) }

func (s *segFlow) phis(st *segState, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	set := map[ssa.Value]segs{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				set[phi] = s.value(st, phi.Edges[i])
				break
			}
		}
	}
	for v, x := range set {
		st.env[v] = x
	}
}

type segHead struct {
	st     *segState
	phi    *ssa.Phi // the sequence that remains
	old, h string
	hi     string
	lists  map[int]bool // ending where it begins
}

// head gives the assumption at the head of a loop.
func (s *segFlow) head(st *segState, f *ssa.Function, l *loop, frame string, opaque map[*ssa.Phi]bool) segHead {
	n := st.copy()
	hd := segHead{st: n, lists: map[int]bool{}}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := n.env[phi]
		if !s.tracked(phi.Type()) || !v.ok || v.obj != 0 {
			// integers and others are not known
			delete(n.env, phi)
			if isInt(phi.Type()) {
				n.env[phi] = segs{num: frame + phi.Name()}
			}
			continue
		}
		fl := n.flat(v.items)
		if opaque[phi] || hd.phi != nil || len(fl) != 1 || fl[0].bad != "" {
			n.env[phi] = segs{ok: true, items: []segment{{bad: "what is left from an earlier round"}}}
			continue
		}
		hd.phi, hd.old, hd.hi = phi, fl[0].lo, fl[0].hi
		hd.h = "next at " + frame + s.c.FuncName(f) + fmt.Sprint(l.header.Index)
		n.env[phi] = segs{ok: true, items: []segment{{lo: hd.h, hi: hd.hi}}}
	}
	if hd.phi == nil {
		return hd
	}
	touched := s.touched(st, f, l)
	for id, items := range n.lists {
		if !touched[id] {
			continue
		}
		fl := n.flat(items)
		if len(fl) > 0 && fl[len(fl)-1].bad == "" && fl[len(fl)-1].hi == hd.old {
			fl[len(fl)-1].hi = hd.h
			n.lists[id] = fl
			hd.lists[id] = true
		} else if len(fl) == 0 {
			n.lists[id] = []segment{{lo: hd.old, hi: hd.h}}
			hd.lists[id] = true
		}
	}
	return hd
}

// touched: the lists something in the loop is called with.
func (s *segFlow) touched(st *segState, f *ssa.Function, l *loop) map[int]bool {
	out := map[int]bool{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				args := append([]ssa.Value(nil), call.Call.Args...)
				if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
					args = append(args, mc.Bindings...)
				}
				for _, a := range args {
					if v := s.early(st, a); v.obj != 0 {
						out[v.obj] = true
					}
				}
			}
		}
	}
	return out
}

// early gives a value that is only computed later, by loads and fields.
func (s *segFlow) early(st *segState, v ssa.Value) segs {
	if x, ok := st.env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return s.early(st, x.X)
	case *ssa.FieldAddr:
		if s.carries(x.X.Type(), x.Field) {
			return s.early(st, x.X)
		}
	case *ssa.Field:
		if s.carries(x.X.Type(), x.Field) {
			return s.early(st, x.X)
		}
	case *ssa.MakeInterface:
		return s.early(st, x.X)
	}
	return segs{}
}

// round checks a round of a loop.
func (s *segFlow) round(st *segState, f *ssa.Function, b, t *ssa.BasicBlock, heads []segHead, opaque map[*ssa.Phi]bool) (again bool) {
	if len(heads) == 0 {
		return false
	}
	msg := ""
	for _, hd := range heads {
		msg, again = s.roundFrom(hd, st, b, t, opaque)
		if msg == "" && !again {
			return false
		}
	}
	if msg != "" {
		s.report("loop", f, t.Instrs[0], msg)
		return false
	}
	return again
}

func (s *segFlow) roundFrom(hd segHead, st *segState, b, t *ssa.BasicBlock, opaque map[*ssa.Phi]bool) (msg string, again bool) {
	n := st.copy()
	s.phis(n, t, b)
	next := ""
	if hd.phi != nil {
		v := n.env[hd.phi]
		fl := n.flat(v.items)
		switch {
		case v.ok && len(fl) == 1 && fl[0].bad == "" && fl[0].hi == n.rep(hd.hi):
			next = fl[0].lo
		case v.ok && len(fl) == 0:
			next = n.rep(hd.hi)
		default:
			opaque[hd.phi] = true
			return "", true
		}
	}
	for id, items := range hd.st.lists {
		was := n.flat(items)
		is := n.flat(n.lists[id])
		if segText(was) == segText(is) {
			if !hd.lists[id] || next == n.rep(hd.h) {
				continue
			}
		}
		if hd.lists[id] && len(was) > 0 {
			want := append([]segment(nil), was...)
			want[len(want)-1].hi = next
			if segText(want) == segText(is) {
				continue
			}
		}
		return fmt.Sprintf("what a round of the loop attaches is not what it takes from the tokens: had %s, has %s, next is %s", segText(was), segText(is), next), false
	}
	return "", false
}

// leave: a sequence that was cut out as the range of something is used up when
// a loop has gone through all of it.
func (s *segFlow) leave(st *segState, f *ssa.Function, l *loop, heads []segHead) {
	for _, hd := range heads {
		if hd.phi == nil {
			continue
		}
		over := rangedOver(l)
		for _, v := range s.ranges[hd.hi] {
			if over != nil && v == over {
				st.eq = append(st.eq, [2]string{hd.h, hd.hi})
				s.c.Exception(fmt.Sprintf("%s: nothing is left after the steps of what the tokens were cut out for", s.c.FuncName(f)))
			}
		}
	}
}

// rangedOver: what a loop goes through.
func rangedOver(l *loop) ssa.Value {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return nil
	}
	if call, ok := bo.Y.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return plainValue(call.Call.Args[0])
		}
	}
	return nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *segFlow) id(key string) int {
	if s.ids[key] == 0 {
		s.ids[key] = len(s.ids) + 1
	}
	return s.ids[key]
}

func (s *segFlow) value(st *segState, v ssa.Value) segs {
	if x, ok := st.env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() && s.tracked(x.Type()) {
			return segs{ok: true}
		}
		if n, ok := constInt(x); ok {
			return segs{num: fmt.Sprintf("#%d", n)}
		}
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return segs{from: v}
	}
	return segs{from: v}
}

// boundary gives the place in the sequence that an index means.
func (s *segFlow) boundary(st *segState, seq segment, i segs) string {
	lo, hi := st.rep(seq.lo), st.rep(seq.hi)
	if i.size != nil {
		fl := st.flat(i.size.items)
		if len(fl) == 0 {
			return lo
		}
		if len(fl) == 1 && fl[0].lo == lo {
			return fl[0].hi
		}
	}
	if i.num == "#0" {
		return lo
	}
	if i.num == "" {
		return ""
	}
	return i.num + " in " + shorten(lo) + ".." + shorten(hi)
}

var shortened = map[string]string{}

// shorten keeps the names of boundaries in hand.
func shorten(b string) string {
	if len(b) < 40 {
		return b
	}
	if shortened[b] == "" {
		shortened[b] = fmt.Sprintf("%s~%d", b[:20], len(shortened))
	}
	return shortened[b]
}

func (s *segFlow) instr(st *segState, f *ssa.Function, in ssa.Instruction, frame string) []*segState {
	one := []*segState{st}
	switch x := in.(type) {
	case *ssa.Alloc:
		if s.hasList(x.Type()) {
			id := s.id(frame + f.Name() + x.Name())
			st.lists[id] = nil
			st.env[x] = segs{ok: true, obj: id}
		} else if s.tracked(x.Type()) {
			st.env[x] = segs{}
		} else if at, ok := derefType(x.Type()).(*types.Array); ok && isWriterToken(at.Elem()) {
			st.env[x] = segs{ok: true}
		}
	case *ssa.Store:
		s.store(st, f, x)
	case *ssa.FieldAddr:
		if s.carries(x.X.Type(), x.Field) {
			st.env[x] = s.value(st, x.X)
		}
	case *ssa.Field:
		if s.carries(x.X.Type(), x.Field) {
			st.env[x] = s.value(st, x.X)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			st.env[x] = s.value(st, x.X)
			if _, ok := st.env[x.X]; !ok {
				delete(st.env, x)
			}
		}
	case *ssa.MakeInterface:
		st.env[x] = s.value(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = s.value(st, x.X)
	case *ssa.ChangeInterface:
		st.env[x] = s.value(st, x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			st.env[x] = s.value(st, x.X)
		}
	case *ssa.Extract:
		if t, ok := st.env[x.Tuple]; ok && x.Index < len(t.tuple) {
			st.env[x] = t.tuple[x.Index]
		}
		if v := st.env[x]; isInt(x.Type()) && v.num == "" && v.size == nil {
			st.env[x] = segs{num: frame + x.Name()}
			if call, ok := x.Tuple.(*ssa.Call); ok {
				s.origin(st, st.env[x].num, &call.Call)
			}
		}
	case *ssa.BinOp:
		if isInt(x.Type()) {
			a, b := s.value(st, x.X), s.value(st, x.Y)
			if x.Op == token.ADD && a.num != "" && strings.HasPrefix(b.num, "#") {
				st.env[x] = segs{num: a.num + "+" + b.num[1:]}
			} else {
				st.env[x] = segs{num: frame + x.Name()}
			}
		}
	case *ssa.Slice:
		s.slice(st, f, x)
	case *ssa.IndexAddr:
		if v := s.value(st, x.X); isTokens(x.X.Type()) && v.ok {
			if n, ok := constInt(x.Index); ok && n == 0 {
				t := st.text(v)
				for _, o := range st.one {
					if o == t {
						st.env[x] = v
					}
				}
			}
		}
	case *ssa.Call:
		return s.doCall(st, f, x, frame)
	}
	return one
}

// origin remembers what a boundary was computed from.
func (s *segFlow) origin(st *segState, num string, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		v := s.value(st, a)
		if v.from == nil {
			continue
		}
		if call, ok := v.from.(*ssa.Call); ok {
			args := call.Call.Args
			if call.Call.IsInvoke() {
				args = []ssa.Value{call.Call.Value}
			}
			if len(args) == 1 {
				s.ranges["num "+num] = append(s.ranges["num "+num], plainValue(args[0]))
			}
		}
	}
}

func (s *segFlow) store(st *segState, f *ssa.Function, x *ssa.Store) {
	v := s.value(st, x.Val)
	switch a := x.Addr.(type) {
	case *ssa.Alloc:
		if s.tracked(a.Type()) {
			st.env[a] = v
		}
	case *ssa.FieldAddr:
		if !s.carries(a.X.Type(), a.Field) {
			return
		}
		if al, ok := a.X.(*ssa.Alloc); ok {
			old := st.env[al]
			if old.ok && old.obj == 0 && v.ok && v.obj == 0 && st.text(old) != st.text(v) {
				s.report("cut", f, x, "the two forms of a token sequence are cut at different places")
			}
			st.env[al] = v
		} else if base, ok := a.X.(*ssa.FieldAddr); ok {
			if al, ok := base.X.(*ssa.Alloc); ok && s.carries(al.Type(), base.Field) {
				st.env[al] = v
			}
		}
	case *ssa.IndexAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			if _, ok := derefType(al.Type()).(*types.Array); ok {
				if old, ok := st.env[al]; ok {
					if !v.ok {
						v = segs{ok: true, items: []segment{{bad: "tokens that are not from the file"}}}
					}
					st.env[al] = segs{ok: true, items: append(append([]segment(nil), old.items...), v.items...)}
				}
			}
		}
	}
}

func (s *segFlow) slice(st *segState, f *ssa.Function, x *ssa.Slice) {
	v := s.value(st, x.X)
	if !v.ok || v.obj != 0 {
		return
	}
	if x.Low == nil && x.High == nil {
		st.env[x] = v
		return
	}
	fl := st.flat(v.items)
	if len(fl) == 0 {
		st.env[x] = v
		return
	}
	if len(fl) != 1 || fl[0].bad != "" {
		st.env[x] = segs{ok: true, items: []segment{{bad: "part of several sequences"}}}
		return
	}
	lo, hi := fl[0].lo, fl[0].hi
	set := func(i ssa.Value) string {
		n := s.value(st, i)
		b := s.boundary(st, fl[0], n)
		if b == "" {
			b = s.c.PosString(x.Pos()) + i.Name()
		}
		if o := s.ranges["num "+n.num]; len(o) > 0 {
			s.ranges[b] = o
		}
		return b
	}
	if x.Low != nil {
		lo = set(x.Low)
	}
	if x.High != nil {
		hi = set(x.High)
	}
	st.env[x] = segs{ok: true, items: []segment{{lo: lo, hi: hi}}}
}

// assume adds what a branch tells.
func (s *segFlow) assume(st *segState, cond ssa.Value, truth bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return s.assume(st, u.X, !truth)
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	a, b, op := s.value(st, bo.X), s.value(st, bo.Y), bo.Op
	if a.size == nil && b.size != nil {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if a.size == nil || !strings.HasPrefix(b.num, "#") {
		return true
	}
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		}
	}
	n := b.num[1:]
	fl := st.flat(a.size.items)
	if len(fl) == 0 {
		// empty
		zero := map[token.Token]bool{token.EQL: n == "0", token.NEQ: n != "0", token.GTR: false, token.GEQ: n == "0", token.LSS: n != "0", token.LEQ: true}
		return zero[op]
	}
	if len(fl) == 1 && fl[0].bad == "" {
		if op == token.EQL && n == "0" || op == token.LEQ && n == "0" || op == token.LSS && n == "1" {
			st.eq = append(st.eq, [2]string{fl[0].lo, fl[0].hi})
		}
	}
	if op == token.EQL && n == "1" {
		st.one = append(st.one, segText(fl))
	}
	return true
}

func (s *segFlow) doCall(st *segState, f *ssa.Function, x *ssa.Call, frame string) []*segState {
	one := []*segState{st}
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			if v := s.value(st, x.Call.Args[0]); v.ok && v.obj == 0 && isTokens(x.Call.Args[0].Type()) {
				st.env[x] = segs{size: &v}
			} else {
				st.env[x] = segs{num: frame + x.Name()}
			}
		case "append":
			a, b := s.value(st, x.Call.Args[0]), s.value(st, x.Call.Args[1])
			if isTokens(x.Type()) {
				if !a.ok {
					a = segs{items: []segment{{bad: "other tokens"}}}
				}
				if !b.ok {
					b = segs{items: []segment{{bad: "other tokens"}}}
				}
				st.env[x] = segs{ok: true, items: append(append([]segment(nil), a.items...), b.items...)}
			}
		}
		return one
	}
	g := x.Call.StaticCallee()
	rt := x.Type()
	inWrite := g != nil && len(g.Blocks) > 0 && s.c.PkgOf(g) == writePkg
	var args []segs
	relevant := false
	for _, a := range x.Call.Args {
		v := s.value(st, a)
		if !v.ok && v.num == "" && v.size == nil && v.from == nil {
			v.from = a
		}
		args = append(args, v)
		relevant = relevant || v.ok
	}
	if !inWrite {
		// the scanner
		what := s.c.PosString(x.Pos())
		mk := func(t types.Type) segs {
			if isTokens(t) {
				return segs{ok: true, items: []segment{{lo: "start of " + what, hi: "end of " + what}}}
			}
			return segs{}
		}
		if tup, ok := rt.(*types.Tuple); ok {
			v := segs{}
			for i := 0; i < tup.Len(); i++ {
				v.tuple = append(v.tuple, mk(tup.At(i).Type()))
			}
			st.env[x] = v
		} else if isTokens(rt) {
			st.env[x] = mk(rt)
		} else if isInt(rt) {
			st.env[x] = segs{num: frame + x.Name()}
		}
		return one
	}
	resultTracked := s.tracked(rt)
	if tup, ok := rt.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			resultTracked = resultTracked || s.tracked(tup.At(i).Type())
		}
	}
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			relevant = relevant || s.value(st, b).ok
		}
	}
	if !relevant && !resultTracked {
		return one
	}
	if list, elem, ok := s.appends(g); ok && g.Signature.Recv() != nil {
		l, e := args[list], args[elem]
		if l.obj == 0 {
			return one
		}
		var items []segment
		switch {
		case e.obj != 0:
			items = []segment{{list: e.obj}}
		case e.ok:
			items = e.items
		default:
			items = []segment{{bad: "something that is not from the file"}}
		}
		st.lists[l.obj] = append(append([]segment(nil), st.lists[l.obj]...), items...)
		return one
	}
	if len(g.Params) > 0 && isTokens(g.Params[0].Type()) && isTokens(rt) && !types.Identical(g.Params[0].Type(), rt) && args[0].ok {
		st.env[x] = args[0] // one token for each, see the conversion rule
		return one
	}
	// a function that only computes numbers
	if !resultTracked && !s.hasEffect(g) {
		if isInt(rt) {
			st.env[x] = segs{num: frame + x.Name()}
			s.origin(st, st.env[x].num, &x.Call)
		}
		return one
	}
	at := frame + fmt.Sprintf("%s.%s/", f.Name(), x.Name())
	for _, q := range s.stack {
		if q == g {
			// already being looked at: assume it keeps the sequence
			var seq []segment
			n := 0
			for _, a := range args {
				if a.ok && a.obj == 0 {
					seq = a.items
					n++
				}
			}
			if n != 1 {
				s.report("recursion", f, x, "a recursive call with several token sequences cannot be followed")
				return one
			}
			s.divide(st, x, st.flat(seq), at)
			return one
		}
	}
	if len(s.stack) > 12 {
		s.truncated = true
		return one
	}
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			args = append(args, s.value(st, b))
		}
	}
	var out []*segState
	for _, r := range s.call(g, args, st, at) {
		n := r.st.copy()
		if _, ok := rt.(*types.Tuple); ok {
			n.env[x] = segs{tuple: r.res}
		} else if len(r.res) == 1 {
			v := r.res[0]
			if isInt(rt) && v.num == "" && v.size == nil {
				v = segs{num: at + "r"}
			}
			n.env[x] = v
		}
		out = append(out, n)
	}
	return out
}

// hasEffect: could something be appended to a list?
func (s *segFlow) hasEffect(g *ssa.Function) bool {
	if len(g.FreeVars) > 0 {
		return true
	}
	for _, p := range g.Params {
		if s.hasList(p.Type()) || types.Identical(derefType(p.Type()), s.node) {
			return true
		}
	}
	return len(g.Params) > 0 && len(g.Blocks) == 1 // small accessors are followed
}

// divide gives the results of a call the parts of a sequence, in order.
func (s *segFlow) divide(st *segState, x *ssa.Call, seq []segment, at string) {
	lo, hi := at+"none", at+"none"
	if len(seq) > 0 {
		lo, hi = seq[0].lo, seq[len(seq)-1].hi
	}
	var tys []types.Type
	if tup, ok := x.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			tys = append(tys, tup.At(i).Type())
		}
	} else {
		tys = []types.Type{x.Type()}
	}
	last := -1
	for i, t := range tys {
		if s.tracked(t) {
			last = i
		}
	}
	var res []segs
	cur := lo
	for i, t := range tys {
		if !s.tracked(t) {
			res = append(res, segs{})
			continue
		}
		next := fmt.Sprintf("%s%d in %s", at, i, shorten(lo))
		if i == last {
			next = hi
		}
		res = append(res, segs{ok: true, items: []segment{{lo: cur, hi: next}}})
		cur = next
	}
	if len(tys) == 1 {
		st.env[x] = res[0]
	} else {
		st.env[x] = segs{tuple: res}
	}
}

// check: a function that attaches tokens to the tree, or that cuts a sequence
// into parts, accounts for all tokens it was given.
func (s *segFlow) check(f *ssa.Function, args []segs, r segResult, frame string) segResult {
	var given []segment
	for i, a := range args {
		if a.ok && a.obj == 0 && i < len(f.Params) && !isTokens(f.Params[i].Type()) && !isWriterToken(f.Params[i].Type()) && !types.Identical(derefType(f.Params[i].Type()), s.node) {
			if _, isIface := f.Params[i].Type().Underlying().(*types.Interface); isIface {
				continue
			}
			given = append(given, r.st.flat(a.items)...)
		}
	}
	if len(given) == 0 {
		return r
	}
	nodes, seqs := 0, 0
	var all []segment
	for i, v := range r.res {
		t := f.Signature.Results().At(i).Type()
		if !s.tracked(t) {
			continue
		}
		switch {
		case v.obj != 0:
			all = append(all, segment{list: v.obj})
			nodes++
		case v.ok:
			all = append(all, v.items...)
			if types.Identical(derefType(t), s.node) || s.hasList(t) {
				nodes++
			} else {
				seqs++
			}
		default:
			all = append(all, segment{bad: "something else"})
		}
	}
	if nodes == 0 && seqs < 2 {
		return r
	}
	s.parts++
	s.c.Obligation("%s keeps all tokens it is given", s.c.FuncName(f))
	if s.madeOf(r.st, r.st.flat(all), given) {
		return r
	}
	s.report("parts", f, f, fmt.Sprintf("the tokens given are not all kept, once and in order: given %s, got %s", segText(given), segText(r.st.flat(all))))
	return r
}

// madeOf: the intervals are the given ones, each once.
func (s *segFlow) madeOf(st *segState, got, given []segment) bool {
	used := make([]bool, len(given))
	for _, g := range got {
		if g.bad != "" {
			return false
		}
		cur := g.lo
		for steps := 0; cur != g.hi || steps == 0; steps++ {
			found := false
			for i, x := range given {
				if !used[i] && x.lo == cur {
					used[i] = true
					cur = x.hi
					found = true
					break
				}
			}
			if !found {
				return false
			}
		}
	}
	for _, u := range used {
		if !u {
			return false
		}
	}
	return true
}

// c13space: the space before a token is what lies between it and the one
// before it in the source.
func c13space(c *Ctx, f *ssa.Function, tok *types.Named) {
	src := -1
	for i, p := range f.Params {
		if n, ok := p.Type().(*types.Named); ok && n.Obj().Name() == "Tokens" && strings.HasSuffix(n.Obj().Pkg().Path(), "hclsyntax") {
			src = i
		}
	}
	if src < 0 || f.Signature.Results().Len() == 0 || !strings.HasSuffix(f.Signature.Results().At(0).Type().String(), "hclwrite.Tokens") {
		return
	}
	e := newPathEnv(c, f)
	elem := fmt.Sprintf("p%d[]", src)
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(derefType(fa.X.Type()), tok) || fieldOf(fa.X.Type(), fa.Field) != "SpacesBefore" {
				continue
			}
			n++
			bo, ok := st.Val.(*ssa.BinOp)
			if !ok || bo.Op != token.SUB || e.one(bo.X) != elem+".Range.Start.Byte" || e.one(bo.Y) != elem+".Range.End.Byte" {
				c.Report("space", c.FuncName(f), st, "the space before a token is not what lies between it and the token before it")
			}
		}
	}
	if n == 0 {
		c.Report("space", c.FuncName(f), f, "the space before tokens is not kept")
	}
}

// c13contents: every kind of content gives back its tokens, after those before
// it and in order.
func c13contents(c *Ctx, s *segFlow) {
	done := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != writePkg || f.Name() != "BuildTokens" || f.Signature.Recv() == nil || f.Synthetic != "" || done[f] {
			continue
		}
		done[f] = true
		c.Count("kinds of content", 1)
		e := newPathEnv(c, f)
		name := c.FuncName(f)
		recv := f.Params[0].Type()
		// what is returned goes back to the tokens given
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && !growsFrom(ret.Results[0], f.Params[1], map[ssa.Value]bool{}) {
					c.Report("content", name, ret, "the tokens before the content are not kept")
				}
			}
		}
		// the parts added
		added := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && isTokens(call.Type()) {
						for _, p := range e.of(call.Call.Args[1]) {
							added[p] = true
						}
						for _, p := range elementsOf(e, call.Call.Args[1]) {
							added[p] = true
						}
						if len(e.guards(in)) > 0 {
							c.Report("content", name, in, "the tokens are not always given")
						}
					}
					continue
				}
				if callee(&call.Call) == "BuildTokens" {
					r := call.Call.Value
					if !call.Call.IsInvoke() {
						r = call.Call.Args[0]
					}
					for _, p := range e.of(r) {
						added[p] = true
					}
					if len(e.guards(in)) > 0 && !walksList(e, f, in, s) {
						c.Report("content", name, in, "the tokens are not always given")
					}
				}
			}
		}
		want := map[string]bool{}
		switch d := derefType(recv); {
		case isTokens(d):
			want["p0"] = true
		case types.Identical(d, s.node):
			st := d.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Interface); ok {
					want["p0."+st.Field(i).Name()] = true
				}
			}
		case s.hasList(d):
			want["list"] = true
			if walkedInOrder(e, f, s) {
				added = map[string]bool{"list": true}
			}
		default:
			if st, ok := d.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if ft := st.Field(i).Type(); isTokens(ft) || isWriterToken(ft) {
						want["p0."+st.Field(i).Name()] = true
					}
				}
			}
		}
		c.Obligation("%s gives %v", name, keysText(want))
		if keysText(want) != keysText(added) {
			c.Report("content", name, f, fmt.Sprintf("the content gives %s instead of %s", keysText(added), keysText(want)))
		}
	}
}

func keysText(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// elementsOf: the elements of a literal list of arguments.
func elementsOf(e *pathEnv, v ssa.Value) []string {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []string
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out = append(out, e.of(st.Val)...)
			}
		}
	}
	return out
}

// growsFrom: the value is the other one with something appended.
func growsFrom(v, base ssa.Value, seen map[ssa.Value]bool) bool {
	if v == base || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !growsFrom(ed, base, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return growsFrom(x.X, base, seen)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return growsFrom(x.Call.Args[0], base, seen)
		}
		if callee(&x.Call) == "BuildTokens" {
			return growsFrom(x.Call.Args[len(x.Call.Args)-1], base, seen)
		}
	}
	return false
}

// walksList: the guard of the call is only the end of the list.
func walksList(e *pathEnv, f *ssa.Function, in ssa.Instruction, s *segFlow) bool {
	for _, l := range loopsOf(f) {
		if l.blocks[in.Block()] && walkedInOrder(e, f, s) {
			return true
		}
	}
	return false
}

// walkedInOrder: a loop from the first element of the list along the links,
// each of which gives its tokens, or a call that does so for the list.
func walkedInOrder(e *pathEnv, f *ssa.Function, s *segFlow) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && callee(&call.Call) == "BuildTokens" && !call.Call.IsInvoke() && s.hasList(call.Call.Args[0].Type()) {
				return true
			}
		}
	}
	first, _, next, _ := s.links()
	for _, l := range loopsOf(f) {
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !types.Identical(derefType(phi.Type()), s.node) {
				continue
			}
			start, step := false, false
			for i, ed := range phi.Edges {
				ld, ok := isLoad(ed)
				if !ok {
					return false
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok {
					return false
				}
				if l.blocks[l.header.Preds[i]] {
					step = fa.X == ssa.Value(phi) && fa.Field == next
				} else {
					start = types.Identical(derefType(fa.X.Type()), s.nodes) && fa.Field == first
				}
			}
			if !start || !step {
				continue
			}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || callee(&call.Call) != "BuildTokens" || len(call.Call.Args) == 0 || call.Call.Args[0] != ssa.Value(phi) {
						continue
					}
					// each round passes here, and the list is left only at its end
					for x := range l.blocks {
						for _, t := range x.Succs {
							if t == l.header && x != b && reachesIn(l, l.header, x, b) {
								return false
							}
							if !l.blocks[t] && x != l.header {
								return false
							}
						}
					}
					return true
				}
			}
		}
	}
	return false
}

// links: the fields of lists and elements that link them: the last of a list
// is the one the appending function sets every time, the next of an element
// the one it sets in the element that was last.
func (s *segFlow) links() (first, last, next, prev int) {
	first, last, next, prev = -1, -1, -1, -1
	for _, f := range s.c.Funcs {
		if s.c.PkgOf(f) != writePkg || f.Signature.Recv() == nil {
			continue
		}
		list, elem, ok := s.appends(f)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				switch {
				case fa.X == ssa.Value(f.Params[list]) && st.Val == ssa.Value(f.Params[elem]):
					always := true
					for _, x := range f.Blocks {
						if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
							always = false
						}
					}
					if always {
						last = fa.Field
					} else {
						first = fa.Field
					}
				case types.Identical(derefType(fa.X.Type()), s.node) && st.Val == ssa.Value(f.Params[elem]):
					next = fa.Field
				case fa.X == ssa.Value(f.Params[elem]) && types.Identical(derefType(st.Val.Type()), s.node):
					prev = fa.Field
				}
			}
		}
	}
	return
}

// c13order: the children of an expression are visited in the order in which
// they were read, so that variables are reported in source order.
func c13order(c *Ctx) {
	read := readOrder(c)
	// the child an expression starts with is read first
	starts := map[string]string{}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || f.Name() != "StartRange" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		e := newPathEnv(c, f)
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if p := e.one(ret.Results[0]); strings.HasPrefix(p, "p0.") && strings.HasSuffix(p, ".StartRange()") && strings.Count(p, ".") == 2 {
					starts[shortType(derefType(f.Params[0].Type()))] = strings.TrimSuffix(strings.TrimPrefix(p, "p0."), ".StartRange()")
				}
			}
		}
	}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || f.Name() != "walkChildNodes" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		tn := shortType(derefType(f.Params[0].Type()))
		e := newPathEnv(c, f)
		type visit struct {
			owner, field string
			at           ssa.Instruction
		}
		var vs []visit
		e.calls(func(e2 *pathEnv, call ssa.CallInstruction, args []ssa.Value) {
			if e2.f != f || call.Common().StaticCallee() != nil || call.Common().IsInvoke() || len(args) == 0 {
				return
			}
			if owner, field := ownerField(args[0]); owner != "" {
				vs = append(vs, visit{owner, field, call})
			}
			if mi, ok := args[0].(*ssa.MakeInterface); ok {
				// children wrapped with a scope
				if ps := wrappedPaths(e2, mi.X); len(ps) == 1 {
					vs = append(vs, visit{tn, strings.TrimPrefix(ps[0], "p0."), call})
				}
			}
		})
		for i, a := range vs {
			for _, b := range vs[i+1:] {
				x, y := a, b
				if x.field == y.field || x.owner != y.owner {
					continue
				}
				fw, bw := after(x.at, y.at), after(y.at, x.at)
				if inSameLoop(f, x.at, y.at) {
					fw, bw = posBefore(x.at, y.at), posBefore(y.at, x.at)
				}
				if fw == bw {
					continue
				}
				if bw {
					x, y = y, x
				}
				c.Count("orders compared", 1)
				if starts[x.owner] == y.field {
					c.Report("order", tn+" "+x.field, x.at, fmt.Sprintf("%s is visited before %s, which the expression starts with", x.field, y.field))
				} else if read[x.owner+" "+y.field+" "+x.field] && !read[x.owner+" "+x.field+" "+y.field] {
					c.Report("order", tn+" "+x.field, x.at, fmt.Sprintf("%s is visited before %s, which comes first in the source", x.field, y.field))
				}
			}
		}
	}
}

// ownerField: the structure and field a value was loaded from.
func ownerField(v ssa.Value) (owner, field string) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return shortType(derefType(fa.X.Type())), fieldOf(fa.X.Type(), fa.Field)
			}
		case *ssa.Field:
			return shortType(derefType(x.X.Type())), fieldOf(x.X.Type(), x.Field)
		}
		return "", ""
	}
}

// posBefore: the first instruction is always reached before the second one in
// a round of the loop they share.
func posBefore(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func inSameLoop(f *ssa.Function, a, b ssa.Instruction) bool {
	for _, l := range loopsOf(f) {
		if l.blocks[a.Block()] && l.blocks[b.Block()] {
			return true
		}
	}
	return false
}

// wrappedPaths: the fields of the receiver put into a literal.
func wrappedPaths(e *pathEnv, v ssa.Value) []string {
	if ld, ok := isLoad(v); ok {
		v = ld.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []string
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				for _, p := range e.of(st.Val) {
					if strings.HasPrefix(p, "p0.") && !strings.Contains(p, "(") {
						out = append(out, p)
					}
				}
			}
		}
	}
	return uniqPaths(out)
}

// readOrder: for each syntax node type, which field's value is read before
// which other field's, where a parser function makes the node.
func readOrder(c *Ctx) map[string]bool {
	out := map[string]bool{}
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" {
			continue
		}
		made := map[*ssa.Alloc]map[string][]ssa.Instruction{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				al, ok := fa.X.(*ssa.Alloc)
				if !ok {
					continue
				}
				name := fieldOf(fa.X.Type(), fa.Field)
				if made[al] == nil {
					made[al] = map[string][]ssa.Instruction{}
				}
				made[al][name] = append(made[al][name], readBy(c, st.Val, map[ssa.Value]bool{})...)
			}
		}
		for al, fields := range made {
			tn := shortType(derefType(al.Type()))
			for x, xs := range fields {
				for y, ys := range fields {
					if x == y || len(xs) == 0 || len(ys) == 0 {
						continue
					}
					before := true
					for _, a := range xs {
						for _, b := range ys {
							if a == b || !after(a, b) || after(b, a) && !posBefore(a, b) {
								before = false
							}
						}
					}
					if before {
						out[tn+" "+x+" "+y] = true
					}
				}
			}
		}
	}
	return out
}

// readBy: the calls that read an expression.
func readBy(c *Ctx, v ssa.Value, seen map[ssa.Value]bool) []ssa.Instruction {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		var out []ssa.Instruction
		for _, e := range x.Edges {
			out = append(out, readBy(c, e, seen)...)
		}
		return out
	case *ssa.Extract:
		return readBy(c, x.Tuple, seen)
	case *ssa.MakeInterface:
		return readBy(c, x.X, seen)
	case *ssa.ChangeInterface:
		return readBy(c, x.X, seen)
	case *ssa.Alloc:
		// a wrapper made around what was read
		var out []ssa.Instruction
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && types.IsInterface(st.Val.Type()) {
						out = append(out, readBy(c, st.Val, seen)...)
					}
				}
			}
		}
		return out
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g != nil && c.PkgOf(g) == "hcl/hclsyntax" && g.Signature.Recv() != nil && strings.HasSuffix(g.Signature.Recv().Type().String(), ".parser") {
			return []ssa.Instruction{x}
		}
	}
	return nil
}
