package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: edits of a writable file.
//
// Below are functions that link elements of lists: they are followed on
// abstract heaps in which the element, its neighbours and the list are told
// apart. Above are owners of lists, which keep records of some elements: what
// is linked is recorded, what is recorded is linked, and what is unlinked or
// replaced is not on record any longer.

func init() {
	register("C14", "edits keep structure and records consistent", runC14)
}

type editCheck struct {
	c                       *Ctx
	s                       *segFlow
	first, last, next, prev int
	owner, content          int // fields of elements
	kinds                   map[*ssa.Function]string
	set                     *types.Named
	sets                    map[*ssa.Function]string // add, remove, has, list
}

func runC14(c *Ctx) {
	e := &editCheck{c: c, s: &segFlow{c: c}, kinds: map[*ssa.Function]string{}, sets: map[*ssa.Function]string{}}
	e.s.findTree()
	if e.s.node == nil {
		c.Report("anchor", "list", nil, "the list of elements with contents is not found")
		return
	}
	if !e.findLinks() {
		c.Report("anchor", "links", nil, "the links of lists and elements are not found")
		return
	}
	e.shapes()
	e.findSets()
	e.records()
	e.walks()
	e.lookups()
	e.edits()
	e.built()
	c.Floor("list operations", 4)
	c.Floor("heaps", 12)
	c.Floor("linked elements", 10)
	c.Floor("recorded elements", 10)
	c.Floor("edits", 3)
	c.Floor("built sequences", 2)
}

func (e *editCheck) funcs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range e.c.Funcs {
		if e.c.PkgOf(f) == writePkg && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

func (e *editCheck) isNode(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), e.s.node)
}

func (e *editCheck) isList(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), e.s.nodes)
}

// findLinks: loops go from the first of a list to the next of each.
func (e *editCheck) findLinks() bool {
	starts, steps := map[int]int{}, map[int]int{}
	for _, f := range e.funcs() {
		for _, l := range loopsOf(f) {
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok || !e.isNode(phi.Type()) {
					continue
				}
				for i, ed := range phi.Edges {
					ld, ok := isLoad(ed)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if l.blocks[l.header.Preds[i]] && e.isNode(fa.X.Type()) {
						steps[fa.Field]++
					} else if e.isList(fa.X.Type()) {
						starts[fa.Field]++
					}
				}
			}
		}
	}
	most := func(m map[int]int) int {
		best := -1
		for k, n := range m {
			if best < 0 || n > m[best] {
				best = k
			}
		}
		return best
	}
	e.first, e.next = most(starts), most(steps)
	if e.first < 0 || e.next < 0 {
		return false
	}
	e.last = 1 - e.first
	st := e.s.node.Underlying().(*types.Struct)
	e.prev, e.owner, e.content = -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type(); {
		case e.isNode(t) && i != e.next:
			e.prev = i
		case e.isList(t):
			e.owner = i
		default:
			if _, ok := t.Underlying().(*types.Interface); ok {
				e.content = i
			}
		}
	}
	return e.prev >= 0 && e.owner >= 0 && e.content >= 0
}

// --- abstract heaps

type node14 struct {
	name string
	list bool
}

type sval struct {
	c      *node14   // nil: the null pointer, or opaque
	opaque ssa.Value // a value the heap says nothing about
	addr   bool      // the address of a field
	field  int
}

type heap map[*node14]map[int]sval

func (h heap) clone() heap {
	out := heap{}
	for c, m := range h {
		n := map[int]sval{}
		for k, v := range m {
			n[k] = v
		}
		out[c] = n
	}
	return out
}

type heapRun struct {
	e     *editCheck
	fresh int
	ends  []heapEnd
	open  bool // something could not be followed
	steps int
}

type heapEnd struct {
	h      heap
	res    []sval
	panics bool
	chose  bool
}

// touches: a function that sets links, itself or through others it calls.
func (e *editCheck) touches(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if e.isList(x.Addr.Type()) || e.isNode(x.Addr.Type()) {
					return true
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if e.isList(fa.X.Type()) || e.isNode(fa.X.Type()) && fa.Field != e.content {
						return true
					}
				}
			case *ssa.Call:
				if h := x.Call.StaticCallee(); h != nil && e.c.PkgOf(h) == writePkg && e.touches(h, seen) {
					return true
				}
			}
		}
	}
	return false
}

type config struct {
	name string
	h    heap
	args map[*ssa.Parameter]sval
	list *node14
	seq  []*node14
	subj *node14 // the element the operation is on, when in the list
	free *node14 // an element given that is in no list
}

// configs: the heaps an operation may be called with.
func (e *editCheck) configs(f *ssa.Function) []*config {
	var nodeP, listP []*ssa.Parameter
	for _, p := range f.Params {
		if e.isNode(p.Type()) {
			nodeP = append(nodeP, p)
		} else if e.isList(p.Type()) {
			listP = append(listP, p)
		} else if e.s.hasList(p.Type()) {
			return nil
		}
	}
	if len(nodeP) > 1 || len(listP) > 1 || len(nodeP)+len(listP) == 0 {
		return nil
	}
	make := func(n, at int) *config {
		cf := &config{name: fmt.Sprintf("a list of %d", n), h: heap{}, args: map[*ssa.Parameter]sval{}, list: &node14{"list", true}}
		for i := 0; i < n; i++ {
			c := &node14{fmt.Sprintf("element %d", i), false}
			cf.seq = append(cf.seq, c)
		}
		cf.h[cf.list] = map[int]sval{}
		if n > 0 {
			cf.h[cf.list][e.first] = sval{c: cf.seq[0]}
			cf.h[cf.list][e.last] = sval{c: cf.seq[n-1]}
		}
		for i, c := range cf.seq {
			cf.h[c] = map[int]sval{e.owner: {c: cf.list}}
			if i > 0 {
				cf.h[c][e.prev] = sval{c: cf.seq[i-1]}
			}
			if i < n-1 {
				cf.h[c][e.next] = sval{c: cf.seq[i+1]}
			}
		}
		if at >= 0 {
			cf.subj = cf.seq[at]
			cf.name += fmt.Sprintf(", element %d", at)
		}
		return cf
	}
	var out []*config
	switch {
	case len(listP) == 1:
		for n := 0; n <= 3; n++ {
			cf := make(n, -1)
			cf.args[listP[0]] = sval{c: cf.list}
			if len(nodeP) == 1 {
				cf.free = &node14{"given", false}
				cf.h[cf.free] = map[int]sval{}
				cf.args[nodeP[0]] = sval{c: cf.free}
			}
			out = append(out, cf)
		}
	default:
		for n := 1; n <= 3; n++ {
			for i := 0; i < n; i++ {
				cf := make(n, i)
				cf.args[nodeP[0]] = sval{c: cf.subj}
				out = append(out, cf)
			}
		}
	}
	return out
}

// shapes follows every operation on lists.
func (e *editCheck) shapes() {
	for _, f := range e.funcs() {
		if !e.touches(f, map[*ssa.Function]bool{}) {
			continue
		}
		cfs := e.configs(f)
		if cfs == nil {
			e.directLinks(f)
			continue
		}
		name := e.c.FuncName(f)
		var kinds map[string]bool
		ok := true
		for _, cf := range cfs {
			r := &heapRun{e: e}
			env := map[ssa.Value]sval{}
			for p, v := range cf.args {
				env[p] = v
			}
			r.run(f, env, cf.h.clone(), false, 0, func(end heapEnd) { r.ends = append(r.ends, end) })
			if r.open {
				e.c.Report("shape", name+" open", f, name+" changes the links of lists in a way that is not followed")
				ok = false
				break
			}
			e.c.Count("heaps", 1)
			for _, end := range r.ends {
				if end.panics {
					if !end.chose {
						e.c.Report("shape", name+" panic", f, fmt.Sprintf("%s panics on %s", name, cf.name))
						ok = false
					}
					continue
				}
				k, msg := e.judge(f, cf, end)
				if msg != "" {
					e.c.Report("shape", name+" "+cf.name, f, fmt.Sprintf("%s on %s: %s", name, cf.name, msg))
					ok = false
					continue
				}
				if k["none"] && end.chose {
					continue
				}
				if kinds == nil {
					kinds = k
					continue
				}
				both := map[string]bool{}
				for x := range k {
					if kinds[x] {
						both[x] = true
					}
				}
				if len(both) == 0 {
					e.c.Report("shape", name+" kind", f, fmt.Sprintf("%s is to %s, but on %s to %s", name, strings.Join(sortedKeys(kinds), " or "), cf.name, strings.Join(sortedKeys(k), " or ")))
					ok = false
					continue
				}
				kinds = both
			}
		}
		kind := strings.Join(sortedKeys(kinds), " or ")
		e.c.Count("list operations", 1)
		e.c.Obligation("%s: %s", name, kind)
		if ok {
			e.kinds[f] = kind
		}
	}
}

// directLinks: outside of list operations, an element may only be told the
// list it is in.
func (e *editCheck) directLinks(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if e.isList(fa.X.Type()) {
				if _, lit := fa.X.(*ssa.Alloc); !lit {
					e.c.Report("links", e.c.FuncName(f), st, e.c.FuncName(f)+" changes the ends of a list directly")
				}
			}
			if !e.isNode(fa.X.Type()) || fa.Field == e.content {
				continue
			}
			if fa.Field == e.owner {
				a, ok1 := e.baseOf(fa.X)
				l, ok2 := e.listBase(st.Val)
				if ok1 && ok2 && a == l {
					continue
				}
			}
			e.c.Report("links", e.c.FuncName(f), st, e.c.FuncName(f)+" changes the links of an element directly")
		}
	}
}

// baseOf: the owner of a field an element was loaded from.
func (e *editCheck) baseOf(v ssa.Value) (ssa.Value, bool) {
	ld, ok := isLoad(v)
	if !ok {
		return nil, false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	return rootOf(fa.X), true
}

// rootOf strips embedding and loads of variables.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if vs := valuesIn(al); len(vs) == 1 {
					v = vs[0]
					continue
				}
			}
		case *ssa.Alloc:
			// a part that becomes a field of something else
			if in := partOfWhat(x); in != nil {
				v = in
				continue
			}
		}
		return v
	}
}

// partOfWhat: the address of the field a variable is copied to.
func partOfWhat(al *ssa.Alloc) ssa.Value {
	if _, ok := derefType(al.Type()).Underlying().(*types.Struct); !ok {
		return nil
	}
	var to ssa.Value
	for _, r := range *al.Referrers() {
		ld, ok := r.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		for _, u := range *ld.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Val == ssa.Value(ld) {
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || to != nil {
					return nil
				}
				to = fa
			}
		}
	}
	return to
}

// listBase: the owner of a list.
func (e *editCheck) listBase(v ssa.Value) (ssa.Value, bool) {
	if phi, ok := v.(*ssa.Phi); ok && len(phi.Edges) > 0 {
		var base ssa.Value
		for _, ed := range phi.Edges {
			if isNilConst(ed) {
				continue
			}
			b, ok := e.listBase(ed)
			if !ok || base != nil && b != base {
				return nil, false
			}
			base = b
		}
		return base, base != nil
	}
	ld, ok := isLoad(v)
	if !ok {
		// a list that becomes the one of a structure
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Val == v {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && !e.isNode(fa.X.Type()) {
						return rootOf(fa.X), true
					}
				}
			}
		}
		return nil, false
	}
	switch x := ld.X.(type) {
	case *ssa.FieldAddr:
		return rootOf(x.X), true
	case *ssa.Alloc:
		if vs := valuesIn(x); len(vs) == 1 {
			return e.listBase(vs[0])
		}
	}
	return nil, false
}

func (e *editCheck) seqOf(h heap, l *node14) (fw, bw []*node14) {
	for c := h[l][e.first].c; c != nil && len(fw) < 8; c = h[c][e.next].c {
		fw = append(fw, c)
	}
	for c := h[l][e.last].c; c != nil && len(bw) < 8; c = h[c][e.prev].c {
		bw = append([]*node14{c}, bw...)
	}
	return
}

func sameCells(a, b []*node14) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judge: what became of the list, and is it a list still?
func (e *editCheck) judge(f *ssa.Function, cf *config, end heapEnd) (kinds map[string]bool, bad string) {
	fw, bw := e.seqOf(end.h, cf.list)
	if !sameCells(fw, bw) {
		return nil, "the links in the two directions do not agree"
	}
	in := map[*node14]bool{}
	for _, c := range fw {
		in[c] = true
		if end.h[c][e.owner].c != cf.list {
			return nil, c.name + " is in the list without knowing so"
		}
	}
	for c, m := range end.h {
		if c.list || in[c] || !e.known(cf, c) && len(fw) == len(cf.seq) {
			continue
		}
		if len(fw) > 0 && (m[e.owner].c != nil || m[e.prev].c != nil || m[e.next].c != nil) {
			return nil, c.name + " is not in the list but has links"
		}
	}
	var result *node14
	hasResult := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if e.isNode(f.Signature.Results().At(i).Type()) && i < len(end.res) {
			hasResult = true
			result = end.res[i].c
		}
	}
	if sameCells(fw, cf.seq) {
		if result != nil {
			return nil, "the element returned is not in the list"
		}
		if len(fw) == 0 && cf.subj == nil {
			return map[string]bool{"none": true, "clear": true}, ""
		}
		return map[string]bool{"none": true}, ""
	}
	n := len(cf.seq)
	contentOf := func(c *node14) string {
		if e.known(cf, c) || c == cf.free {
			return ""
		}
		v := end.h[c][e.content]
		x := v.opaque
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		if _, ok := x.(*ssa.Parameter); !ok {
			return "the new element does not have the content given"
		}
		return ""
	}
	if cf.subj == nil {
		switch {
		case len(fw) == 0:
			return map[string]bool{"clear": true}, ""
		case len(fw) == n+1 && sameCells(fw[:n], cf.seq):
			if hasResult && result != fw[n] {
				return nil, "the element returned is not the one added"
			}
			if cf.free != nil && fw[n] != cf.free {
				return nil, "another element than the one given is added"
			}
			k := map[string]bool{"append": true}
			if n == 0 {
				k["prepend"] = true
			}
			return k, contentOf(fw[n])
		case len(fw) == n+1 && sameCells(fw[1:], cf.seq):
			if hasResult && result != fw[0] {
				return nil, "the element returned is not the one added"
			}
			if cf.free != nil && fw[0] != cf.free {
				return nil, "another element than the one given is added"
			}
			return map[string]bool{"prepend": true}, contentOf(fw[0])
		}
		return nil, "the list has its elements in another order or number than before"
	}
	var rest []*node14
	at := 0
	for i, c := range cf.seq {
		if c == cf.subj {
			at = i
		} else {
			rest = append(rest, c)
		}
	}
	if sameCells(fw, rest) {
		return map[string]bool{"remove": true}, ""
	}
	if len(fw) == n && !e.known(cf, fw[at]) {
		want := append(append(append([]*node14{}, cf.seq[:at]...), fw[at]), cf.seq[at+1:]...)
		if sameCells(fw, want) {
			if hasResult && result != fw[at] {
				return nil, "the element returned is not the one put in place"
			}
			return map[string]bool{"replace": true}, contentOf(fw[at])
		}
	}
	return nil, "the list has its elements in another order or number than before"
}

func (e *editCheck) known(cf *config, c *node14) bool {
	for _, k := range cf.seq {
		if k == c {
			return true
		}
	}
	return c == cf.free
}

func (r *heapRun) run(f *ssa.Function, env map[ssa.Value]sval, h heap, chose bool, depth int, done func(heapEnd)) {
	if len(f.Blocks) == 0 || depth > 6 {
		r.open = true
		return
	}
	r.block(f, f.Blocks[0], nil, 0, env, h, chose, depth, done)
}

func copyEnv(m map[ssa.Value]sval) map[ssa.Value]sval {
	out := make(map[ssa.Value]sval, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (r *heapRun) val(env map[ssa.Value]sval, v ssa.Value) sval {
	if s, ok := env[v]; ok {
		return s
	}
	if isNilConst(v) {
		return sval{}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if s, ok := env[x.X]; ok && s.opaque != nil {
			return s
		}
	}
	return sval{opaque: v}
}

func (r *heapRun) block(f *ssa.Function, b, from *ssa.BasicBlock, i int, env map[ssa.Value]sval, h heap, chose bool, depth int, done func(heapEnd)) {
	r.steps++
	if r.steps > 2000 {
		r.open = true
		return
	}
	e := r.e
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi:
			for k, p := range b.Preds {
				if p == from {
					env[x] = r.val(env, x.Edges[k])
				}
			}
		case *ssa.Alloc:
			t := derefType(x.Type())
			r.fresh++
			c := &node14{fmt.Sprintf("new %d", r.fresh), types.Identical(t, e.s.nodes)}
			h[c] = map[int]sval{}
			env[x] = sval{c: c}
			if !types.Identical(t, e.s.node) && !types.Identical(t, e.s.nodes) {
				env[x] = sval{c: c, addr: true, field: -1}
			}
		case *ssa.FieldAddr:
			if s := r.val(env, x.X); s.c != nil && !s.addr {
				env[x] = sval{c: s.c, addr: true, field: x.Field}
			} else if e.isNode(x.X.Type()) || e.isList(x.X.Type()) {
				if s.opaque == nil && s.c == nil {
					done(heapEnd{h: h, panics: true, chose: chose})
					return
				}
				r.open = true
				return
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				s := r.val(env, x.X)
				if s.c != nil && s.addr {
					if v, ok := h[s.c][s.field]; ok {
						env[x] = v
					} else if e.isNode(x.Type()) || e.isList(x.Type()) {
						env[x] = sval{}
					}
				}
			}
		case *ssa.Store:
			s := r.val(env, x.Addr)
			if s.c != nil && s.addr {
				h[s.c][s.field] = r.val(env, x.Val)
			} else if s.c != nil {
				// the whole of it
				whole := map[int]sval{}
				if ld, ok := isLoad(x.Val); ok {
					from := r.val(env, ld.X)
					if from.c == nil || from.addr {
						r.open = true
						return
					}
					for k, v := range h[from.c] {
						whole[k] = v
					}
				} else if _, ok := x.Val.(*ssa.Const); !ok {
					r.open = true
					return
				}
				h[s.c] = whole
			} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok && (e.isNode(fa.X.Type()) || e.isList(fa.X.Type())) {
				r.open = true
				return
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g != nil && e.c.PkgOf(g) == writePkg && len(g.Blocks) > 0 && r.passes(env, &x.Call, g) {
				inner := map[ssa.Value]sval{}
				for k, p := range g.Params {
					inner[p] = r.val(env, x.Call.Args[k])
				}
				next := i + 1
				r.run(g, inner, h, chose, depth+1, func(end heapEnd) {
					if end.panics {
						done(end)
						return
					}
					env2 := copyEnv(env)
					if len(end.res) == 1 {
						env2[x] = end.res[0]
					} else if len(end.res) > 1 {
						r.open = true
					}
					r.block(f, b, from, next, env2, end.h.clone(), end.chose, depth, done)
				})
				return
			}
		case *ssa.Panic:
			done(heapEnd{h: h, panics: true, chose: chose})
			return
		case *ssa.Return:
			var res []sval
			for _, v := range x.Results {
				res = append(res, r.val(env, v))
			}
			done(heapEnd{h: h, res: res, chose: chose})
			return
		case *ssa.Jump:
			r.block(f, b.Succs[0], b, 0, env, h, chose, depth, done)
			return
		case *ssa.If:
			if k, ok := r.decide(env, x.Cond); ok {
				s := b.Succs[1]
				if k {
					s = b.Succs[0]
				}
				r.block(f, s, b, 0, env, h, chose, depth, done)
				return
			}
			r.block(f, b.Succs[0], b, 0, copyEnv(env), h.clone(), true, depth, done)
			r.block(f, b.Succs[1], b, 0, copyEnv(env), h.clone(), true, depth, done)
			return
		}
	}
}

// passes: is the call about elements or lists?
func (r *heapRun) passes(env map[ssa.Value]sval, com *ssa.CallCommon, g *ssa.Function) bool {
	for _, a := range com.Args {
		if s := r.val(env, a); s.c != nil && !s.addr {
			return true
		}
	}
	res := g.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if r.e.isNode(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func (r *heapRun) decide(env map[ssa.Value]sval, v ssa.Value) (bool, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k, ok := r.decide(env, x.X)
			return !k, ok
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false, false
		}
		a, b := r.val(env, x.X), r.val(env, x.Y)
		if a.opaque != nil || b.opaque != nil {
			return false, false
		}
		return (a == b) == (x.Op == token.EQL), true
	}
	return false, false
}

// --- sets

// findSets: a set is a map with elements as keys; what its methods do is found
// in the operations on the map.
func (e *editCheck) findSets() {
	for _, f := range e.funcs() {
		if f.Signature.Recv() == nil || len(f.Params) == 0 {
			continue
		}
		m, ok := f.Params[0].Type().Underlying().(*types.Map)
		if !ok || !e.isNode(m.Key()) {
			continue
		}
		e.set, _ = f.Params[0].Type().(*types.Named)
		name := e.c.FuncName(f)
		kind := ""
		var arg ssa.Value
		if len(f.Params) > 1 {
			arg = f.Params[1]
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if x.Map == ssa.Value(f.Params[0]) {
						kind = "add"
						if x.Key != arg {
							e.c.Report("set", name, x, name+" adds something else than what it is given")
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						kind = "remove"
						if x.Call.Args[1] != arg {
							e.c.Report("set", name, x, name+" removes something else than what it is given")
						}
					}
				}
			}
		}
		if res := f.Signature.Results(); kind == "" && res.Len() == 1 {
			if b, ok := res.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && arg != nil {
				kind = "has"
				e.has(f, name)
			}
			if sl, ok := res.At(0).Type().Underlying().(*types.Slice); ok && e.isNode(sl.Elem()) {
				kind = "list"
			}
		}
		if kind == "" {
			kind = "none"
		}
		if kind == "none" && f.Signature.Results().Len() == 0 {
			e.c.Report("set", name, f, name+" does nothing to the set")
		}
		e.sets[f] = kind
		if kind == "add" || kind == "remove" {
			// on every way
			done := map[*ssa.BasicBlock]map[string]bool{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						done[b] = map[string]bool{"x": true}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							done[b] = map[string]bool{"x": true}
						}
					}
				}
			}
			if !mustPass(f, noAssumptions(f), done, "x") {
				e.c.Report("set", name+" always", f, name+" does not always "+kind+" what it is given")
			}
		}
	}
	if e.set == nil {
		e.c.Report("anchor", "set", nil, "no set of elements is found")
	}
}

func noAssumptions(f *ssa.Function) *assumed {
	return assume(f, func(ssa.Value) constant.Value { return nil })
}

// looksUp: whether the second parameter is in the first.
func (e *editCheck) looksUp(f *ssa.Function, v ssa.Value) bool {
	x, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	lk, ok := x.Tuple.(*ssa.Lookup)
	return ok && lk.Index == ssa.Value(f.Params[1]) && lk.X == ssa.Value(f.Params[0]) && x.Index == 1
}

func (e *editCheck) has(f *ssa.Function, name string) {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		switch x := ret.Results[0].(type) {
		case *ssa.Const:
			yes := x.Value != nil && constant.BoolVal(x.Value)
			tests := dominatingTests(b)
			looked := false
			for _, d := range tests {
				if e.looksUp(f, d.cond) {
					looked = true
					if d.yes != yes {
						e.c.Report("set", name, At(ret.Pos()), name+" says the contrary")
					}
				}
			}
			if yes && !looked {
				e.c.Report("set", name, At(ret.Pos()), name+" says that something is in the set without looking")
			}
			if !yes && len(tests) == 0 && !f.Blocks[0].Dominates(b) {
				e.c.Report("set", name, At(ret.Pos()), name+" says that nothing is in the set")
			}
		case *ssa.Extract:
			if !e.looksUp(f, x) {
				e.c.Report("set", name, At(ret.Pos()), name+" does not look for what it is given")
			}
		case *ssa.UnOp:
			if x.Op == token.NOT {
				e.c.Report("set", name, At(ret.Pos()), name+" says the contrary")
			}
		}
	}
}

// --- owners

// An event is something done to an element in a function.
type nodeEvent struct {
	kind string // link, record
	node ssa.Value
	base ssa.Value
	what string
	at   ssa.Instruction
	cont types.Type // the type of content when known
	loos bool       // plain tokens
}

// nodeRoot: the value that stands for an element.
func nodeRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		ld, ok := isLoad(v)
		if !ok {
			return v
		}
		switch x := ld.X.(type) {
		case *ssa.Alloc:
			vs := valuesIn(x)
			if len(vs) != 1 {
				return v
			}
			v = vs[0]
		case *ssa.FieldAddr:
			var st *ssa.Store
			n := 0
			for _, b := range ld.Parent().Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == x.Field && rootOf(fa.X) == rootOf(x.X) && types.Identical(fa.X.Type(), x.X.Type()) {
							st = s
							n++
						}
					}
				}
			}
			if n != 1 || !instrBefore(st, ld) {
				return v
			}
			v = st.Val
		default:
			return v
		}
	}
	return v
}

// events of a function on the elements of structures.
func (e *editCheck) events(f *ssa.Function) []nodeEvent {
	var out []nodeEvent
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					continue
				}
				switch {
				case e.kinds[g] == "append" || e.kinds[g] == "prepend":
					base, ok := e.listBase(x.Call.Args[0])
					if !ok {
						if _, isParam := x.Call.Args[0].(*ssa.Parameter); isParam {
							continue
						}
						base = nil
					}
					ev := nodeEvent{kind: "link", base: base, at: x, node: x}
					arg := x.Call.Args[len(x.Call.Args)-1]
					if e.isNode(arg.Type()) {
						ev.node = nodeRoot(arg)
						ev.cont = e.contentType(ev.node, 0)
					} else {
						if mi, ok := arg.(*ssa.MakeInterface); ok {
							arg = mi.X
						}
						ev.cont = arg.Type()
						ev.loos = isWriterTokens(arg.Type())
					}
					out = append(out, ev)
				case e.sets[g] == "add":
					base, what := e.fieldBase(x.Call.Args[0])
					out = append(out, nodeEvent{kind: "record", node: nodeRoot(x.Call.Args[1]), base: base, what: what, at: x})
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !e.isNode(x.Val.Type()) || e.isNode(fa.X.Type()) || e.isList(fa.X.Type()) || isNilConst(x.Val) {
					continue
				}
				out = append(out, nodeEvent{kind: "record", node: nodeRoot(x.Val), base: rootOf(fa.X), what: fieldOf(fa.X.Type(), fa.Field), at: x})
			}
		}
	}
	return out
}

// fieldBase: the owner and the field a set was loaded from.
func (e *editCheck) fieldBase(v ssa.Value) (ssa.Value, string) {
	ld, ok := isLoad(v)
	if !ok {
		return nil, ""
	}
	switch x := ld.X.(type) {
	case *ssa.FieldAddr:
		return rootOf(x.X), fieldOf(x.X.Type(), x.Field)
	case *ssa.Alloc:
		if vs := valuesIn(x); len(vs) == 1 {
			return e.fieldBase(vs[0])
		}
	}
	return nil, ""
}

// contentType: the type of the content of an element.
func (e *editCheck) contentType(v ssa.Value, depth int) types.Type {
	if depth > 5 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return nil
		}
		for _, a := range x.Call.Args {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				return mi.X.Type()
			}
		}
		var out types.Type
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, r := range ret.Results {
					if e.isNode(r.Type()) {
						t := e.contentType(nodeRoot(r), depth+1)
						if t == nil || out != nil && !types.Identical(t, out) {
							return nil
						}
						out = t
					}
				}
			}
		}
		return out
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return e.contentType(call, depth+1)
		}
	}
	return nil
}

// records: what is linked into a structure is on record there, and the other
// way round, whichever way is taken.
func (e *editCheck) records() {
	contents := map[string]map[string]bool{}
	for _, f := range e.funcs() {
		if e.kinds[f] != "" || e.sets[f] != "" {
			continue
		}
		evs := e.events(f)
		name := e.c.FuncName(f)
		for _, ev := range evs {
			if ev.kind == "link" {
				e.c.Count("linked elements", 1)
				if ev.loos {
					if src := e.slicedFrom(ev); src != nil {
						n := 0
						for _, o := range evs {
							if o.loos && e.slicedFrom(o) == src {
								n++
							}
						}
						if n == 1 {
							e.c.Report("part", name, ev.at, name+" links only a part of some tokens")
						}
					}
					continue
				}
				if !e.answered(f, ev, evs, "record") {
					e.c.Report("record", name+" "+contentName(ev.cont), ev.at, fmt.Sprintf("%s links an element (%s) that is not always on record in its structure", name, contentName(ev.cont)))
				}
			}
			if ev.kind == "record" {
				e.c.Count("recorded elements", 1)
				if ev.base == nil {
					e.c.Report("record", name+" base", ev.at, name+" records an element where the structure is not found")
					continue
				}
				if call, ok := ev.node.(*ssa.Call); ok && call.Call.StaticCallee() != nil && e.kinds[call.Call.StaticCallee()] == "replace" {
					// the one put in place of what was on record there
					ld, ok := isLoad(call.Call.Args[0])
					same := false
					if ok {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok {
							same = rootOf(fa.X) == ev.base && fieldOf(fa.X.Type(), fa.Field) == ev.what
						}
					}
					if !same {
						e.c.Report("record", name+" replaced", ev.at, name+" records a replacement in another place than what was replaced")
					}
					continue
				}
				if e.answered(f, ev, evs, "link") {
					k := shortType(derefType(ev.base.Type())) + "." + ev.what
					if t := e.linkedType(ev, evs); t != nil {
						if contents[k] == nil {
							contents[k] = map[string]bool{}
						}
						contents[k][contentName(t)] = true
					}
					continue
				}
				e.c.Report("record", name+" "+ev.what, ev.at, fmt.Sprintf("%s puts an element on record (%s) that is not always linked into the same structure", name, ev.what))
			}
		}
		e.replaced(f, name)
		e.cleared(f, name)
		e.removed(f, name)
	}
	e.asserted(contents)
}

// slicedFrom: the sequence of tokens a part of which is linked.
func (e *editCheck) slicedFrom(ev nodeEvent) ssa.Value {
	call, ok := ev.at.(*ssa.Call)
	if !ok {
		return nil
	}
	v := call.Call.Args[len(call.Call.Args)-1]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if sl, ok := v.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
		if _, lit := sl.X.(*ssa.Alloc); !lit {
			return sl.X
		}
	}
	return nil
}

func contentName(t types.Type) string {
	if t == nil {
		return "given"
	}
	return shortType(t)
}

func (e *editCheck) linkedType(ev nodeEvent, evs []nodeEvent) types.Type {
	for _, o := range evs {
		if o.kind == "link" && o.node == ev.node {
			return o.cont
		}
	}
	return nil
}

// answered: on every way there is also an event of the other kind for the
// same element and structure.
func (e *editCheck) answered(f *ssa.Function, ev nodeEvent, evs []nodeEvent, kind string) bool {
	var at []ssa.Instruction
	for _, o := range evs {
		if o.kind == kind && o.node == ev.node && o.base == ev.base {
			at = append(at, o.at)
		}
	}
	if len(at) == 0 {
		return false
	}
	for _, a := range at {
		if instrBefore(a, ev.at) && a != ev.at {
			l := innermost(f, ev.at.Block())
			if l == nil || l.blocks[a.Block()] || !l.blocks[nodeBlock(ev.node)] {
				return true
			}
		}
	}
	hit := map[*ssa.BasicBlock]map[string]bool{}
	for _, a := range at {
		if a.Block() == ev.at.Block() && instrBefore(ev.at, a) {
			return true
		}
		hit[a.Block()] = map[string]bool{"x": true}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if hit[b]["x"] {
			return true
		}
		if b == ev.at.Block() {
			return false
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	if _, ok := ev.at.Block().Instrs[len(ev.at.Block().Instrs)-1].(*ssa.Return); ok {
		return false
	}
	for _, s := range ev.at.Block().Succs {
		if !walk(s) {
			return false
		}
	}
	return true
}

func nodeBlock(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// replaced: a replacement is put on record where what it replaces was.
func (e *editCheck) replaced(f *ssa.Function, name string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || e.kinds[call.Call.StaticCallee()] != "replace" {
				continue
			}
			e.c.Count("replacements", 1)
			base, ok := e.baseOf(call.Call.Args[0])
			if !ok {
				e.c.Report("replace", name, call, name+" replaces an element that is not on record")
				continue
			}
			done := false
			for _, r := range *call.Referrers() {
				if st, ok := r.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && rootOf(fa.X) == base {
						done = true
					}
				}
			}
			if !done {
				e.c.Report("replace", name, call, name+" does not put the replacement on record")
			}
		}
	}
}

// setFields: the sets a structure has.
func (e *editCheck) setFields(t types.Type) []string {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if e.set != nil && types.Identical(st.Field(i).Type(), e.set) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// cleared: a list is cleared together with the records.
func (e *editCheck) cleared(f *ssa.Function, name string) {
	type ev struct {
		base ssa.Value
		what string
		at   ssa.Instruction
	}
	var lists, sets []ev
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && e.kinds[g] == "clear" {
					if base, ok := e.listBase(x.Call.Args[0]); ok {
						lists = append(lists, ev{base, "", x})
					} else {
						e.c.Report("clear", name, x, name+" clears a list without its structure")
					}
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				base := rootOf(fa.X)
				if _, made := base.(*ssa.Alloc); made {
					continue
				}
				if e.set != nil && types.Identical(x.Val.Type(), e.set) && (e.freshSet(x.Val) || isNilConst(x.Val)) {
					sets = append(sets, ev{base, fieldOf(fa.X.Type(), fa.Field), x})
				} else if e.isList(x.Val.Type()) {
					lists = append(lists, ev{base, "", x})
				}
			}
		}
	}
	both := func(a, b ev) bool {
		return a.base == b.base && (instrBefore(a.at, b.at) && e.passes(f, a.at, b.at) || instrBefore(b.at, a.at) && e.passes(f, b.at, a.at))
	}
	for _, l := range lists {
		e.c.Count("cleared lists", 1)
		for _, field := range e.setFields(l.base.Type()) {
			ok := false
			for _, s := range sets {
				ok = ok || s.what == field && both(l, s)
			}
			if !ok {
				e.c.Report("clear", name+" "+field, l.at, fmt.Sprintf("%s clears the list but not always what is on record as %s", name, field))
			}
		}
	}
	for _, s := range sets {
		ok := false
		for _, l := range lists {
			ok = ok || both(l, s)
		}
		if !ok {
			e.c.Report("clear", name+" list", s.at, fmt.Sprintf("%s forgets what is on record as %s but leaves it linked", name, s.what))
		}
	}
}

// passes: from one instruction every way leads to the other.
func (e *editCheck) passes(f *ssa.Function, a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b.Block() || seen[x] {
			return true
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(a.Block())
}

func (e *editCheck) freshSet(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return e.freshSet(x.X)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !e.freshSet(ret.Results[0]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// removed: an element that is unlinked is taken off the record, and one that
// is taken off the record is unlinked.
func (e *editCheck) removed(f *ssa.Function, name string) {
	type ev struct {
		node ssa.Value
		at   ssa.Instruction
	}
	var gone, off []ev
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			g := call.Call.StaticCallee()
			if e.kinds[g] == "remove" {
				gone = append(gone, ev{nodeRoot(call.Call.Args[0]), call})
			}
			if e.sets[g] == "remove" {
				off = append(off, ev{nodeRoot(call.Call.Args[1]), call})
			}
		}
	}
	match := func(as, bs []ev, msg string) {
		for _, a := range as {
			ok := false
			for _, b := range bs {
				ok = ok || a.node == b.node && (e.passes(f, a.at, b.at) || instrBefore(b.at, a.at))
			}
			if !ok {
				e.c.Report("remove", name, a.at, name+" "+msg)
			}
		}
	}
	match(gone, off, "unlinks an element that stays on record")
	match(off, gone, "takes an element off the record that stays linked")
}

// asserted: what is expected of the content of a field is what is put there.
func (e *editCheck) asserted(contents map[string]map[string]bool) {
	for _, f := range e.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || ta.CommaOk {
					continue
				}
				ld, ok := isLoad(ta.X)
				if !ok {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok || !e.isNode(fa.X.Type()) || fa.Field != e.content {
					continue
				}
				nd, ok := isLoad(fa.X)
				if !ok {
					continue
				}
				of, ok := nd.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := shortType(derefType(of.X.Type())) + "." + fieldOf(of.X.Type(), of.Field)
				e.c.Count("contents expected", 1)
				want := shortType(ta.AssertedType)
				var other []string
				for t := range contents[k] {
					if t != want {
						other = append(other, t)
					}
				}
				sort.Strings(other)
				if len(other) > 0 {
					e.c.Report("content", k, ta, fmt.Sprintf("%s expects %s in %s, where there can be %s", e.c.FuncName(f), want, k, strings.Join(other, ", ")))
				}
			}
		}
	}
}

// walks: loops along a list start at its beginning and go through all of it.
func (e *editCheck) walks() {
	for _, f := range e.funcs() {
		for _, l := range loopsOf(f) {
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok || !e.isNode(phi.Type()) {
					continue
				}
				if !e.collects(l) {
					continue
				}
				name := e.c.FuncName(f)
				e.c.Count("walks", 1)
				for i, ed := range phi.Edges {
					fa := (*ssa.FieldAddr)(nil)
					if ld, ok := isLoad(ed); ok {
						fa, _ = ld.X.(*ssa.FieldAddr)
					}
					if l.blocks[l.header.Preds[i]] {
						if fa == nil || fa.X != ssa.Value(phi) || fa.Field != e.next {
							e.c.Report("walk", name+" step", phi, name+" does not go from each element to the next")
						}
					} else if fa == nil || !e.isList(fa.X.Type()) || fa.Field != e.first {
						e.c.Report("walk", name+" start", phi, name+" does not start with the first element")
					}
				}
				for b := range l.blocks {
					for _, s := range b.Succs {
						if !l.blocks[s] && b != l.header {
							e.c.Report("walk", name+" end", At(lastPos(b)), name+" does not go through the whole list")
						}
					}
				}
				if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
					bo, ok := iff.Cond.(*ssa.BinOp)
					if !ok || !(bo.X == ssa.Value(phi) && isNilConst(bo.Y)) {
						e.c.Report("walk", name+" end", At(lastPos(l.header)), name+" does not end with the end of the list")
					}
				}
				// what is done is done for all, or for those on record
				for b := range l.blocks {
					for _, x := range b.Instrs {
						call, ok := x.(*ssa.Call)
						if !ok {
							continue
						}
						bi, isB := call.Call.Value.(*ssa.Builtin)
						if !(isB && bi.Name() == "append") {
							continue
						}
						for d := b; d != nil && d != l.header; d = d.Idom() {
							id := d.Idom()
							if id == nil || id == l.header || !l.blocks[id] {
								continue
							}
							iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
							if !ok {
								continue
							}
							if c2, ok := iff.Cond.(*ssa.Call); ok && c2.Call.StaticCallee() != nil && e.sets[c2.Call.StaticCallee()] == "has" && c2.Call.Args[1] == ssa.Value(phi) && id.Succs[0].Dominates(b) {
								continue
							}
							if ex, ok := iff.Cond.(*ssa.Extract); ok {
								if lk, ok := ex.Tuple.(*ssa.Lookup); ok && lk.Index == ssa.Value(phi) && id.Succs[0].Dominates(b) {
									continue
								}
							}
							e.c.Report("walk", name+" condition", call, name+" lists elements on another condition than being on record")
						}
						for _, el := range appendedElements(call) {
							if e.isNode(el.Type()) && el != ssa.Value(phi) {
								e.c.Report("walk", name+" element", call, name+" lists another element")
							}
						}
					}
				}
			}
		}
	}
}

// collects: a loop that gathers something from each element, or does
// something with each.
func (e *editCheck) collects(l *loop) bool {
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if _, ok := phi.Type().Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && !call.Call.IsInvoke() {
				switch call.Call.Value.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					return true
				}
			}
		}
	}
	return false
}

// lookups: functions that go through a set give each that is of their type.
func (e *editCheck) lookups() {
	for _, f := range e.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !ta.CommaOk {
					continue
				}
				l := innermost(f, b)
				if l == nil || !e.contentOf(ta.X) {
					continue
				}
				name := e.c.FuncName(f)
				e.c.Count("lookups", 1)
				var val, okv ssa.Value
				for _, r := range *ta.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok {
						if ex.Index == 0 {
							val = ex
						} else {
							okv = ex
						}
					}
				}
				if val == nil || okv == nil {
					continue
				}
				a := assume(f, func(v ssa.Value) constant.Value {
					if v == okv {
						return constant.MakeBool(true)
					}
					return nil
				})
				hits := map[*ssa.BasicBlock]map[string]bool{}
				kinds := map[string]bool{}
				for lb := range l.blocks {
					hits[lb] = map[string]bool{}
					for _, x := range lb.Instrs {
						switch y := x.(type) {
						case *ssa.MapUpdate:
							if y.Value == val {
								hits[lb]["entry"], kinds["entry"] = true, true
								if !derivedFrom(y.Key, val, map[ssa.Value]bool{}) || partOf(y.Key, val, map[ssa.Value]bool{}) {
									e.c.Report("lookup", name+" key", y, name+" enters something under the name of something else")
								}
							}
						case *ssa.Call:
							if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
								for _, el := range appendedElements(y) {
									if el == val {
										kinds["place"] = true
										hits[lb]["entry"], kinds["entry"] = true, true
									}
								}
							}
						}
					}
				}
				if kinds["place"] && e.unordered(l) {
					e.c.Report("lookup", name+" order", ta, name+" reports in no order")
				}
				r := &round{f: f, l: l}
				if kinds["entry"] {
					if !r.every(a, hits, "entry") {
						e.c.Report("lookup", name+" all", ta, name+" does not report everything of its type that is on record")
					}
					for lb := range l.blocks {
						for _, s := range lb.Succs {
							if !l.blocks[s] && lb != l.header {
								e.c.Report("lookup", name+" all", ta, name+" stops before everything on record was seen")
							}
						}
					}
				}
				e.search(f, name, l, ta, val, okv)
			}
		}
	}
}

// unordered: a loop over a map.
func (e *editCheck) unordered(l *loop) bool {
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			return true
		}
	}
	return false
}

// partOf: a text that is only a part of what it comes from, or has more.
func partOf(v, base ssa.Value, seen map[ssa.Value]bool) bool {
	if v == base || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice, *ssa.BinOp, *ssa.Lookup, *ssa.Index:
		return true
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g == nil || !strings.HasPrefix(g.String(), "("+"*"+modPath) && g.Signature.Recv() == nil {
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && partOf(*op, base, seen) {
			return true
		}
	}
	return false
}

// returnsOnly: from a block on nothing else is returned.
func returnsOnly(b *ssa.BasicBlock, val ssa.Value, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		return len(ret.Results) == 1 && ret.Results[0] == val
	}
	for _, s := range b.Succs {
		if !returnsOnly(s, val, seen) {
			return false
		}
	}
	return true
}

// search: something is returned when, and only when, it has the name.
func (e *editCheck) search(f *ssa.Function, name string, l *loop, ta *ssa.TypeAssert, val, okv ssa.Value) {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 || ret.Results[0] != val {
			continue
		}
		e.c.Count("searches", 1)
		tested := false
		for _, d := range dominatingTests(b) {
			if !ta.Block().Dominates(nodeBlock(d.cond)) || d.cond == okv {
				if d.cond == okv && !d.yes {
					e.c.Report("lookup", name+" type", At(ret.Pos()), name+" returns something that is not of its type")
				}
				continue
			}
			if !d.yes || !derivedFrom(d.cond, val, map[ssa.Value]bool{}) {
				e.c.Report("lookup", name+" name", At(ret.Pos()), name+" returns something on another condition than having the name")
				continue
			}
			if !e.equality(d.cond) {
				e.c.Report("lookup", name+" name", At(ret.Pos()), name+" returns something whose name is not the one given")
			}
			tested = true
		}
		for lb := range l.blocks {
			for _, sb := range lb.Succs {
				if !l.blocks[sb] && lb != l.header && !returnsOnly(sb, val, map[*ssa.BasicBlock]bool{}) {
					e.c.Report("lookup", name+" stop", At(lastPos(lb)), name+" stops looking before everything on record was seen")
				}
			}
		}
		if !tested {
			e.c.Report("lookup", name+" name", At(ret.Pos()), name+" returns something without looking at its name")
		}
	}
}

// equality: a condition that is the equality of two texts.
func (e *editCheck) equality(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		return x.Op == token.EQL
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "bytes" && g.Name() == "Equal" {
			return true
		}
		if e.c.PkgOf(g) != writePkg {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !e.equality(ret.Results[0]) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

func (e *editCheck) contentOf(v ssa.Value) bool {
	ld, ok := isLoad(v)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	return ok && e.isNode(fa.X.Type()) && fa.Field == e.content
}

func derivedFrom(v, base ssa.Value, seen map[ssa.Value]bool) bool {
	if v == base {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if ld, ok := isLoad(v); ok {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			for _, w := range valuesIn(al) {
				if derivedFrom(w, base, seen) {
					return true
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && derivedFrom(*op, base, seen) {
			return true
		}
	}
	return false
}

// edits: what setting does when there is something already and when not, and
// what is returned.
func (e *editCheck) edits() {
	for _, f := range e.funcs() {
		if f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 {
			continue
		}
		recv := derefType(f.Params[0].Type())
		if !e.s.hasList(recv) || len(e.setFields(recv)) == 0 {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if _, ok := rt.(*types.Pointer); !ok || !e.s.hasList(rt) {
			continue
		}
		// a lookup by name among what it calls?
		var found *ssa.Call
		puts := false
		reach := map[*ssa.BasicBlock]map[string]bool{}
		given := map[string][]ssa.Value{}
		for _, b := range f.Blocks {
			reach[b] = map[string]bool{}
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				g := call.Call.StaticCallee()
				if e.c.PkgOf(g) != writePkg {
					continue
				}
				if types.Identical(call.Type(), rt) && len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(f.Params[0]) && !e.puts(g, map[*ssa.Function]bool{}) {
					found = call
				}
				if len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(f.Params[0]) && e.puts(g, map[*ssa.Function]bool{}) {
					puts = true
					reach[b]["append"] = true
					for _, a := range call.Call.Args[1:] {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							given["append"] = append(given["append"], mi.X)
						} else {
							given["append"] = append(given["append"], a)
						}
					}
					if types.Identical(call.Type(), rt) {
						given["append"] = append(given["append"], call)
					}
				}
				if e.kinds[g] == "replace" || e.replaces(g, map[*ssa.Function]bool{}) {
					reach[b]["replace"] = true
				}
			}
		}
		name := e.c.FuncName(f)
		if !puts {
			// a lookup itself, or one that delegates
			e.notPut(f, name)
			continue
		}
		e.c.Count("edits", 1)
		if e.delegates(f, rt) {
			continue
		}
		states := []bool{true}
		if found != nil {
			states = []bool{true, false}
		}
		for _, absent := range states {
			a := assume(f, func(v ssa.Value) constant.Value {
				bo, ok := v.(*ssa.BinOp)
				if !ok || found == nil || bo.Op != token.EQL && bo.Op != token.NEQ {
					return nil
				}
				if bo.X == ssa.Value(found) && isNilConst(bo.Y) || bo.Y == ssa.Value(found) && isNilConst(bo.X) {
					return constant.MakeBool(absent == (bo.Op == token.EQL))
				}
				return nil
			})
			want, not := "append", "replace"
			state := "is not there"
			if !absent {
				want, not, state = "replace", "append", "is there"
			}
			if !mustPass(f, a, reach, want) {
				e.c.Report("edit", name+" "+want, f, fmt.Sprintf("%s does not always %s when what is set %s", name, want, state))
			}
			for b, m := range reach {
				if a.reach[b] && m[not] {
					e.c.Report("edit", name+" "+not, f, fmt.Sprintf("%s can %s when what is set %s", name, not, state))
				}
			}
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || !a.reach[b] {
					continue
				}
				vals := []ssa.Value{ret.Results[0]}
				if phi, ok := vals[0].(*ssa.Phi); ok {
					vals = nil
					for _, v := range a.edgesInto(phi) {
						vals = append(vals, v)
					}
				}
				for _, v := range vals {
					okv := !absent && v == ssa.Value(found)
					if ta, ok := v.(*ssa.TypeAssert); ok && absent && e.contentOf(ta.X) {
						// the content of the element that was put
						ld, _ := isLoad(ta.X)
						if call, ok := ld.X.(*ssa.FieldAddr).X.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.Args[0] == ssa.Value(f.Params[0]) {
							okv = e.puts(call.Call.StaticCallee(), map[*ssa.Function]bool{})
						}
					}
					if absent {
						for _, g := range given["append"] {
							okv = okv || g == v
						}
					}
					if !okv {
						e.c.Report("edit", name+" result", At(ret.Pos()), name+" returns something else than what it put in place")
					}
				}
			}
		}
		e.used(f, name)
		e.lines(f, map[*ssa.Function]bool{})
	}
}

// lines: before an item is linked at the end of a body, a line that was not
// ended is ended.
func (e *editCheck) lines(f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	name := e.c.FuncName(f)
	for _, ev := range e.events(f) {
		if ev.kind != "link" || ev.loos || ev.base != ssa.Value(f.Params[0]) {
			continue
		}
		done := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if ok && call != ev.at && instrBefore(call, ev.at) && e.endsLine(call, f.Params[0]) {
					done = true
				}
			}
		}
		e.c.Count("items appended", 1)
		if !done {
			e.c.Report("line", name, ev.at, name+" appends an item without ending the line before it")
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(f.Params[0]) && e.puts(call.Call.StaticCallee(), map[*ssa.Function]bool{}) {
				e.lines(call.Call.StaticCallee(), seen)
			}
		}
	}
}

// endsLine: a call that adds a newline, perhaps depending on what is there.
func (e *editCheck) endsLine(call *ssa.Call, base ssa.Value) bool {
	g := call.Call.StaticCallee()
	if g == nil || e.c.PkgOf(g) != writePkg || len(call.Call.Args) == 0 || call.Call.Args[0] != base {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var adds func(h *ssa.Function) bool
	adds = func(h *ssa.Function) bool {
		if seen[h] {
			return false
		}
		seen[h] = true
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				c2, ok := in.(*ssa.Call)
				if !ok || c2.Call.StaticCallee() == nil || len(c2.Call.Args) == 0 {
					continue
				}
				if len(c2.Call.Args) > 1 && isWriterTokens(c2.Call.Args[1].Type()) && contains(e.tokenKinds(c2), "NL") {
					return true
				}
				if c2.Call.Args[0] == ssa.Value(h.Params[0]) && adds(c2.Call.StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return len(g.Params) > 0 && adds(g)
}

// delegates: all that is returned is the result of another edit of the same
// structure.
func (e *editCheck) delegates(f *ssa.Function, rt types.Type) bool {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		call, ok := ret.Results[0].(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) == 0 || call.Call.Args[0] != ssa.Value(f.Params[0]) || !e.puts(call.Call.StaticCallee(), map[*ssa.Function]bool{}) {
			return false
		}
		if !types.Identical(call.Type(), rt) {
			return false
		}
	}
	return true
}

// notPut: what is returned is not something new, or given, that was not put
// anywhere.
func (e *editCheck) notPut(f *ssa.Function, name string) {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value, at token.Pos)
	from = func(v ssa.Value, at token.Pos) {
		if seen[v] {
			return
		}
		seen[v] = true
		bad := false
		switch x := v.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				from(ed, at)
			}
		case *ssa.Parameter, *ssa.Alloc:
			bad = true
		case *ssa.Call:
			bad = len(x.Call.Args) == 0 || x.Call.Args[0] != ssa.Value(f.Params[0])
		}
		if bad {
			e.c.Report("edit", name+" result", At(at), name+" returns something that it did not put in place")
		}
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			from(ret.Results[0], ret.Pos())
		}
	}
}

// used: every parameter of an edit is used.
func (e *editCheck) used(f *ssa.Function, name string) {
	for _, p := range f.Params {
		if len(*p.Referrers()) == 0 {
			e.c.Report("edit", name+" unused", f, name+" does nothing with what it is given")
		}
	}
	// a new structure is filled from what is given
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) < 2 {
				continue
			}
			if c2, ok := call.Call.Args[0].(*ssa.Call); ok && e.s.hasList(c2.Type()) && e.c.PkgOf(call.Call.StaticCallee()) == writePkg {
				for _, a := range call.Call.Args[1:] {
					if _, isConst := a.(*ssa.Const); isConst {
						e.c.Report("edit", name+" filled", call, name+" fills something new with something else than what it is given")
					}
				}
			}
		}
	}
}

// puts: links into the receiver and puts on record.
func (e *editCheck) puts(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || len(g.Params) == 0 {
		return false
	}
	seen[g] = true
	for _, ev := range e.events(g) {
		if ev.kind == "record" && ev.base == ssa.Value(g.Params[0]) && e.set != nil {
			if _, ok := ev.at.(*ssa.Call); ok {
				return true
			}
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(g.Params[0]) && e.c.PkgOf(call.Call.StaticCallee()) == writePkg && e.puts(call.Call.StaticCallee(), seen) {
				return true
			}
		}
	}
	return false
}

func (e *editCheck) replaces(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || e.c.PkgOf(g) != writePkg {
		return false
	}
	seen[g] = true
	for _, h := range staticCallees(g) {
		if e.kinds[h] == "replace" || e.replaces(h, seen) {
			return true
		}
	}
	return false
}

// built: structures that are not read but made have their parts in the order
// of the grammar.
func (e *editCheck) built() {
	want := map[string]string{
		"Attribute": "identifier = Expression NL",
		"Block":     "identifier quoted* { NL Body } NL",
	}
	for _, f := range e.funcs() {
		if e.kinds[f] != "" {
			continue
		}
		bases := map[ssa.Value]bool{}
		for _, ev := range e.events(f) {
			if ev.kind == "link" && ev.base != nil && ev.loos && len(e.tokenKinds(ev.at)) > 0 {
				bases[ev.base] = true
			}
		}
		for base := range bases {
			tn := shortType(derefType(base.Type()))
			tn = tn[strings.LastIndex(tn, ".")+1:]
			grammar, ok := want[tn]
			if !ok {
				continue
			}
			got := strings.Join(e.partsOf(f, base, nil, 0), " ")
			if _, isParam := base.(*ssa.Parameter); isParam && len(strings.Fields(got)) < len(strings.Fields(grammar)) && e.helps(f) {
				continue // a part of the making, seen from its callers
			}
			e.c.Count("built sequences", 1)
			e.c.Obligation("%s makes %s: %s", e.c.FuncName(f), tn, got)
			if got != grammar && !strings.Contains(got, "tokens") {
				e.c.Report("built", e.c.FuncName(f), f, fmt.Sprintf("%s makes %s of %q, which should be %q", e.c.FuncName(f), tn, got, grammar))
			}
		}
	}
}

// helps: a function whose callers link parts of the same structure, too.
func (e *editCheck) helps(f *ssa.Function) bool {
	for _, g := range e.funcs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == f && len(call.Call.Args) > 0 {
					for _, ev := range e.events(g) {
						if ev.kind == "link" && ev.base == rootOf(call.Call.Args[0]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// partsOf: what a function links into a structure, in order.
func (e *editCheck) partsOf(f *ssa.Function, base ssa.Value, args map[ssa.Value]types.Type, depth int) []string {
	type part struct {
		at    ssa.Instruction
		parts []string
	}
	var all []part
	for _, ev := range e.events(f) {
		if ev.kind != "link" || ev.base != base {
			continue
		}
		var ps []string
		if ev.loos {
			ps = e.tokenKinds(ev.at)
			if len(ps) == 0 {
				ps = []string{"tokens"}
			}
		} else {
			t := ev.cont
			call := ev.at.(*ssa.Call)
			if g := args[call.Call.Args[len(call.Call.Args)-1]]; g != nil {
				t = g
			}
			p := contentName(t)
			ps = []string{p[strings.LastIndexAny(p, ".*")+1:]}
		}
		all = append(all, part{ev.at, ps})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || depth > 3 {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || e.c.PkgOf(g) != writePkg || e.kinds[g] != "" || len(call.Call.Args) == 0 || rootOf(call.Call.Args[0]) != base {
				continue
			}
			inner := map[ssa.Value]types.Type{}
			for i, a := range call.Call.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					inner[g.Params[i]] = mi.X.Type()
				}
			}
			if ps := e.partsOf(g, g.Params[0], inner, depth+1); len(ps) > 0 {
				all = append(all, part{call, ps})
			}
		}
	}
	sort.SliceStable(all, func(i, j int) bool {
		return all[i].at.Pos() < all[j].at.Pos()
	})
	var out []string
	for _, p := range all {
		for _, x := range p.parts {
			if x == "comments" {
				continue
			}
			if l := innermost(f, p.at.Block()); l != nil {
				x += "*"
			} else if !e.passes(f, f.Blocks[0].Instrs[0], p.at) {
				x += "?"
			}
			out = append(out, x)
		}
	}
	return out
}

// tokenKinds: the literal tokens given to a call.
func (e *editCheck) tokenKinds(in ssa.Instruction) []string {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	v := call.Call.Args[len(call.Call.Args)-1]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	v = madeBy(v)
	if ct, ok := v.(*ssa.ChangeType); ok {
		v = ct.X
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int]string{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok {
			return nil
		}
		for _, u := range *ia.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok {
				continue
			}
			tok, ok := madeBy(st.Val).(*ssa.Alloc)
			if !ok {
				return nil
			}
			for _, q := range *tok.Referrers() {
				fa, ok := q.(*ssa.FieldAddr)
				if !ok || fieldOf(fa.X.Type(), fa.Field) != "Type" {
					continue
				}
				for _, w := range *fa.Referrers() {
					if s2, ok := w.(*ssa.Store); ok {
						if n, ok := constInt(s2.Val); ok {
							name := string(rune(n))
							if n == '\n' {
								name = "NL"
							}
							at[k] = name
						}
					}
				}
			}
		}
	}
	var out []string
	for i := 0; i < len(at); i++ {
		out = append(out, at[i])
	}
	return out
}

// madeBy: what a function without parameters makes.
func madeBy(v ssa.Value) ssa.Value {
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return v
	}
	var out ssa.Value
	for _, b := range call.Call.StaticCallee().Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || out != nil {
				return v
			}
			out = ret.Results[0]
		}
	}
	if out == nil {
		return v
	}
	return out
}
