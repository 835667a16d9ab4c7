package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "for every kind of body, the places where items are returned, complained about, hidden or left over are found through its methods with the conditions they are under, and compared with what the schema asks for and what was read before", runC11)
}

func runC11(c *Ctx) {
	bt := c.LookupType("hcl", "Body")
	if bt == nil {
		c.Report("anchor", "Body", nil, "interface hcl.Body not found")
		return
	}
	for _, t := range c.Implementers(bt.Underlying().(*types.Interface)) {
		n := namedIn(t)
		if n == nil {
			continue
		}
		b := &bodyCheck{c: c, t: t, named: n, name: c.TypeName(n)}
		b.full, b.part, b.just = c.method(t, "Content"), c.method(t, "PartialContent"), c.method(t, "JustAttributes")
		if b.full == nil || b.part == nil || b.just == nil || len(b.full.Blocks) == 0 {
			continue
		}
		if _, isPtr := t.(*types.Pointer); isPtr {
			if _, ok := b.part.Signature.Recv().Type().(*types.Pointer); !ok {
				continue
			}
		}
		c.Count("kinds of body", 1)
		b.hiddenFields()
		if b.wraps() {
			c.Count("wrapping bodies", 1)
			b.wrapper()
		} else {
			b.leaf()
		}
	}
	miscounted(c)
	combined(c)
	c.Floor("kinds of body", 7)
	c.Floor("wrapping bodies", 4)
	c.Floor("items returned", 12)
	c.Floor("complaints", 12)
}

type bodyCheck struct {
	c                *Ctx
	t                types.Type
	named            *types.Named
	name             string
	full, part, just *ssa.Function
	hidden           []string
}

// hiddenFields: the sets a body keeps of what was read from it before.
func (b *bodyCheck) hiddenFields() {
	st, ok := b.named.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		m, ok := f.Type().Underlying().(*types.Map)
		if ok && !f.Exported() {
			if k, ok := m.Key().Underlying().(*types.Basic); ok && k.Info()&types.IsString != 0 {
				b.hidden = append(b.hidden, f.Name())
			}
		}
	}
}

// A test is a condition an instruction is under.
type test struct {
	kind     string // "in", "nil", "flag", "cmp"
	set      map[string]bool
	key, txt string
	truth    bool
	iff      *ssa.If
	e        *pathEnv
}

func (t test) String() string {
	s := ""
	if !t.truth {
		s = "!"
	}
	if t.kind == "in" {
		return s + t.key + " in {" + keysText(t.set) + "}"
	}
	return s + t.txt
}

type bodyEvent struct {
	kind  string // "attr", "block", "diag", "leftover"
	e     *pathEnv
	in    ssa.Instruction
	key   string
	val   ssa.Value
	tests []test
	loops []string
}

// decided: the outcome of a condition that depends only on what the caller
// passed.
func (e *pathEnv) decided(v ssa.Value) (truth, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, ok := e.decided(x.X)
			return !t, ok
		}
	case *ssa.Parameter:
		if a, up := e.passed(x); a != nil {
			return up.decided(a)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		o := x.X
		if isNilConst(o) {
			o = x.Y
		} else if !isNilConst(x.Y) {
			return
		}
		up := e
		for {
			prm, isParam := o.(*ssa.Parameter)
			if !isParam {
				break
			}
			a, u := up.passed(prm)
			if a == nil {
				return
			}
			o, up = a, u
		}
		switch o.(type) {
		case *ssa.Alloc:
			return x.Op == token.NEQ, true
		}
		if isNilConst(o) {
			return x.Op == token.EQL, true
		}
	}
	return
}

func (e *pathEnv) passed(p *ssa.Parameter) (ssa.Value, *pathEnv) {
	if e.up == nil {
		return nil, nil
	}
	for i, q := range e.f.Params {
		if q == p && i < len(e.actual) {
			return e.actual[i], e.up
		}
	}
	return nil, nil
}

// liveIn: the blocks not cut off by decided conditions.
func (e *pathEnv) liveIn() map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if t, ok := e.decided(iff.Cond); ok {
				if t {
					visit(b.Succs[0])
				} else {
					visit(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	if len(e.f.Blocks) > 0 {
		visit(e.f.Blocks[0])
	}
	return live
}

// within visits every live instruction of a method and what it calls.
func (e *pathEnv) within(visit func(e *pathEnv, in ssa.Instruction)) {
	if e.depth() > 6 {
		return
	}
	live := e.liveIn()
	for _, b := range e.f.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			visit(e, in)
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := call.Common().StaticCallee()
			if g == nil || len(g.Blocks) == 0 || e.inside(g) || g.Parent() != nil {
				continue
			}
			if e.c.InRepo(g) && e.c.PkgOf(g) == e.c.PkgOf(e.f) && !e.c.generated(g) {
				e.enter(g, call.Common().Args, in).within(visit)
			}
		}
	}
}

// tests: the conditions at an instruction, through the calls that lead there.
func (e *pathEnv) tests(in ssa.Instruction) []test {
	var out []test
	if e.up != nil && e.at != nil {
		out = e.up.tests(e.at)
	}
	at := in.Block()
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range loopsOf(e.f) {
		heads[l.header] = true
	}
	for _, b := range e.f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] || heads[b] {
			continue
		}
		if _, ok := e.decided(iff.Cond); ok {
			continue
		}
		yes := len(b.Succs[0].Preds) == 1 && b.Succs[0].Dominates(at) || b.Dominates(at) && !reachesBlock(b.Succs[1], at, b)
		no := len(b.Succs[1].Preds) == 1 && b.Succs[1].Dominates(at) || b.Dominates(at) && !reachesBlock(b.Succs[0], at, b)
		if yes == no {
			continue
		}
		out = append(out, e.outcome(iff.Cond, yes, iff)...)
	}
	return out
}

// outcome: what is known if a condition has an outcome.
func (e *pathEnv) outcome(v ssa.Value, truth bool, iff *ssa.If) []test {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return e.outcome(u.X, !truth, iff)
	}
	if phi, ok := v.(*ssa.Phi); ok {
		var from *ssa.BasicBlock
		var val ssa.Value
		for i, ed := range phi.Edges {
			if k, ok := ed.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
				continue
			}
			if from != nil {
				return nil // either of two things
			}
			from, val = phi.Block().Preds[i], ed
		}
		if from == nil {
			return nil
		}
		out := e.outcome(val, truth, iff)
		for d, at := from, from; d != nil; d = d.Idom() {
			prev, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || d == phi.Block() || d == at || d.Dominates(phi.Block()) && !e.leads(d, phi.Block(), from) {
				continue
			}
			if d.Succs[0] == at || d.Succs[0].Dominates(at) && len(d.Succs[0].Preds) == 1 {
				out = append(out, e.outcome(prev.Cond, true, prev)...)
			} else if d.Succs[1] == at || d.Succs[1].Dominates(at) && len(d.Succs[1].Preds) == 1 {
				out = append(out, e.outcome(prev.Cond, false, prev)...)
			}
		}
		return out
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		return nil
	}
	t := e.test(v, truth, iff)
	t.e = e
	return []test{t}
}

// leads: a block goes to another directly as well as by way of a third.
func (e *pathEnv) leads(d, to, via *ssa.BasicBlock) bool {
	for _, s := range d.Succs {
		if s == to {
			return true
		}
	}
	return false
}

func (e *pathEnv) test(v ssa.Value, truth bool, iff *ssa.If) test {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.test(x.X, !truth, iff)
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return test{kind: "in", set: e.setOf(lk.X), key: e.keyText(lk.Index), truth: truth, iff: iff}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			o := x.X
			if isNilConst(o) {
				o = x.Y
			}
			if isNilConst(x.X) || isNilConst(x.Y) {
				if lk, ok := o.(*ssa.Lookup); ok {
					return test{kind: "in", set: e.setOf(lk.X), key: e.keyText(lk.Index), truth: truth == (x.Op == token.NEQ), iff: iff}
				}
				if ex, ok := o.(*ssa.Extract); ok && ex.Index == 0 {
					if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
						return test{kind: "in", set: e.setOf(lk.X), key: e.keyText(lk.Index), truth: truth == (x.Op == token.NEQ), iff: iff}
					}
				}
				return test{kind: "nil", txt: e.one(o) + "==nil", truth: truth == (x.Op == token.EQL), iff: iff}
			}
		}
		return test{kind: "cmp", txt: e.cond(x, true), truth: truth, iff: iff}
	}
	return test{kind: "flag", txt: e.one(v), truth: truth, iff: iff}
}

func (e *pathEnv) keyText(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		return k.Value.ExactString()
	}
	return strings.Join(e.of(v), "|")
}

// setOf describes the keys of a map: those put in by the function, and those
// of the map it is part of.
func (e *pathEnv) setOf(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	e.fillSet(v, out, map[ssa.Value]bool{})
	return out
}

func (e *pathEnv) fillSet(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		if a, up := e.passed(x); a != nil {
			up.fillSet(a, out, seen)
			return
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !isNilConst(ed) {
				e.fillSet(ed, out, seen)
			}
		}
		e.updates(v, out)
		return
	case *ssa.ChangeType:
		e.fillSet(x.X, out, seen)
		e.updates(v, out)
		return
	case *ssa.MakeMap:
		e.updates(v, out)
		return
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				// a field of a structure made here
				found := false
				for _, r := range *al.Referrers() {
					f2, ok := r.(*ssa.FieldAddr)
					if !ok || f2.Field != fa.Field {
						continue
					}
					for _, u := range *f2.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if y.Addr == ssa.Value(f2) {
								found = true
								e.fillSet(y.Val, out, seen)
							}
						case *ssa.UnOp:
							found = true
							e.updates(y, out)
						}
					}
				}
				if found {
					return
				}
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if vals, ok := storedIn(al); ok {
				for _, s := range vals {
					e.fillSet(s, out, seen)
				}
				for _, r := range *al.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok {
						e.updates(l, out)
					}
				}
				return
			}
		}
	}
	for _, p := range e.of(v) {
		out["keys("+p+")"] = true
	}
}

func (e *pathEnv) updates(m ssa.Value, out map[string]bool) {
	rs := m.Referrers()
	if rs == nil {
		return
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == m {
				for _, k := range e.of(x.Key) {
					out[strings.Replace(k, "{}", "{}", 1)] = true
				}
			}
		case *ssa.Store:
			// through a field or variable
			if x.Val == m {
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						if l, ok := rr.(*ssa.UnOp); ok && l.X == ssa.Value(al) {
							e.updates(l, out)
						}
					}
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok {
						for _, rr := range *al.Referrers() {
							f2, ok := rr.(*ssa.FieldAddr)
							if !ok || f2.Field != fa.Field {
								continue
							}
							for _, u := range *f2.Referrers() {
								if l, ok := u.(*ssa.UnOp); ok {
									e.updates(l, out)
								}
							}
						}
					}
				}
			}
		case *ssa.Phi, *ssa.ChangeType:
			for _, rr := range *r.(ssa.Value).Referrers() {
				if mu, ok := rr.(*ssa.MapUpdate); ok {
					for _, k := range e.of(mu.Key) {
						out[k] = true
					}
				}
			}
		}
	}
}

// has: the set contains the keys of a set of what was read before, or is that
// of a remainder.
func holds(set map[string]bool, what string) bool {
	for k := range set {
		if k == "keys("+what+")" || k == what+"{}" || strings.HasPrefix(k, "keys(") && strings.Contains(k, "PartialContent(") && strings.HasSuffix(k, lastField(what)+")") {
			return true
		}
	}
	return false
}

func (b *bodyCheck) hiddenTest(t test) bool {
	if t.kind != "in" {
		return false
	}
	for _, h := range b.hidden {
		if holds(t.set, "p0."+h) {
			return true
		}
	}
	return false
}

// overs: what the loops around an instruction go over.
func (e *pathEnv) overs(in ssa.Instruction) []string {
	var out []string
	if e.up != nil && e.at != nil {
		out = e.up.overs(e.at)
	}
	for _, l := range loopsOf(e.f) {
		if !l.blocks[in.Block()] && !inBody(l, in.Block()) {
			continue
		}
		if v := rangedOver(l); v != nil {
			out = append(out, strings.Join(e.of(v), "|"))
			continue
		}
		for _, i := range l.header.Instrs {
			if n, ok := i.(*ssa.Next); ok {
				out = append(out, strings.Join(e.of(n), "|"))
			}
		}
	}
	return out
}

// inBody: the block belongs to a round of the loop, perhaps its last.
func inBody(l *loop, b *ssa.BasicBlock) bool {
	for _, s := range l.header.Succs {
		if l.blocks[s] && s != l.header && len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

func isPtrNamed(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == name && relPkg(n.Obj().Pkg()) == pkg
}

// events of a method.
func (b *bodyCheck) events(f *ssa.Function) []bodyEvent {
	var out []bodyEvent
	newPathEnv(b.c, f).within(func(e *pathEnv, in ssa.Instruction) {
		add := func(kind, key string, val ssa.Value) {
			out = append(out, bodyEvent{kind, e, in, key, val, e.tests(in), e.overs(in)})
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			m, ok := x.Map.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			kind := "attr"
			if p := b.leftoverOf(e, x.Map); p {
				kind = "leftover attr"
			} else if !isPtrNamed(m.Elem(), "hcl", "Attribute") {
				return
			}
			add(kind, e.keyText(x.Key), x.Value)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" {
				return
			}
			sl, ok := x.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			kind := "block"
			if b.leftoverOf(e, x.Call.Args[0]) {
				kind = "leftover block"
			} else if !isPtrNamed(sl.Elem(), "hcl", "Block") {
				return
			}
			add(kind, "", x.Call.Args[1])
		case *ssa.Store:
			// blocks[i] = block
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || !isPtrNamed(x.Val.Type(), "hcl", "Block") {
				return
			}
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
				add("block", "", x.Val)
			}
		case *ssa.Alloc:
			if strings.HasSuffix(x.Type().String(), "hcl.Diagnostic") {
				add("diag", "", x)
			}
		}
	})
	return out
}

// leftoverOf: the map or list belongs to the remaining body made here.
func (b *bodyCheck) leftoverOf(e *pathEnv, v ssa.Value) bool {
	l, ok := isLoad(v)
	if !ok {
		return false
	}
	fa, ok := l.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	base := fa.X
	up := e
	for {
		prm, ok := base.(*ssa.Parameter)
		if !ok {
			break
		}
		a, u := up.passed(prm)
		if a == nil {
			return false
		}
		base, up = a, u
	}
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return false
	}
	return up.becomesRemain(al)
}

// becomesRemain: the structure is what a method returns as remaining body, or
// part of it.
func (e *pathEnv) becomesRemain(al *ssa.Alloc) bool {
	for _, blk := range al.Parent().Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 3 {
			continue
		}
		if containsAlloc(ret.Results[1], al, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func containsAlloc(v ssa.Value, al *ssa.Alloc, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		if x == al {
			return true
		}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == v && containsAlloc(y.Val, al, seen) {
					return true
				}
			case *ssa.FieldAddr:
				for _, u := range *y.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(y) && containsAlloc(st.Val, al, seen) {
						return true
					}
				}
			}
		}
	case *ssa.MakeInterface:
		return containsAlloc(x.X, al, seen)
	case *ssa.UnOp:
		return containsAlloc(x.X, al, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if containsAlloc(e, al, seen) {
				return true
			}
		}
	}
	return false
}

// wraps: the content is that of other bodies.
func (b *bodyCheck) wraps() bool {
	found := false
	newPathEnv(b.c, b.full).within(func(e *pathEnv, in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok && call.Call.IsInvoke() && strings.HasSuffix(call.Call.Method.Name(), "Content") {
			found = true
		}
	})
	return found
}

func innerLoop(ev bodyEvent) string {
	if len(ev.loops) == 0 {
		return ""
	}
	return ev.loops[len(ev.loops)-1]
}

func hasLoop(ev bodyEvent, suffix string) bool {
	for _, l := range ev.loops {
		if l == suffix || strings.HasSuffix(l, suffix) {
			return true
		}
	}
	return false
}

func testsText(ts []test) string {
	var out []string
	for _, t := range ts {
		out = append(out, t.String())
	}
	sort.Strings(out)
	return strings.Join(out, " & ")
}

func (b *bodyCheck) report(rule, key string, at Poser, msg string) {
	b.c.Report(rule, b.name+" "+key, at, msg)
}

// leaf: a body with items of its own.
func (b *bodyCheck) leaf() {
	c := b.c
	full, part := b.events(b.full), b.events(b.part)
	attrStore, blockStore := map[string]bool{}, map[string]bool{}
	for _, ev := range part {
		switch ev.kind {
		case "attr":
			c.Count("items returned", 1)
			c.Obligation("%s: attributes returned if %s", b.name, testsText(ev.tests))
			store := ""
			wanted := hasLoop(ev, "p1.Attributes")
			if wanted {
				for _, t := range ev.tests {
					if t.kind == "in" && t.truth && t.key == "p1.Attributes[].Name" {
						for k := range t.set {
							store = strings.TrimSuffix(strings.TrimPrefix(k, "keys("), ")")
						}
					}
				}
			} else {
				store = innerLoop(ev)
				for _, t := range ev.tests {
					if t.kind == "in" && t.truth && t.set["p1.Attributes[].Name"] {
						wanted = true
					}
				}
			}
			if store == "" {
				b.report("returned", "attributes", ev.in, "an attribute is returned although it may not be in the body")
				continue
			}
			attrStore[store] = true
			if !wanted {
				b.report("returned", "attributes", ev.in, "an attribute is returned that the schema does not ask for")
			}
			b.unhidden(ev, "attribute")
			b.only(part, ev, "attributes", "an attribute the schema asks for is returned only under a further condition")
		case "block":
			c.Count("items returned", 1)
			c.Obligation("%s: blocks returned if %s", b.name, testsText(ev.tests))
			store := ""
			for _, l := range ev.loops {
				if strings.HasPrefix(l, "p0") {
					store = l
					break
				}
			}
			blockStore[store] = true
			wanted := false
			for _, t := range ev.tests {
				if t.kind == "in" && t.truth && t.set["p1.Blocks[].Type"] {
					wanted = true
				}
			}
			if !wanted {
				b.report("returned", "blocks", ev.in, "a block is returned that the schema does not ask for")
			}
			b.unhidden(ev, "block")
		}
	}
	if len(attrStore) == 0 || len(blockStore) == 0 {
		b.report("returned", "items", b.part, "items that the schema asks for are not returned")
		return
	}
	for s := range attrStore {
		b.extraneous(full, s, "attributes", b.hiddenBy(part, "attr"))
	}
	for s := range blockStore {
		if !attrStore[s] {
			b.extraneous(full, s, "blocks", b.hiddenBy(part, "block"))
			b.labels(part, s)
			b.noBlocks(s)
		}
	}
	b.missing(b.full, full)
	b.missing(b.part, part)
	b.remain(part, attrStore, blockStore)
	b.justAttrs(attrStore)
}

// unhidden: nothing is returned that was read before.
func (b *bodyCheck) unhidden(ev bodyEvent, what string) {
	if len(b.hidden) == 0 {
		return
	}
	for _, t := range ev.tests {
		if b.hiddenTest(t) && !t.truth {
			return
		}
	}
	b.report("hidden", what+" "+b.c.FuncName(ev.e.f), ev.in, fmt.Sprintf("a %s is returned although it may have been read before", what))
}

// empty: the condition only says that there is something to go over.
func (t test) empty(loops []string) bool {
	over := func(p string) bool {
		for _, l := range loops {
			if p == l {
				return true
			}
		}
		return false
	}
	switch t.kind {
	case "nil":
		return over(strings.TrimSuffix(t.txt, "==nil"))
	case "cmp":
		cmp, ok := t.iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		for _, xy := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			k, ok := constInt(xy[1])
			if ok && k <= 1 && strings.HasSuffix(t.e.one(xy[0]), ".len()") && over(strings.TrimSuffix(t.e.one(xy[0]), ".len()")) {
				return true
			}
		}
	}
	return false
}

// comment: the key is the one set aside for comments.
func (t test) comment() bool {
	return t.kind == "cmp" && strings.Contains(t.txt, "\"//\"")
}

// eitherWay: the other outcome of the condition leads to the same.
func eitherWay(evs []bodyEvent, ev bodyEvent, t test) bool {
	for _, o := range evs {
		if o.kind != ev.kind || o.key != ev.key || o.in == ev.in {
			continue
		}
		for _, u := range o.tests {
			if u.iff == t.iff && u.truth != t.truth {
				return true
			}
		}
	}
	return false
}

// only: there are no conditions other than membership.
func (b *bodyCheck) only(evs []bodyEvent, ev bodyEvent, key, msg string) {
	for _, t := range ev.tests {
		if t.kind == "in" || t.empty(ev.loops) || t.comment() || eitherWay(evs, ev, t) {
			continue
		}
		if t.kind == "nil" && !t.truth && strings.Contains(t.txt, "(") {
			continue // nothing was returned
		}
		b.report("condition", key, ev.in, msg)
		return
	}
}

// extraneous: in a complete reading every other item is an error.
func (b *bodyCheck) extraneous(evs []bodyEvent, store, what, field string) {
	c := b.c
	tail := strings.TrimPrefix(store, "p0")
	for _, ev := range evs {
		if ev.kind != "diag" {
			continue
		}
		ok := false
		over := ""
		for _, l := range ev.loops {
			if l == store || strings.Contains(l, "PartialContent(p1)#1") && strings.HasSuffix(l, tail) {
				ok = true
				over = l
			}
		}
		if !ok || innerLoop(ev) != over {
			continue
		}
		plain := true
		rest := strings.Contains(over, "PartialContent")
		before, now := len(b.hidden) == 0, rest && len(b.hidden) == 0
		for _, t := range ev.tests {
			switch {
			case t.kind == "in" && !t.truth:
				before = before || b.hiddenTest(t) && (field == "" || strings.Contains(keysText(t.set), "."+field))
				now = now || b.asked(t.set)
				for k := range t.set {
					now = now || strings.Contains(k, "PartialContent(p1)#1")
				}
			case t.comment(), t.empty(ev.loops):
			default:
				plain = false
			}
		}
		c.Count("complaints", 1)
		if plain && before && now {
			c.Obligation("%s: other %s are complained about if %s", b.name, what, testsText(ev.tests))
			return
		}
	}
	b.report("extraneous", what, b.full, fmt.Sprintf("%s that the schema does not ask for are not all reported", what))
}

// hiddenBy: the set that keeps items of a kind from being returned again.
func (b *bodyCheck) hiddenBy(evs []bodyEvent, kind string) string {
	for _, ev := range evs {
		if ev.kind != kind {
			continue
		}
		for _, t := range ev.tests {
			if t.kind != "in" || t.truth {
				continue
			}
			for _, h := range b.hidden {
				if holds(t.set, "p0."+h) {
					return h
				}
			}
		}
	}
	return ""
}

func (b *bodyCheck) asked(set map[string]bool) bool {
	for k := range set {
		if strings.HasPrefix(k, "p1.") {
			return true
		}
	}
	return false
}

// missing: a required attribute that is not there is an error.
func (b *bodyCheck) missing(f *ssa.Function, evs []bodyEvent) {
	c := b.c
	why := "missing required attributes are not reported"
	for _, ev := range evs {
		if ev.kind != "diag" || innerLoop(ev) != "p1.Attributes" {
			continue
		}
		required, plain := false, true
		for _, t := range ev.tests {
			switch {
			case t.kind == "flag" && t.txt == "p1.Attributes[].Required":
				required = t.truth
			case t.kind == "in" && t.key == "p1.Attributes[].Name":
			case t.empty(ev.loops):
			default:
				plain = false
			}
		}
		if !required || !plain {
			continue
		}
		if !b.dependsOnLookup(ev) {
			why = "required attributes are reported as missing although they may be there"
			continue
		}
		c.Count("complaints", 1)
		c.Obligation("%s: missing attributes are complained about if %s", c.FuncName(f), testsText(ev.tests))
		return
	}
	b.report("missing", f.Name(), f, why)
}

// dependsOnLookup: the instruction is not reached in a round of the loop for a
// name that is there and was not read before.
func (b *bodyCheck) dependsOnLookup(ev bodyEvent) bool {
	e := ev.e
	lp := innermost(e.f, ev.in.Block())
	if lp == nil {
		return false
	}
	var value func(v ssa.Value, from, at *ssa.BasicBlock) (truth, ok bool)
	value = func(v ssa.Value, from, at *ssa.BasicBlock) (bool, bool) {
		if t, ok := e.decided(v); ok {
			return t, ok
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				t, ok := value(x.X, from, at)
				return !t, ok
			}
		case *ssa.Phi:
			if x.Block() == at {
				for i, p := range at.Preds {
					if p == from {
						return value(x.Edges[i], from, nil)
					}
				}
			}
			return false, false
		}
		t := e.test(v, true, nil)
		if t.kind == "in" && t.key == "p1.Attributes[].Name" {
			return t.truth != b.onlyHidden(t.set), true
		}
		return false, false
	}
	type step struct{ from, at *ssa.BasicBlock }
	seen := map[step]bool{}
	var visit func(from, at *ssa.BasicBlock) bool
	visit = func(from, at *ssa.BasicBlock) bool {
		if at == ev.in.Block() {
			return true
		}
		if seen[step{from, at}] || !lp.blocks[at] {
			return false
		}
		seen[step{from, at}] = true
		succs := at.Succs
		if iff, ok := at.Instrs[len(at.Instrs)-1].(*ssa.If); ok {
			if t, ok := value(iff.Cond, from, at); ok {
				if t {
					succs = at.Succs[:1]
				} else {
					succs = at.Succs[1:]
				}
			}
		}
		for _, s := range succs {
			if s != lp.header && visit(at, s) {
				return true
			}
		}
		return false
	}
	for _, s := range lp.header.Succs {
		if lp.blocks[s] && visit(lp.header, s) {
			return false
		}
	}
	return true
}

// onlyHidden: the set is just that of what was read before.
func (b *bodyCheck) onlyHidden(set map[string]bool) bool {
	for k := range set {
		own := false
		for _, h := range b.hidden {
			own = own || k == "keys(p0."+h+")" || k == "p0."+h+"{}"
		}
		if !own && k != "p1.Attributes[].Name" {
			return false
		}
	}
	for k := range set {
		if k != "p1.Attributes[].Name" {
			return true
		}
	}
	return false
}

// labels: blocks with another number of labels are errors.
func (b *bodyCheck) labels(evs []bodyEvent, store string) {
	c := b.c
	ops := map[token.Token]bool{}
	for _, ev := range evs {
		if ev.kind != "diag" || !hasLoop(ev, store) {
			continue
		}
		for _, t := range ev.tests {
			cmp, ok := t.iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			l, r := ev.e.one(cmp.X), ev.e.one(cmp.Y)
			op := cmp.Op
			if t.iff.Block().Succs[0] != nil && !(len(t.iff.Block().Succs[0].Preds) == 1 && t.iff.Block().Succs[0].Dominates(ev.in.Block())) {
				op = negated(op)
			}
			other := cmp.Y
			if strings.HasSuffix(r, ".Labels.len()") {
				l, op, other = r, swapped(op), cmp.X
			}
			if seq, k := lenOf(other); strings.HasSuffix(l, ".Labels.len()") && seq != nil && k == 0 {
				switch op {
				case token.NEQ:
					ops[token.LSS], ops[token.GTR] = true, true
				case token.LSS, token.GTR:
					ops[op] = true
				}
			}
		}
	}
	c.Count("complaints", 1)
	if !ops[token.LSS] || !ops[token.GTR] {
		b.report("labels", "blocks", b.part, "blocks with too few or too many labels are not reported")
	}
}

// remain: what was not read is left over, and what was read is not.
func (b *bodyCheck) remain(evs []bodyEvent, attrStore, blockStore map[string]bool) {
	if len(b.hidden) > 0 {
		b.hides()
		return
	}
	for what, store := range map[string]map[string]bool{"attr": attrStore, "block": blockStore} {
		ok := false
		for _, ev := range evs {
			if ev.kind != "leftover "+what {
				continue
			}
			if !store[innerLoop(ev)] {
				continue
			}
			plain := true
			not := false
			for _, t := range ev.tests {
				if t.kind == "in" && !t.truth && b.asked(t.set) {
					not = true
					continue
				}
				if t.empty(ev.loops) || t.kind == "nil" && !b.c.ownValue(t) {
					continue
				}
				plain = false
			}
			if !not {
				b.report("remain", what+"s", ev.in, fmt.Sprintf("%ss are left over although they were read", map[string]string{"attr": "attribute", "block": "block"}[what]))
			}
			if plain && not {
				ok = true
				b.c.Obligation("%s: %ss are left over if %s", b.name, what, testsText(ev.tests))
			}
		}
		if !ok {
			b.report("remain", what+"s", b.part, fmt.Sprintf("%ss that were not read are not exactly those left over", what))
		}
	}
	b.kept(nil)
}

// hides: the sets of what was read grow by what is read now.
func (b *bodyCheck) hides() {
	c := b.c
	sets := map[string]map[string]bool{}
	var env *pathEnv
	var lit *ssa.Alloc
	newPathEnv(c, b.part).within(func(e *pathEnv, in ssa.Instruction) {
		al, ok := in.(*ssa.Alloc)
		if !ok || !types.Identical(derefType(al.Type()), b.named) || !e.becomesRemain(al) {
			return
		}
		env, lit = e, al
	})
	if lit == nil {
		b.report("remain", "made", b.part, "there is no remaining body of the same kind")
		return
	}
	st := b.named.Underlying().(*types.Struct)
	all := map[string]bool{}
	maps := map[ssa.Value]bool{}
	for _, r := range *lit.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		name := st.Field(fa.Field).Name()
		for _, u := range *fa.Referrers() {
			s, ok := u.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(fa) {
				continue
			}
			if !contains(b.hidden, name) {
				continue
			}
			set := env.setOf(s.Val)
			sets[name] = set
			maps[s.Val] = true
			for _, r := range *lit.Referrers() {
				if f2, ok := r.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
					for _, u := range *f2.Referrers() {
						if l, ok := u.(*ssa.UnOp); ok {
							maps[l] = true
						}
					}
				}
			}
			for k := range set {
				all[k] = true
			}
		}
	}
	for _, h := range b.hidden {
		set := sets[h]
		c.Count("sets of hidden items", 1)
		c.Obligation("%s: %s of the remainder holds %s", b.name, h, keysText(set))
		if !holds(set, "p0."+h) {
			b.report("remain", h+" before", lit, "items read from the body before are not kept out of the remaining body")
		}
		if !b.unguarded(env, maps, "p0."+h+"{}") {
			b.report("remain", h+" before", lit, "items read from the body before are kept out of the remaining body only under some condition")
		}
	}
	for what, want := range map[string]string{"attributes": "p1.Attributes[].Name", "blocks": "p1.Blocks[].Type"} {
		ok := all[want]
		for k := range all {
			// the names of the items themselves
			if strings.HasPrefix(k, "p0.") && strings.HasSuffix(k, ".Name") {
				ok = true
			}
		}
		if !ok {
			b.report("remain", what, lit, fmt.Sprintf("%s read now are not kept out of the remaining body", what))
		}
		if all[want] && !b.unguarded(env, maps, want) {
			b.report("remain", what, lit, fmt.Sprintf("%s read now are kept out of the remaining body only under some condition", what))
		}
	}
	b.kept(b.hidden)
	b.perItem()
}

// perItem: where names are hidden as the items are met, that is done for each
// item returned.
func (b *bodyCheck) perItem() {
	for _, ev := range b.events(b.part) {
		if ev.kind != "attr" && ev.kind != "block" {
			continue
		}
		if hasLoop(ev, "p1.Attributes") {
			continue
		}
		// schema-driven sets were judged already
		e := ev.e
		at := ev.in
		for e.up != nil && !anyUpdate(e) {
			e, at = e.up, e.at
		}
		var near bool
		var any bool
		for _, blk := range e.f.Blocks {
			for _, in := range blk.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k := e.keyText(mu.Key)
				if k != ev.key && (!strings.HasPrefix(k, "p0.") || !strings.HasSuffix(k, ".Name")) {
					continue
				}
				if m, ok := mu.Map.Type().Underlying().(*types.Map); !ok || isPtrNamed(m.Elem(), "hcl", "Attribute") {
					continue
				}
				any = true
				if blk == at.Block() || blk.Dominates(at.Block()) || at.Block().Dominates(blk) && !avoidable(at.Block(), blk, e) {
					near = true
				}
			}
		}
		if any && !near {
			b.report("remain", ev.kind+"s met", ev.in, fmt.Sprintf("a%s %s is returned without being kept out of the remaining body", map[string]string{"attr": "n", "block": ""}[ev.kind], map[string]string{"attr": "attribute", "block": "block"}[ev.kind]))
		}
	}
}

func anyUpdate(e *pathEnv) bool {
	for _, blk := range e.f.Blocks {
		for _, in := range blk.Instrs {
			if _, ok := in.(*ssa.MapUpdate); ok {
				return true
			}
		}
	}
	return false
}

// avoidable: the next round or the end is reached from a block without
// passing another.
func avoidable(from, via *ssa.BasicBlock, e *pathEnv) bool {
	for _, l := range loopsOf(e.f) {
		if l.blocks[from] && reachesBlock(from, l.header, via) {
			return true
		}
	}
	return false
}

// unguarded: keys are put in the set for each element, whatever else holds.
func (b *bodyCheck) unguarded(env *pathEnv, maps map[ssa.Value]bool, key string) bool {
	found, ok := false, false
	live := env.liveIn()
	for _, blk := range env.f.Blocks {
		for _, in := range blk.Instrs {
			mu, isMU := in.(*ssa.MapUpdate)
			if !isMU || env.keyText(mu.Key) != key || !live[blk] {
				continue
			}
			if !maps[mu.Map] {
				continue
			}
			found = true
			plain := true
			for _, t := range env.tests(in) {
				if t.empty(env.overs(in)) || t.kind == "in" && strings.HasPrefix(key, "p1.Attributes") {
					continue
				}
				plain = false
			}
			ok = ok || plain
		}
	}
	return !found || ok
}

// kept: the other fields of the remaining body are those of the body.
func (b *bodyCheck) kept(except []string) {
	st, ok := b.named.Underlying().(*types.Struct)
	if !ok {
		return
	}
	newPathEnv(b.c, b.part).within(func(e *pathEnv, in ssa.Instruction) {
		al, ok := in.(*ssa.Alloc)
		if !ok || !types.Identical(derefType(al.Type()), b.named) || !e.becomesRemain(al) {
			return
		}
		copied := false
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && e.one(s.Val) == "p0" {
				copied = true
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if contains(except, f.Name()) {
				continue
			}
			var vals []ssa.Value
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == i {
					for _, u := range *fa.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							vals = append(vals, s.Val)
						}
					}
				}
			}
			if len(vals) == 0 && copied {
				continue
			}
			if len(vals) == 0 {
				switch f.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					if len(except) == 0 {
						continue // filled item by item
					}
				}
				b.report("kept", f.Name(), al, fmt.Sprintf("the remaining body has no %s", f.Name()))
				continue
			}
			for _, v := range vals {
				p := e.one(v)
				if p == "p0."+f.Name() || strings.Contains(p, ".PartialContent(") && strings.HasSuffix(p, "#1") {
					continue
				}
				if inner, ok := v.(*ssa.Alloc); ok && e.becomesRemain(inner) {
					continue
				}
				b.report("kept", f.Name(), al, fmt.Sprintf("the %s of the remaining body is not that of the body", f.Name()))
			}
		}
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// justAttrs: reading only attributes returns all that were not read before.
func (b *bodyCheck) justAttrs(attrStore map[string]bool) {
	c := b.c
	found := false
	for _, ev := range b.events(b.just) {
		if ev.kind != "attr" {
			continue
		}
		found = true
		c.Count("items returned", 1)
		b.unhidden(ev, "attribute")
		for _, t := range ev.tests {
			if t.kind == "in" && (b.hiddenTest(t) || !t.truth) || t.comment() || t.empty(ev.loops) {
				continue
			}
			if t.kind == "flag" && strings.HasSuffix(t.txt, "?") && t.truth {
				continue // of the right type at all
			}
			b.report("just", "attributes", ev.in, "an attribute is returned only under a further condition")
		}
	}
	if !found {
		// handed out as they are
		e := newPathEnv(c, b.just)
		for _, blk := range b.just.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && attrStore[e.one(ret.Results[0])] && len(b.hidden) == 0 {
				found = true
			}
		}
	}
	if !found {
		b.report("just", "attributes", b.just, "the attributes are not returned")
	}
}

// noBlocks: reading only attributes complains about blocks.
func (b *bodyCheck) noBlocks(store string) {
	c := b.c
	for _, ev := range b.events(b.just) {
		if ev.kind != "diag" {
			continue
		}
		plain, related := true, hasLoop(ev, store)
		unread := len(b.hidden) == 0
		for _, t := range ev.tests {
			switch {
			case b.hiddenTest(t) && !t.truth:
				unread = true
			case t.kind == "cmp" && strings.Contains(t.txt, store+".len()"):
				related = true
			case t.empty(ev.loops):
			default:
				plain = false
			}
		}
		if plain && related && unread {
			c.Count("complaints", 1)
			return
		}
	}
	b.report("just", "blocks", b.just, "blocks that were not read before are not reported when only attributes are expected")
}

// wrapper: a body whose content is that of others.
func (b *bodyCheck) wrapper() {
	c := b.c
	for _, m := range []struct {
		f    *ssa.Function
		want string
	}{{b.full, "Content"}, {b.part, "PartialContent"}, {b.just, "JustAttributes"}} {
		calls := map[string]ssa.Instruction{}
		newPathEnv(c, m.f).within(func(e *pathEnv, in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || !call.Call.IsInvoke() {
				return
			}
			switch n := call.Call.Method.Name(); n {
			case "Content", "PartialContent", "JustAttributes":
				if !isNamed(call.Call.Value.Type(), c.ByPat["hcl"].PkgPath, "Body") {
					return
				}
				own := false
				for _, p := range e.of(call.Call.Value) {
					if strings.HasPrefix(p, "p0") && (n == "JustAttributes" || !strings.Contains(p, "(")) {
						own = true
					}
				}
				if !own {
					return // the body of an item
				}
				calls[n] = in
				if n != "JustAttributes" && m.want != "JustAttributes" {
					b.schema(e, call)
				}
			}
		})
		c.Count("methods handed on", 1)
		c.Obligation("%s reads the wrapped body with %v", c.FuncName(m.f), m.want)
		if calls[m.want] == nil {
			b.report("handed", m.want, m.f, fmt.Sprintf("%s does not read the wrapped body in the same way", m.want))
		}
		for n, in := range calls {
			if n != m.want && m.want != "JustAttributes" {
				b.report("handed", m.want, in, fmt.Sprintf("%s of the wrapped body is used for %s, so other items are not treated alike", n, m.want))
			}
		}
	}
	changed := b.changesRequired()
	if changed {
		b.missing(b.full, b.events(b.full))
		b.missing(b.part, b.events(b.part))
	}
	if len(b.hidden) > 0 {
		b.hides()
	} else {
		b.handsOnRest()
	}
	for _, f := range []*ssa.Function{b.full, b.part, b.just} {
		evs := b.events(f)
		for _, ev := range evs {
			switch ev.kind {
			case "attr", "block":
				c.Count("items returned", 1)
				c.Obligation("%s: %s returned if %s", c.FuncName(f), ev.kind, testsText(ev.tests))
				if len(b.hidden) > 0 {
					// unless nothing was hidden
					b.unhidden(ev, map[string]string{"attr": "attribute", "block": "block"}[ev.kind])
				}
				if ev.kind == "attr" {
					b.only(evs, ev, "attributes", "an attribute of the wrapped body is returned only under a further condition")
				}
			}
		}
	}
	b.rebuilt()
	b.handsOnAttrs()
	b.gathered()
	b.duplicates()
	b.ownTypes()
}

// schema: the wrapped body is asked for everything the schema asks for.
func (b *bodyCheck) schema(e *pathEnv, call *ssa.Call) {
	c := b.c
	arg := call.Call.Args[0]
	up := e
	if e.one(arg) == "p1" {
		return
	}
	// made here or by a function called
	var lits []struct {
		e  *pathEnv
		al *ssa.Alloc
	}
	newPathEnv(c, up.f).within(func(e2 *pathEnv, in ssa.Instruction) {
		if al, ok := in.(*ssa.Alloc); ok && isNamed(derefType(al.Type()), c.ByPat["hcl"].PkgPath, "BodySchema") {
			// paths as seen from the method
			env := e2
			if up.up != nil || up.f != e2.f {
				env = rebase(e2, up)
			}
			lits = append(lits, struct {
				e  *pathEnv
				al *ssa.Alloc
			}{env, al})
		}
	})
	c.Count("schemas extended", 1)
	all := map[string]bool{}
	for _, field := range []string{"Attributes", "Blocks"} {
		ok := false
		for _, l := range lits {
			for _, from := range b.fed(l.e, l.al, field) {
				this := false
				for p := range from {
					if p == "p1."+field || p == "p1."+field+"[]" {
						this = true
					}
					all[p] = true
				}
				if len(from) > 0 && !this && !from["itself"] {
					ok = false
					break
				}
				ok = ok || this
			}
		}
		if !ok {
			b.report("schema", field, call, fmt.Sprintf("the wrapped body is not asked for all %s of the schema", strings.ToLower(field)))
		}
	}
	for _, h := range b.hidden {
		found := false
		for p := range all {
			if strings.HasPrefix(p, "p0."+h) {
				found = true
			}
		}
		if !found {
			b.report("schema", h, call, "the wrapped body is not asked for items read before, so they are complained about")
		}
	}
}

// rebase: the environment of a function as called from another environment.
func rebase(e, top *pathEnv) *pathEnv {
	if e.up == nil {
		return top
	}
	return rebase(e.up, top).enter(e.f, e.actual, e.at)
}

// fed: what is put in a list field of a structure.
func (b *bodyCheck) fed(e *pathEnv, al *ssa.Alloc, field string) []map[string]bool {
	var out []map[string]bool
	var from map[string]bool
	visit := func(p string) { from[p] = true }
	seen := map[ssa.Value]bool{}
	live := e.liveIn()
	var value func(v ssa.Value)
	value = func(v ssa.Value) {
		if seen[v] {
			return
		}
		if in, ok := v.(ssa.Instruction); ok && in.Parent() == e.f && !live[in.Block()] {
			return
		}
		seen[v] = true
		for _, p := range e.of(v) {
			visit(p)
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				value(ed)
			}
		case *ssa.Slice:
			value(x.X)
		case *ssa.Alloc:
			// an array for appended elements
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok {
							value(st.Val)
						}
					}
				}
				if st, ok := r.(*ssa.Store); ok && st.Addr == v {
					value(st.Val)
				}
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, u := range *fa.Referrers() {
						if st, ok := u.(*ssa.Store); ok {
							value(st.Val)
						}
					}
				}
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) && fieldOf(fa.X.Type(), fa.Field) == field {
				visit("itself")
				return
			}
			value(x.X)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				value(x.Call.Args[0])
				value(x.Call.Args[1])
			}
		}
		if rs := v.Referrers(); rs != nil {
			if _, ok := v.(*ssa.MakeSlice); ok {
				for _, r := range *rs {
					if call, ok := r.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && call.Call.Args[0] == v {
							value(call.Call.Args[1])
						}
					}
				}
			}
		}
	}
	var copies []*ssa.Call
	for _, blk := range e.f.Blocks {
		for _, in := range blk.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
					copies = append(copies, call)
				}
			}
		}
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fieldOf(fa.X.Type(), fa.Field) != field {
			continue
		}
		for _, u := range *fa.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(fa) && live[x.Block()] {
					seen = map[ssa.Value]bool{}
					from = map[string]bool{}
					value(x.Val)
					for _, c := range copies {
						if live[c.Block()] && isLoadOf(c.Call.Args[0], al, field) && isMade(x.Val) {
							value(c.Call.Args[1])
						}
					}
					out = append(out, from)
				}
			}
		}
	}
	return out
}

// isLoadOf: the value is the field of a structure made here.
func isLoadOf(v ssa.Value, al *ssa.Alloc, field string) bool {
	l, ok := isLoad(v)
	if !ok {
		return false
	}
	fa, ok := l.X.(*ssa.FieldAddr)
	return ok && fa.X == ssa.Value(al) && fieldOf(fa.X.Type(), fa.Field) == field
}

func isMade(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, ok := x.X.(*ssa.Alloc)
		return ok
	}
	return false
}

// changesRequired: the schema handed on does not demand attributes.
func (b *bodyCheck) changesRequired() bool {
	found := false
	newPathEnv(b.c, b.full).within(func(e *pathEnv, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == "Required" && isNamed(derefType(fa.X.Type()), b.c.ByPat["hcl"].PkgPath, "AttributeSchema") {
			for _, l := range e.overs(in) {
				if l == "p1.Attributes" {
					found = true
				}
			}
		}
	})
	return found
}

// handsOnRest: the remaining body is what remains of the wrapped ones.
func (b *bodyCheck) handsOnRest() {
	c := b.c
	e := newPathEnv(c, b.part)
	rest := false
	for _, blk := range b.part.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 3 {
			continue
		}
		if b.isRest(e, ret.Results[1], map[ssa.Value]bool{}) {
			rest = true
			c.Count("remainders handed on", 1)
			continue
		}
		failed := false
		for _, t := range e.tests(ret) {
			if strings.Contains(t.txt, "HasErrors()") && t.truth {
				failed = true
			}
			if t.kind == "nil" && t.truth && strings.Contains(t.txt, ".PartialContent(") && isNilConst(ret.Results[1]) {
				failed = true // nothing remains
			}
		}
		if !failed {
			b.report("remain", "handed", ret, "the remaining body is not what remains of the wrapped body")
		}
	}
	if !rest {
		b.report("remain", "handed", b.part, "what remains of the wrapped body is never handed on")
	}
	b.keptIfWrapped()
}

func (b *bodyCheck) keptIfWrapped() {
	if _, ok := b.named.Underlying().(*types.Struct); ok {
		b.kept([]string{})
	}
}

func (b *bodyCheck) isRest(e *pathEnv, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := v.(*ssa.Phi); !ok {
		for _, p := range e.of(v) {
			if strings.HasSuffix(p, "#1") && strings.Contains(p, ".PartialContent(") {
				return true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return b.isRest(e, x.X, seen)
	case *ssa.ChangeInterface:
		return b.isRest(e, x.X, seen)
	case *ssa.UnOp:
		return b.isRest(e, x.X, seen)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						for _, p := range e.of(st.Val) {
							if strings.HasSuffix(p, "#1") && strings.Contains(p, ".PartialContent(") {
								return true
							}
						}
					}
				}
			}
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !b.isRest(e, ed, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		// returned by a helper
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		g := call.Call.StaticCallee()
		if g == nil || b.c.PkgOf(g) != b.c.PkgOf(b.part) {
			return false
		}
		n := e.enter(g, call.Call.Args, call)
		live := n.liveIn()
		for _, blk := range g.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && live[blk] && x.Index < len(ret.Results) {
				if !b.isRest(n, ret.Results[x.Index], map[ssa.Value]bool{}) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		// put together from a list of remainders
		for _, a := range x.Call.Args {
			if b.listOfRests(e, a, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func (b *bodyCheck) listOfRests(e *pathEnv, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if b.listOfRests(e, ed, seen) {
				return true
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			for _, t := range e.tests(x) {
				if t.kind != "nil" {
					return false
				}
			}
			for _, el := range elements(x.Call.Args[1]) {
				ok := false
				for _, p := range e.of(el) {
					if strings.Contains(p, ".PartialContent(") && strings.HasSuffix(p, "#1") {
						ok = true
					}
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}

// rebuilt: content made anew has both attributes and blocks, and the place
// for missing items.
func (b *bodyCheck) rebuilt() {
	c := b.c
	for _, f := range []*ssa.Function{b.full, b.part} {
		newPathEnv(c, f).within(func(e *pathEnv, in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || !isNamed(derefType(al.Type()), c.ByPat["hcl"].PkgPath, "BodyContent") {
				return
			}
			for _, t := range e.tests(in) {
				if strings.Contains(t.txt, "HasErrors()") && t.truth {
					return // nothing can be read
				}
			}
			set := map[string]bool{}
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, u := range *fa.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
							set[fieldOf(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
			c.Count("contents made anew", 1)
			for _, n := range []string{"Attributes", "Blocks", "MissingItemRange"} {
				if !set[n] {
					b.report("rebuilt", n+" "+c.FuncName(e.f), in, fmt.Sprintf("the content made has no %s", n))
				}
			}
		})
	}
}

// gathered: what several bodies return is put together, and nothing is asked
// for that the caller did not.
func (b *bodyCheck) gathered() {
	c := b.c
	for _, f := range []*ssa.Function{b.full, b.part} {
		newPathEnv(c, f).within(func(e *pathEnv, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			field, owner := fieldOf(fa.X.Type(), fa.Field), derefType(fa.X.Type())
			switch {
			case isNamed(owner, c.ByPat["hcl"].PkgPath, "AttributeSchema") && field == "Required":
				k, ok := st.Val.(*ssa.Const)
				if (!ok || k.Value != nil && constant.BoolVal(k.Value)) && e.one(st.Val) != "p1.Attributes[].Required" {
					b.report("schema", "Required", in, "the wrapped body is told that an attribute is required that the caller does not require")
				}
			case isNamed(owner, c.ByPat["hcl"].PkgPath, "BodyContent") && field == "Blocks":
				al, ok := fa.X.(*ssa.Alloc)
				if !ok {
					return
				}
				for _, l := range loopsOf(e.f) {
					if !l.blocks[in.Block()] || l.blocks[al.Block()] {
						continue
					}
					call, ok := st.Val.(*ssa.Call)
					if ok {
						bi, isB := call.Call.Value.(*ssa.Builtin)
						ok = isB && bi.Name() == "append" && isLoadOf(call.Call.Args[0], al, field)
					}
					if !ok {
						b.report("handed", "blocks "+c.FuncName(e.f), in, "the blocks of one wrapped body take the place of those of another")
					}
				}
			}
		})
	}
}

// handsOnAttrs: what the wrapped body returned is returned.
func (b *bodyCheck) handsOnAttrs() {
	c := b.c
	for _, f := range []*ssa.Function{b.full, b.part, b.just} {
		found := false
		for _, ev := range b.events(f) {
			found = found || ev.kind == "attr"
		}
		inner := func(p string) bool { return strings.HasPrefix(p, "p0") && strings.Contains(p, "(") }
		newPathEnv(c, f).within(func(e *pathEnv, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Return:
				if e.f == f {
					for _, p := range e.of(x.Results[0]) {
						found = found || inner(p)
					}
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if ok && fieldOf(fa.X.Type(), fa.Field) == "Attributes" && isNamed(derefType(fa.X.Type()), c.ByPat["hcl"].PkgPath, "BodyContent") {
					for _, p := range e.of(x.Val) {
						found = found || inner(p)
					}
				}
			}
		})
		c.Count("attributes handed on", 1)
		if !found {
			b.report("handed", "attributes "+f.Name(), f, "the attributes of the wrapped body are not returned")
		}
	}
}

// duplicates: an attribute that several bodies have is an error.
func (b *bodyCheck) duplicates() {
	c := b.c
	if _, ok := b.named.Underlying().(*types.Slice); !ok {
		return
	}
	for _, f := range []*ssa.Function{b.full, b.part, b.just} {
		evs := b.events(f)
		for _, ev := range evs {
			if ev.kind != "attr" {
				continue
			}
			ok := false
			for _, t := range ev.tests {
				if t.kind == "in" && !t.truth && t.key == ev.key {
					for _, d := range evs {
						if d.kind != "diag" {
							continue
						}
						for _, u := range d.tests {
							if u.iff == t.iff && u.truth {
								ok = true
							}
						}
					}
				}
			}
			c.Count("complaints", 1)
			if !ok {
				b.report("duplicate", f.Name(), ev.in, "an attribute set in two of the bodies is not reported")
			}
		}
	}
}

// ownTypes: blocks of a type added to the schema are not the caller's, so the
// complaint that the wrapped body would make has to be made here.
func (b *bodyCheck) ownTypes() {
	c := b.c
	adds := false
	newPathEnv(c, b.full).within(func(e *pathEnv, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "append" {
			return
		}
		for _, el := range elements(call.Call.Args[1]) {
			if l, ok := isLoad(el); ok && isNamed(el.Type(), c.ByPat["hcl"].PkgPath, "BlockHeaderSchema") {
				if _, ok := l.X.(*ssa.Global); ok {
					adds = true
				}
			}
		}
	})
	if !adds {
		return
	}
	c.Count("types of its own", 1)
	for _, ev := range b.events(b.full) {
		if ev.kind != "diag" || !hasLoop(ev, ".Blocks") || ev.e.depth() > 1 {
			continue
		}
		for _, t := range ev.tests {
			if t.kind == "nil" && t.truth {
				return
			}
		}
	}
	b.report("extraneous", "own", b.full, "blocks of other types made by this body's own blocks are not reported")
}

// elements: the values passed in a variadic list made for the call.
func elements(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// ownValue: the test is about the body itself.
func (c *Ctx) ownValue(t test) bool {
	return strings.HasPrefix(t.txt, "p")
}

// miscounted: wherever a number of labels is compared with the number that the
// schema asks for, every way on from a difference meets an error.
func miscounted(c *Ctx) {
	u := &unknowns{c: c, memo: map[flagIs]bool{}}
	wanted := func(v ssa.Value) bool {
		seq, k := lenOf(v)
		if seq == nil || k != 0 {
			return false
		}
		switch x := seq.(type) {
		case *ssa.Field:
			return isNamed(x.X.Type(), hclPath, "BlockHeaderSchema")
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && isNamed(derefType(fa.X.Type()), hclPath, "BlockHeaderSchema")
		}
		return false
	}
	for _, f := range c.Funcs {
		if c.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for _, s := range b.Succs {
				for _, t := range edgeTest(b, s) {
					cmp, ok := t.cond.(*ssa.BinOp)
					if !ok || !wanted(cmp.X) && !wanted(cmp.Y) {
						continue
					}
					if l, _ := lenOf(cmp.X); l == nil {
						continue
					}
					if r, _ := lenOf(cmp.Y); r == nil {
						continue
					}
					op := cmp.Op
					if !t.yes {
						op = negated(op)
					}
					if op != token.NEQ && op != token.LSS && op != token.GTR {
						continue
					}
					c.Count("label counts compared", 1)
					c.Obligation("%s: a wrong number of labels is reported", c.FuncName(f))
					if !u.failsAfter(b, s) {
						c.Report("labels", c.FuncName(f)+" count", iff, fmt.Sprintf("%s passes over a block with the wrong number of labels without reporting it", c.FuncName(f)))
					}
				}
			}
		}
	}
}

// failsAfter: every way on from an edge makes an error before it comes together
// with other ways or ends.
func (u *unknowns) failsAfter(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var on func(b *ssa.BasicBlock) bool
	on = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if u.fails(b) {
			return true
		}
		if len(b.Succs) == 0 || b.Dominates(from) {
			return false
		}
		for _, s := range b.Succs {
			if !on(s) {
				return false
			}
		}
		return true
	}
	return on(to)
}
