package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "storage that one round of a loop overwrites (a variable declared outside the round, a map entry under a fixed key, the spare room or a fixed element of a slice made before) may not be referenced by anything that outlives the round that filled it", runC10)
}

// sharedObj is an object that exists before a round of a loop starts and is
// overwritten by the round.
type sharedObj struct {
	obj   origin          // the object in the origin graph
	made  ssa.Instruction // where it is made (nil: before the function)
	over  ssa.Instruction // what overwrites it
	what  string
	inner func(l *loop) bool // extra condition on the loop
}

func runC10(c *Ctx) {
	e := c.effectsOf()
	for _, f := range c.Funcs {
		if isFuzz(c.PkgOf(f)) {
			continue
		}
		st := e.states[f]
		if st == nil {
			continue
		}
		loops := loopsOf(f)
		c.Count("loops", len(loops))
		if len(loops) == 0 {
			continue
		}
		st.reachMemo, st.reachOut = map[origin]oset{}, map[origin]oset{}
		for _, s := range c10Objects(c, st, loops) {
			if !s.older(loops) {
				continue
			}
			c.Count("overwrites of storage made before a round", 1)
			c.Obligation("%s: %s overwritten at %s", c.FuncName(f), s.what, c.PosString(s.over.Pos()))
			c10Retained(c, st, loops, s)
		}
	}
	c.Floor("loops", 200)
	c.Floor("overwrites of storage made before a round", 60)
	c.Assume("functions outside the repository do not keep references to their arguments other than in their results")
}

// older: in some loop the overwriting round begins after the object was made.
func (s sharedObj) older(loops []*loop) bool {
	if s.made != nil && !reaches(s.made, s.over, nil) {
		return false
	}
	for _, l := range loops {
		if l.has(s.over) && (s.made == nil || !l.has(s.made)) && s.inner(l) {
			return true
		}
	}
	return false
}

func placeholderInstr(v ssa.Value) (ssa.Instruction, bool) {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Block() != nil {
		return nil, false
	}
	if placeholderOf == nil || len(placeholderOf) != len(resPlaceholders) {
		placeholderOf = map[*ssa.Alloc]ssa.Instruction{}
		for k, p := range resPlaceholders {
			placeholderOf[p] = k.c
		}
	}
	in, ok := placeholderOf[a]
	return in, ok
}

var placeholderOf map[*ssa.Alloc]ssa.Instruction

// originInstr: where an own object comes into being.
func originInstr(o origin) ssa.Instruction {
	if o.k != 'A' || o.v == nil {
		return nil
	}
	if in, ok := placeholderInstr(o.v); ok {
		return in
	}
	in, _ := o.v.(ssa.Instruction)
	return in
}

// selfDerived: the value stored is an extension of what the place already
// holds (x = append(x, ...)), so earlier contents stay.
func selfDerived(v ssa.Value, addr ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := strip(v).(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return loadOf(x.Call.Args[0], addr, depth) || selfDerived(x.Call.Args[0], addr, depth+1)
		}
		if len(x.Call.Args) > 0 && isDiags(x.Type()) {
			return loadOf(x.Call.Args[0], addr, depth) || selfDerived(x.Call.Args[0], addr, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !loadOf(e, addr, depth) && !selfDerived(e, addr, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func loadOf(v ssa.Value, addr ssa.Value, depth int) bool {
	u, ok := isLoad(strip(v))
	return ok && sameAddr(u.X, addr)
}

// sameAddr: the two expressions denote the same variable, field or element.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && sameAddr(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op == token.MUL && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}

func c10Objects(c *Ctx, st *fnState, loops []*loop) []sharedObj {
	var out []sharedObj
	inLoop := func(in ssa.Instruction) bool {
		for _, l := range loops {
			if l.has(in) {
				return true
			}
		}
		return false
	}
	// whole objects written in place
	direct := func(base ssa.Value, over ssa.Instruction, what string, cond func(l *loop) bool) {
		for o := range st.get(base) {
			if o.k == 'A' && o.v == nil {
				continue
			}
			if o.k == 'G' {
				continue // C07
			}
			if o.k != 'A' && o.d > 0 {
				continue
			}
			made := originInstr(o)
			if o.k == 'A' && made == nil {
				continue
			}
			out = append(out, sharedObj{o, made, over, what, cond})
		}
	}
	for _, b := range st.f.Blocks {
		for _, in := range b.Instrs {
			if !inLoop(in) {
				continue
			}
			switch in := in.(type) {
			case *ssa.Store:
				if selfDerived(in.Val, in.Addr, 0) {
					continue
				}
				base, _ := addrParts(in.Addr)
				// only variables of this function: objects reached through
				// other pointers are judged where they are made
				cond := func(l *loop) bool { return true }
				if ia := indexOf(in.Addr); ia != nil {
					if _, isC := ia.Index.(*ssa.Const); !isC {
						cond = func(l *loop) bool { return invariant(l, ia.Index) }
					}
				}
				if cell, ok := base.(*ssa.Alloc); ok {
					if cell.Comment == "varargs" || cell.Comment == "slicelit" {
						continue
					}
				}
				direct(base, in, "variable "+varName(base)+" ("+describeAddr(in.Addr)+")", cond)
			case *ssa.MapUpdate:
				key := in.Key
				direct(in.Map, in, "entry of "+shortType(in.Map.Type()), func(l *loop) bool {
					if _, isC := key.(*ssa.Const); !isC && !invariant(l, key) {
						return false
					}
					if _, isC := in.Value.(*ssa.Const); isC || !l.definedIn(in.Value) {
						return false
					}
					return !c10SelfEntry(in)
				})
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if s := c10Append(st, in); s != nil {
							out = append(out, *s)
						}
					case "copy":
						dst := in.Call.Args[0]
						direct(dst, in, "elements of "+shortType(dst.Type()), func(l *loop) bool {
							if sl, ok := dst.(*ssa.Slice); ok && sl.Low != nil && l.definedIn(sl.Low) {
								return false
							}
							return true
						})
					}
					continue
				}
				if g := in.Call.StaticCallee(); g != nil && (g.Name() == "Reset" || g.Name() == "Truncate") && len(in.Call.Args) > 0 && !c.InRepo(g) {
					direct(in.Call.Args[0], in, "buffer", func(l *loop) bool { return true })
				}
			}
		}
	}
	return out
}

func indexOf(addr ssa.Value) *ssa.IndexAddr {
	for {
		switch x := addr.(type) {
		case *ssa.IndexAddr:
			return x
		case *ssa.FieldAddr:
			addr = x.X
		default:
			return nil
		}
	}
}

func varName(v ssa.Value) string {
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	if v.Name() != "" {
		return v.Name()
	}
	return "?"
}

// invariant: the value is the same in every round.
func invariant(l *loop, v ssa.Value) bool {
	if !l.definedIn(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return invariant(l, x.X)
		}
		if !invariantAddr(l, x.X) {
			return false
		}
		// not stored to in the loop
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && sameAddr(s.Addr, x.X) {
					return false
				}
			}
		}
		return true
	case *ssa.ChangeType:
		return invariant(l, x.X)
	case *ssa.MakeInterface:
		return invariant(l, x.X)
	case *ssa.Field:
		return invariant(l, x.X)
	case *ssa.FieldAddr:
		return invariant(l, x.X)
	case *ssa.BinOp:
		return invariant(l, x.X) && invariant(l, x.Y)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return invariant(l, x.Call.Args[0])
		}
	}
	return false
}

func invariantAddr(l *loop, a ssa.Value) bool {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return invariant(l, x.X)
	case *ssa.IndexAddr:
		return invariant(l, x.X) && invariant(l, x.Index)
	}
	return !l.definedIn(a)
}

// c10SelfEntry: m[k] = f(m[k]): the entry is extended, not replaced.
func c10SelfEntry(in *ssa.MapUpdate) bool {
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if lk, ok := v.(*ssa.Lookup); ok && sameAddr(lk.X, in.Map) {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && dep(*op) {
				return true
			}
		}
		return false
	}
	return dep(in.Value)
}

// c10Append: append to a slice whose length does not grow from round to round.
func c10Append(st *fnState, in *ssa.Call) *sharedObj {
	base := in.Call.Args[0]
	if c, ok := base.(*ssa.Const); ok && c.Value == nil {
		return nil
	}
	o := origin{k: 'A', v: in}
	if sl, ok := strip(base).(*ssa.Slice); ok {
		if sl.Max != nil {
			return nil
		}
		if p, isP := sl.X.Type().Underlying().(*types.Pointer); isP && sl.High == nil {
			if _, isA := p.Elem().Underlying().(*types.Array); isA {
				return nil // a literal has no spare room
			}
		}
		if sl.High != nil {
			// cut back and filled again
			return &sharedObj{o, nil, in, "backing array of " + shortType(base.Type()), func(l *loop) bool {
				// the array itself must be older than the round
				for ob := range st.get(sl.X) {
					oi := originInstr(ob)
					if ob.k != 'A' || oi != nil && !l.has(oi) {
						return true
					}
				}
				return false
			}}
		}
	}
	return &sharedObj{o, nil, in, "spare room of " + shortType(base.Type()), func(l *loop) bool {
		return invariant(l, base) && !noSpare(base)
	}}
}

// noSpare: the slice certainly has no unused capacity (or is nil).
func noSpare(v ssa.Value) bool {
	switch x := strip(v).(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if p, isP := x.X.Type().Underlying().(*types.Pointer); isP && x.High == nil {
			_, isA := p.Elem().Underlying().(*types.Array)
			return isA
		}
		return x.Max != nil
	case *ssa.MakeSlice:
		return x.Len == x.Cap
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == x || !noSpare(e) {
				return false
			}
		}
		return true
	}
	return false
}

// c10Retained reports the object if a round can hand out a reference to it
// that is still there when the next round overwrites it.
func c10Retained(c *Ctx, st *fnState, loops []*loop, s sharedObj) {
	isObj := func(o origin) bool { return o == s.obj }
	holdMemo := map[ssa.Value]bool{}
	holder := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		if r, ok := holdMemo[v]; ok {
			return r
		}
		r := false
		for o := range st.get(v) {
			for x := range st.reachAll(o) {
				if isObj(x) {
					r = true
				}
			}
		}
		holdMemo[v] = r
		return r
	}
	// is there a loop whose rounds contain both the overwrite and r but begin
	// after the object (and not with a fresh container)?
	outlives := func(r ssa.Instruction, container ssa.Instruction) bool {
		for _, l := range loops {
			if !l.has(s.over) || !l.has(r) || s.made != nil && l.has(s.made) || !s.inner(l) {
				continue
			}
			if container != nil && l.has(container) {
				continue
			}
			return true
		}
		return false
	}
	stop := func(in ssa.Instruction) bool { return s.made != nil && in == s.made }
	hit := func(in ssa.Instruction) bool { return in == s.over }
	report := func(r ssa.Instruction, how string) {
		if r == s.over && s.obj.v != nil && s.obj.v == ssa.Value(nil) {
			return
		}
		if !reachesAny(r, hit, stop) {
			return
		}
		pos := r.Pos()
		if !pos.IsValid() {
			pos = s.over.Pos()
		}
		c.Report("shared", fmt.Sprintf("%s: %s %s", c.FuncName(st.f), s.what, how), At(pos),
			fmt.Sprintf("%s in %s is overwritten by each round of a loop (%s) but a reference to it %s and outlives the round", s.what, c.FuncName(st.f), c.PosString(s.over.Pos()), how))
	}
	keeps := func(base oset, r ssa.Instruction, how string) {
		for o := range base {
			if isObj(o) {
				continue // part of the object itself
			}
			oi := originInstr(o)
			if o.k == 'A' && oi == nil {
				continue
			}
			// anything inside the object itself is overwritten along with it
			if outlives(r, oi) {
				report(r, how)
				return
			}
		}
	}
	for _, b := range st.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !holder(in.Val) || in == s.over {
					continue
				}
				base, _ := addrParts(in.Addr)
				keeps(st.get(base), in, "is stored in "+describeAddr(in.Addr))
			case *ssa.MapUpdate:
				if in != s.over && (holder(in.Value) || holder(in.Key)) {
					keeps(st.get(in.Map), in, "is stored in "+shortType(in.Map.Type()))
				}
			case *ssa.Phi:
				for k, ev := range in.Edges {
					p := in.Block().Preds[k]
					if !in.Block().Dominates(p) || !holder(ev) {
						continue
					}
					// carried into the next round, but not as the object itself
					self := false
					for o := range st.get(ev) {
						if isObj(o) {
							self = true
						}
					}
					if self && len(st.get(ev)) == 1 {
						continue
					}
					if selfOnly(st, ev, s.obj) {
						continue
					}
					last := p.Instrs[len(p.Instrs)-1]
					for _, l := range loops {
						if l.header == in.Block() && l.has(s.over) && (s.made == nil || !l.has(s.made)) && s.inner(l) {
							if in.Comment != "" {
								report(last, "is kept in variable "+in.Comment)
							} else {
								report(last, "is kept for the next round")
							}
						}
					}
				}
			case *ssa.Defer:
				if holder(in.Call.Value) && outlives(in, nil) {
					report(in, "is kept by a deferred call")
				}
			case *ssa.Go:
				if holder(in.Call.Value) && outlives(in, nil) {
					report(in, "is kept by a goroutine")
				}
			case *ssa.Call:
				c10Call(c, st, in, holder, keeps)
			}
		}
	}
}

// selfOnly: the carried value is the shared object (or parts of it), not
// something containing it.
func selfOnly(st *fnState, v ssa.Value, obj origin) bool {
	if a, ok := obj.v.(*ssa.Call); ok && obj.k == 'A' {
		// the slice made by append: carrying the slice itself is growth
		_ = a
		for o := range st.get(v) {
			if o == obj {
				return true
			}
		}
	}
	return false
}

func c10Call(c *Ctx, st *fnState, in *ssa.Call, holder func(ssa.Value) bool, keeps func(oset, ssa.Instruction, string)) {
	com := in.Common()
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return
	}
	var args []ssa.Value
	if com.IsInvoke() {
		args = append(args, com.Value)
	}
	args = append(args, com.Args...)
	any := false
	for _, a := range args {
		if holder(a) {
			any = true
		}
	}
	if !any {
		return
	}
	for _, g := range c.Callees(com) {
		s := st.e.sums[g]
		if s == nil {
			// function values handed to other libraries are kept there
			if !runsNow(g) {
				for _, a := range args {
					for o := range st.get(a) {
						for x := range st.reachAll(o) {
							if mc, ok := x.v.(*ssa.MakeClosure); ok && x.k == 'A' && holder(mc) {
								keeps(oset{{k: 'G'}: true}, in, "is kept by a function given to "+g.String())
							}
						}
					}
				}
			}
			continue
		}
		for fl := range s.flows {
			if fl.from.k != 'P' || fl.from.i >= len(args) || !holder(args[fl.from.i]) {
				continue
			}
			if fl.to.k != 'P' || fl.to.i >= len(args) {
				continue
			}
			if fl.to.i == fl.from.i {
				continue
			}
			// does what flows contain the object?
			has := false
			for o := range st.follow(st.get(args[fl.from.i]), fl.from.d) {
				v := originHolder{st, o}
				if v.holds(holder, args[fl.from.i]) {
					has = true
				}
			}
			if has {
				keeps(st.follow(st.get(args[fl.to.i]), fl.to.d), in, "is kept by "+c.calleeName(com))
			}
		}
	}
}

// runsNow: the library function only uses function arguments while it runs.
func runsNow(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "sort", "strings", "bytes", "slices", "path/filepath", "fmt":
		return true
	}
	return false
}

type originHolder struct {
	st *fnState
	o  origin
}

// holds: a coarse answer, the argument as a whole holds the object and the
// followed origin is part of the argument's own graph.
func (h originHolder) holds(holder func(ssa.Value) bool, arg ssa.Value) bool {
	return h.o.k == 'A' && holder(arg)
}
