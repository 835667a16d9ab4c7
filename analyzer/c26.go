package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "fields guarded by a lock are accessed with it held in the right mode and it is released on every way out; what expression nodes remember during evaluation is kept per evaluation context, set before use and withdrawn on every way out", runC26)
}

func runC26(c *Ctx) {
	g := &guarded{c: c, locks: map[*types.Named]int{}, written: map[*types.Var]bool{}}
	g.find()
	for _, f := range c.Funcs {
		if len(f.Blocks) > 0 && !c.generated(f) {
			g.accesses(f)
		}
	}
	p := &placeholders{c: c, set: map[*ssa.Function]int{}, clear: map[*ssa.Function]int{}, get: map[*ssa.Function]int{}}
	p.find(g)
	for _, f := range c.Funcs {
		if len(f.Blocks) > 0 && p.set[f] == 0 {
			p.pairs(f)
		}
	}
	if len(p.set) > 0 {
		c.Floor("guarded accesses", 5)
		c.Floor("placeholders set", 2)
		c.Floor("evaluations with a placeholder", 2)
	}
}

// guarded: structures with a lock of their own.
type guarded struct {
	c       *Ctx
	locks   map[*types.Named]int // field of the lock
	written map[*types.Var]bool
}

func isLock(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func (g *guarded) find() {
	for _, n := range g.c.named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if isLock(t) {
				g.locks[n] = i
				g.c.Count("structures with a lock", 1)
			}
		}
	}
	for _, f := range g.c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if v := g.field(fa); v != nil && !fresh(fa.X) && writes(fa) {
						g.written[v] = true
					}
				}
			}
		}
	}
}

// field: the field of a structure with a lock, other than the lock.
func (g *guarded) field(fa *ssa.FieldAddr) *types.Var {
	n, ok := derefType(fa.X.Type()).(*types.Named)
	if !ok {
		return nil
	}
	lock, ok := g.locks[n]
	if !ok || lock == fa.Field {
		return nil
	}
	return n.Underlying().(*types.Struct).Field(fa.Field)
}

func fresh(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// writes: the field, or the map or list in it, is changed.
func writes(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(fa) {
				return true
			}
		case *ssa.UnOp:
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.MapUpdate:
					if y.Map == ssa.Value(x) {
						return true
					}
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						return true
					}
				}
			}
		}
	}
	return false
}

// uses of a field: reads and writes of it and of a map in it.
func uses(fa *ssa.FieldAddr) (reads, writes []ssa.Instruction) {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(fa) {
				writes = append(writes, x)
			}
		case *ssa.UnOp:
			reads = append(reads, x)
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.MapUpdate:
					if y.Map == ssa.Value(x) {
						writes = append(writes, y)
					}
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "delete" {
							writes = append(writes, y)
						} else {
							reads = append(reads, y)
						}
					}
				case *ssa.Lookup:
					reads = append(reads, y)
				case *ssa.Range:
					reads = append(reads, y)
					for _, n := range *y.Referrers() {
						reads = append(reads, n)
					}
				}
			}
		}
	}
	return
}

// lockCall: the lock operation an instruction performs, and on what.
func (g *guarded) lockCall(cc *ssa.CallCommon) (op string, base ssa.Value) {
	f := cc.StaticCallee()
	if f == nil || len(cc.Args) == 0 || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" {
		return
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
	default:
		return
	}
	a := cc.Args[0]
	if l, ok := isLoad(a); ok {
		a = l.X
	}
	if fa, ok := a.(*ssa.FieldAddr); ok {
		return f.Name(), fa.X
	}
	return f.Name(), nil
}

// lockState is the weakest the lock can be held at an instruction.
type lockState struct {
	held     int  // 0 not, 1 for reading, 2 for writing
	may      int  // the strongest
	deferred bool // it is released on the way out
}

func (g *guarded) states(f *ssa.Function, base ssa.Value) (map[ssa.Instruction]lockState, []string) {
	at := map[ssa.Instruction]lockState{}
	in := map[*ssa.BasicBlock]lockState{}
	var problems []string
	problem := func(s string) { problems = append(problems, s) }
	known := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	for changed := true; changed; {
		changed = false
		problems = nil
		for _, b := range f.Blocks {
			if !known[b] {
				continue
			}
			s := in[b]
			for _, i := range b.Instrs {
				at[i] = s
				switch x := i.(type) {
				case *ssa.Call:
					op, on := g.lockCall(x.Common())
					if op != "" && on != nil && g.same(on, base) {
						switch op {
						case "Lock":
							if s.may > 0 {
								problem("a lock is taken that is already held")
							}
							s.held, s.may = 2, 2
						case "RLock":
							if s.may > 1 {
								problem("a lock is taken that is already held")
							}
							s.held, s.may = 1, 1
						case "Unlock":
							if s.held != 2 {
								problem("a lock is released that is not held for writing")
							}
							s.held, s.may = 0, 0
						case "RUnlock":
							if s.held != 1 {
								problem("a lock is released that is not held for reading")
							}
							s.held, s.may = 0, 0
						}
					} else if callee := x.Call.StaticCallee(); callee != nil && s.may > 0 && g.takes(callee, x.Call.Args, base, map[*ssa.Function]bool{}) {
						problem("a function that takes the lock is called while it is held")
					}
				case *ssa.Defer:
					op, on := g.lockCall(x.Common())
					if on != nil && g.same(on, base) {
						if op == "Unlock" && s.held != 2 || op == "RUnlock" && s.held != 1 {
							problem("a lock is to be released in another way than it is held")
						}
						s.deferred = true
					}
				case *ssa.Return:
					if s.may > 0 && !s.deferred {
						problem("a lock is still held on a way out")
					}
				}
			}
			for _, n := range b.Succs {
				if !known[n] {
					known[n], in[n], changed = true, s, true
					continue
				}
				m := in[n]
				if s.held < m.held {
					m.held = s.held
				}
				if s.may > m.may {
					m.may = s.may
				}
				m.deferred = m.deferred && s.deferred
				if m != in[n] {
					in[n], changed = m, true
				}
			}
		}
	}
	return at, uniq(problems)
}

func (g *guarded) same(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := isLoad(a)
	lb, ok2 := isLoad(b)
	if ok1 && ok2 {
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		if ok1 && ok2 {
			return fa.Field == fb.Field && g.same(fa.X, fb.X)
		}
		return la.X == lb.X
	}
	return false
}

// takes: the function takes the lock of one of its arguments.
func (g *guarded) takes(f *ssa.Function, args []ssa.Value, base ssa.Value, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(f.Blocks) == 0 {
		return false
	}
	seen[f] = true
	for i, a := range args {
		if !g.same(a, base) || i >= len(f.Params) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					op, on := g.lockCall(call.Common())
					if (op == "Lock" || op == "RLock") && on == ssa.Value(f.Params[i]) {
						return true
					}
					if h := call.Call.StaticCallee(); h != nil && op == "" && g.takes(h, call.Call.Args, f.Params[i], seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// accesses judges the accesses to guarded fields in a function.
func (g *guarded) accesses(f *ssa.Function) {
	c := g.c
	done := map[ssa.Value]map[ssa.Instruction]lockState{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				if call, ok := in.(*ssa.Call); ok {
					if op, on := g.lockCall(call.Common()); op != "" && on != nil && done[on] == nil {
						var ps []string
						done[on], ps = g.states(f, on)
						for _, p := range ps {
							c.Report("lock", c.FuncName(f)+" "+p, call, p)
						}
					}
				}
				continue
			}
			v := g.field(fa)
			if v == nil || fresh(fa.X) || !g.written[v] {
				continue
			}
			st := done[fa.X]
			if st == nil {
				var ps []string
				st, ps = g.states(f, fa.X)
				done[fa.X] = st
				for _, p := range ps {
					c.Report("lock", c.FuncName(f)+" "+p, fa, p)
				}
			}
			reads, writes := uses(fa)
			for n, list := range [][]ssa.Instruction{reads, writes} {
				for _, u := range list {
					c.Count("guarded accesses", 1)
					if st[u].held > n || g.heldByCallers(f, fa.X, n, map[*ssa.Function]bool{}) {
						continue
					}
					how := []string{"read", "changed"}[n]
					c.Report("unguarded", c.FuncName(f)+" "+how+" "+v.Name(), u, fmt.Sprintf("%s is %s without its lock held for that", v.Name(), how))
				}
			}
			c.Obligation("%s: accesses to %s hold the lock", c.FuncName(f), v.Name())
		}
	}
}

// heldByCallers: every caller holds the lock.
func (g *guarded) heldByCallers(f *ssa.Function, base ssa.Value, mode int, seen map[*ssa.Function]bool) bool {
	if seen[f] || g.c.addressTaken(f) || f.Object() != nil && f.Object().Exported() {
		return false
	}
	seen[f] = true
	idx := -1
	for i, p := range f.Params {
		if ssa.Value(p) == base {
			idx = i
		}
	}
	if idx < 0 {
		return false
	}
	n := 0
	for _, h := range g.c.Funcs {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != f {
					continue
				}
				n++
				arg := call.Common().Args[idx]
				st, _ := g.states(h, arg)
				if st[in].held <= mode && !g.heldByCallers(h, arg, mode, seen) {
					return false
				}
			}
		}
	}
	return n > 0
}

// placeholders: what expression nodes remember while they are evaluated.
type placeholders struct {
	c               *Ctx
	set, clear, get map[*ssa.Function]int // and the parameter with the context
}

func isEvalContext(c *Ctx, t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isNamed(p.Elem(), c.ByPat["hcl"].PkgPath, "EvalContext")
}

func (p *placeholders) find(g *guarded) {
	c := p.c
	et := c.LookupType("hcl", "Expression")
	if et == nil {
		c.Report("anchor", "Expression", nil, "interface hcl.Expression not found")
		return
	}
	it := et.Underlying().(*types.Interface)
	for _, f := range c.Funcs {
		recv := f.Signature.Recv()
		if recv == nil || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		n, ok := derefType(recv.Type()).(*types.Named)
		if !ok || !types.Implements(types.NewPointer(n), it) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(f.Params[0]) {
					continue
				}
				name := c.TypeName(n) + "." + fieldOf(fa.X.Type(), fa.Field)
				ft := derefType(fa.Type())
				m, isMap := ft.Underlying().(*types.Map)
				perCtx := isMap && isEvalContext(c, m.Key())
				reads, ws := uses(fa)
				for _, w := range ws {
					switch x := w.(type) {
					case *ssa.Store:
						if _, made := x.Val.(*ssa.MakeMap); made && perCtx {
							continue
						}
						c.Report("state", name, w, fmt.Sprintf("%s is changed by an evaluation and is not kept separately for each evaluation context", name))
					case *ssa.MapUpdate:
						p.note(p.set, f, x.Key, w, name, perCtx)
					case *ssa.Call:
						p.note(p.clear, f, x.Call.Args[1], w, name, perCtx)
					}
					if perCtx {
						if _, ok := g.locks[n]; !ok {
							c.Report("state", name+" lock", w, fmt.Sprintf("%s is changed by an evaluation without a lock", name))
						}
					}
				}
				for _, r := range reads {
					if lk, ok := r.(*ssa.Lookup); ok && perCtx {
						p.note(p.get, f, lk.Index, r, name, perCtx)
					}
				}
			}
		}
	}
	p.wrap(it)
	if len(p.set) > 0 && (len(p.clear) == 0 || len(p.get) == 0) {
		c.Report("state", "pairs", nil, "a value remembered for an evaluation is never used or never withdrawn")
	}
}

// wrap: a method that passes its receiver and context on does the same.
func (p *placeholders) wrap(it *types.Interface) {
	for changed := true; changed; {
		changed = false
		for _, f := range p.c.Funcs {
			if f.Signature.Recv() == nil || f.Parent() != nil || len(f.Params) == 0 || !types.Implements(f.Params[0].Type(), it) {
				continue
			}
			found := map[*map[*ssa.Function]int]int{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() == nil {
						continue
					}
					for _, of := range []*map[*ssa.Function]int{&p.set, &p.clear, &p.get} {
						i, ok := (*of)[call.Common().StaticCallee()]
						if !ok || call.Common().Args[0] != ssa.Value(f.Params[0]) {
							continue
						}
						for j, prm := range f.Params {
							if call.Common().Args[i] == ssa.Value(prm) {
								found[of] = j
							}
						}
					}
				}
			}
			if len(found) != 1 {
				continue
			}
			for of, j := range found {
				if _, ok := (*of)[f]; !ok {
					(*of)[f] = j
					changed = true
				}
			}
		}
	}
}

func (p *placeholders) note(to map[*ssa.Function]int, f *ssa.Function, key ssa.Value, in ssa.Instruction, name string, perCtx bool) {
	if perCtx {
		for i, prm := range f.Params {
			if ssa.Value(prm) == key {
				to[f] = i
				p.c.Count("placeholder operations", 1)
				return
			}
		}
	}
	p.c.Report("state", name, in, fmt.Sprintf("%s is not kept for the evaluation context that the caller passes", name))
}

// cell: a variable in memory stands for the value in it.
func cell(v ssa.Value) ssa.Value {
	if l, ok := isLoad(v); ok {
		switch l.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return l.X
		}
	}
	return v
}

// pairs: in a function that sets a placeholder, it is used and withdrawn.
func (p *placeholders) pairs(f *ssa.Function) {
	c := p.c
	e := newPathEnv(c, f)
	type token struct {
		item string
		ctx  ssa.Value
	}
	op := func(cc *ssa.CallCommon, of map[*ssa.Function]int) (token, bool) {
		g := cc.StaticCallee()
		if g == nil {
			return token{}, false
		}
		i, ok := of[g]
		if !ok {
			return token{}, false
		}
		return token{strings.Join(e.of(cc.Args[0]), "|"), cell(cc.Args[i])}, true
	}
	sets := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if _, ok := op(call.Common(), p.set); ok {
					sets++
				}
			}
		}
	}
	if sets == 0 {
		return
	}
	c.Count("placeholders set", sets)
	type state map[token]bool // false: withdrawn on the way out
	ins := map[*ssa.BasicBlock]state{f.Blocks[0]: {}}
	used := map[token]bool{}
	evaluated := map[string]bool{} // paths of expressions evaluated with a placeholder
	type eval struct {
		in   ssa.Instruction
		expr string
		with bool
	}
	var evals []eval
	problems := map[string]ssa.Instruction{}
	all := map[token]ssa.Instruction{}
	for changed := true; changed; {
		changed = false
		evals = nil
		problems = map[string]ssa.Instruction{}
		for _, b := range f.Blocks {
			in0, ok := ins[b]
			if !ok {
				continue
			}
			s := state{}
			for k, v := range in0 {
				s[k] = v
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if t, ok := op(x.Common(), p.set); ok {
						if _, held := s[t]; !held {
							s[t] = true
						}
						all[t] = in
						continue
					}
					if t, ok := op(x.Common(), p.clear); ok {
						delete(s, t)
						continue
					}
					if !x.Call.IsInvoke() || x.Call.Method.Name() != "Value" || len(x.Call.Args) != 1 || !isEvalContext(c, x.Call.Args[0].Type()) {
						continue
					}
					expr := strings.Join(e.of(x.Call.Value), "|")
					with := false
					for t := range s {
						if t.ctx == cell(x.Call.Args[0]) {
							with = true
							used[t] = true
						}
					}
					if with {
						evaluated[expr] = true
					}
					evals = append(evals, eval{in, expr, with})
				case *ssa.Defer:
					if t, ok := op(x.Common(), p.clear); ok {
						s[t] = false
					}
				case *ssa.Store:
					for t, pending := range s {
						if pending && t.ctx == x.Addr {
							problems["the evaluation context is replaced while the placeholder for "+t.item+" is set"] = in
						}
					}
				case *ssa.Return:
					for t, pending := range s {
						if pending {
							problems["the placeholder for "+t.item+" is not withdrawn on a way out"] = in
						}
					}
				}
			}
			for _, n := range b.Succs {
				old, ok := ins[n]
				if !ok {
					old = state{}
					ins[n] = old
					changed = true
				}
				for k, v := range s {
					if o, ok := old[k]; !ok || v && !o {
						old[k] = v
						changed = true
					}
				}
			}
		}
	}
	c.Obligation("%s withdraws the placeholders it sets", c.FuncName(f))
	var ks []string
	for k := range problems {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.Report("withdraw", c.FuncName(f)+" "+k, problems[k], k)
	}
	for t, in := range all {
		if !used[t] {
			c.Report("use", c.FuncName(f)+" "+t.item, in, "the placeholder is set for another evaluation context than the one used")
		}
	}
	for _, ev := range evals {
		if ev.with {
			c.Count("evaluations with a placeholder", 1)
		} else if evaluated[ev.expr] {
			c.Report("use", c.FuncName(f)+" "+ev.expr, ev.in, "the elements' expression is evaluated without its placeholder set")
		}
	}
}
