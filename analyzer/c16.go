package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "encoding and decoding of packed bodies are compared place by place: where each part of a body goes in its JSON form against where decoding takes it from, ranges encoded against ranges collected, the order of numbers written and read, differences against sums, tables of syntax kinds, and the guards of positions taken from decoded data", runC16)
}

const packPkg = "hclpack"

func runC16(c *Ctx) {
	p := &packCheck{c: c}
	p.pairs()
	p.ranges()
	p.tables()
	p.numbers()
	p.deltas()
	p.offsets()
	p.order()
	p.guards()
	p.text()
	p.space()
	p.ends()
	c.Floor("pairs of forms", 3)
	c.Floor("places compared", 9)
	c.Floor("ranges encoded", 5)
	c.Floor("numbers read", 4)
	c.Floor("positions guarded", 5)
}

type packCheck struct{ c *Ctx }

func (p *packCheck) funcs(visit func(f *ssa.Function)) {
	for _, f := range p.c.AllFuncs() {
		if p.c.PkgOf(f) == packPkg && len(f.Blocks) > 0 && f.Parent() == nil && f.Synthetic == "" {
			visit(f)
		}
	}
}

// jsonStruct: a structure with tags for encoding.
func jsonStruct(t types.Type) *types.Struct {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if reflect.StructTag(st.Tag(i)).Get("json") != "" {
			return st
		}
	}
	return nil
}

func namedIn(t types.Type) *types.Named {
	n, _ := derefType(t).(*types.Named)
	return n
}

// A placement says that a part of the result comes from a part of the
// argument.
type placement struct {
	dst, src string
	at       ssa.Instruction
}

// index describes a position: a number, or the round of the loop with an
// offset.
func indexText(v ssa.Value) string {
	if v == nil {
		return "0"
	}
	if k, ok := constInt(v); ok {
		return fmt.Sprint(k)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		l, lok := constInt(x.X)
		r, rok := constInt(x.Y)
		switch {
		case x.Op == token.ADD && rok:
			if inner, ok := x.X.(*ssa.Phi); ok && (r == 1) && isRangeIndex(inner, x) {
				return "i"
			}
			return indexText(x.X) + fmt.Sprintf("+%d", r)
		case x.Op == token.ADD && lok:
			return indexText(x.Y) + fmt.Sprintf("+%d", l)
		}
		return "?"
	case *ssa.Phi, *ssa.Extract:
		return "i"
	}
	return "?"
}

// isRangeIndex: the counter of a loop over a sequence, counted up before use.
func isRangeIndex(phi *ssa.Phi, inc *ssa.BinOp) bool {
	for _, e := range phi.Edges {
		if e == ssa.Value(inc) {
			return true
		}
	}
	return false
}

// place describes an address within a local result.
func (p *packCheck) place(e *pathEnv, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return "", true
	case *ssa.FieldAddr:
		b, ok := p.place(e, x.X)
		return b + "." + fieldOf(x.X.Type(), x.Field), ok
	case *ssa.IndexAddr:
		b, ok := p.place(e, x.X)
		return b + "[" + indexText(x.Index) + "]", ok
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.place(e, x.X)
		}
	case *ssa.Slice:
		b, ok := p.place(e, x.X)
		return b + "[" + indexText(x.Low) + ":]", ok
	case *ssa.MakeSlice:
		// made first and put in place later or before
		if rs := x.Referrers(); rs != nil {
			for _, r := range *rs {
				if st, ok := r.(*ssa.Store); ok && st.Val == v {
					return p.place(e, st.Addr)
				}
			}
		}
	case *ssa.MakeMap:
		if rs := x.Referrers(); rs != nil {
			for _, r := range *rs {
				if st, ok := r.(*ssa.Store); ok && st.Val == v {
					return p.place(e, st.Addr)
				}
			}
		}
	}
	return "", false
}

// source describes where a value comes from, as a part of the argument.
func (p *packCheck) source(e *pathEnv, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Convert:
		return p.source(e, x.X)
	case *ssa.ChangeType:
		return p.source(e, x.X)
	case *ssa.Slice:
		s, ok := p.source(e, x.X)
		if x.Low == nil && x.High == nil {
			return s, ok
		}
		return s + "[" + indexText(x.Low) + ":]", ok
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				s, ok := p.source(e, ia.X)
				return s + "[" + indexText(ia.Index) + "]", ok
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if vals, ok := storedIn(al); ok && len(vals) == 1 {
					return p.source(e, vals[0])
				}
			}
		}
	case *ssa.IndexAddr:
		s, ok := p.source(e, x.X)
		return s + "[" + indexText(x.Index) + "]", ok
	case *ssa.Alloc:
		if vals, ok := storedIn(x); ok && len(vals) == 1 {
			return p.source(e, vals[0])
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			if s := e.one(v); strings.HasPrefix(s, "p0.") {
				return strings.TrimSuffix(strings.TrimPrefix(s, "p0"), "[]") + "[i]", true
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || p.c.PkgOf(g) != packPkg || len(x.Call.Args) == 0 {
			return "", false
		}
		s, ok := p.source(e, x.Call.Args[0])
		last := x.Call.Args[len(x.Call.Args)-1]
		if isInt(last.Type()) && len(x.Call.Args) > 1 {
			s += "[" + indexText(last) + "]"
		}
		return s, ok
	}
	s := e.one(v)
	if !strings.HasPrefix(s, "p0") {
		return "", false
	}
	s = strings.TrimPrefix(s, "p0")
	return strings.Replace(s, "[]", "[i]", -1), true
}

// placements of a function that makes one form from the other.
func (p *packCheck) placements(f *ssa.Function) []placement {
	var out []placement
	e := newPathEnv(p.c, f)
	live := liveBlocks(f)
	add := func(dst ssa.Value, suffix string, src ssa.Value, at ssa.Instruction) {
		d, ok := p.place(e, dst)
		if !ok {
			return
		}
		if d == "" && suffix == "" {
			return
		}
		s, ok := p.source(e, src)
		if !ok || s == "" {
			return
		}
		out = append(out, placement{d + suffix, s, at})
	}
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				add(x.Addr, "", x.Val, in)
			case *ssa.MapUpdate:
				key := "[?]"
				if ex, ok := x.Key.(*ssa.Extract); ok && ex.Index == 1 {
					key = "[i]"
				}
				add(x.Map, key, x.Value, in)
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
					add(x.Call.Args[0], "", x.Call.Args[1], in)
				}
			}
		}
	}
	return out
}

type formPair struct {
	val, json *types.Named
	enc, dec  *ssa.Function
}

func (p *packCheck) formPairs() []formPair {
	c := p.c
	by := map[string]*formPair{}
	get := func(v, j *types.Named) *formPair {
		k := v.Obj().Name() + "/" + j.Obj().Name()
		if by[k] == nil {
			by[k] = &formPair{val: v, json: j}
		}
		return by[k]
	}
	p.funcs(func(f *ssa.Function) {
		sig := f.Signature
		if sig.Results().Len() != 1 || len(f.Params) == 0 {
			return
		}
		from, to := namedIn(f.Params[0].Type()), namedIn(sig.Results().At(0).Type())
		if from == nil || to == nil {
			return
		}
		fj, tj := jsonStruct(from), jsonStruct(to)
		switch {
		case fj == nil && tj != nil:
			get(from, to).enc = f
		case fj != nil && tj == nil:
			get(to, from).dec = f
		}
	})
	var out []formPair
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fp := by[k]
		if fp.enc == nil || fp.dec == nil {
			f := fp.enc
			if f == nil {
				f = fp.dec
			}
			c.Report("pair", k, f, "there is no inverse for this conversion")
			continue
		}
		out = append(out, *fp)
	}
	return out
}

// pairs: each part of a body comes back in its own place.
func (p *packCheck) pairs() {
	c := p.c
	for _, fp := range p.formPairs() {
		c.Count("pairs of forms", 1)
		name := fp.val.Obj().Name()
		// from part of the value to places of the form
		enc, dec := map[string]map[string]bool{}, map[string]map[string]bool{}
		put := func(m map[string]map[string]bool, k, v string) {
			if m[k] == nil {
				m[k] = map[string]bool{}
			}
			m[k][v] = true
		}
		encoded := p.placements(fp.enc)
		for _, pl := range encoded {
			put(enc, pl.src, pl.dst)
		}
		for _, pl := range p.placements(fp.dec) {
			put(dec, pl.dst, pl.src)
		}
		for _, k := range unionKeys(enc, dec) {
			c.Count("places compared", 1)
			c.Obligation("%s%s: encoded at %s, decoded from %s", name, k, keysText(enc[k]), keysText(dec[k]))
			if keysText(enc[k]) != keysText(dec[k]) {
				at := fp.dec
				c.Report("place", name+k, at, fmt.Sprintf("%s%s is encoded at %s, but decoded from %s", name, k, listText(enc[k]), listText(dec[k])))
			}
		}
		// nothing is left out
		for _, pl := range append(p.placements(fp.dec), encoded...) {
			if why := p.leftOut(pl); why != "" {
				c.Report("condition", name+" "+pl.dst, pl.at, why)
			}
		}
		// nothing is written twice
		seen := map[string]string{}
		for _, pl := range encoded {
			if o, ok := seen[pl.dst]; ok && o != pl.src {
				c.Report("place", name+" "+pl.dst, pl.at, fmt.Sprintf("%s is encoded in the same place as %s", pl.src, o))
			}
			seen[pl.dst] = pl.src
		}
		// every field is kept
		covered := map[string]bool{}
		for k := range enc {
			covered[k] = true
		}
		for k := range p.table(fp.enc) {
			covered[k] = true
		}
		var fields func(t types.Type, at string)
		fields = func(t types.Type, at string) {
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				path := at + "." + f.Name()
				found := covered[path] || covered[path+"[i]"]
				if !found {
					if inner, ok := f.Type().Underlying().(*types.Struct); ok && relPkg(f.Pkg()) == packPkg && namedIn(f.Type()) != nil && relPkg(namedIn(f.Type()).Obj().Pkg()) == packPkg && inner.NumFields() > 0 {
						fields(f.Type(), path)
						continue
					}
					c.Report("field", name+path, fp.enc, fmt.Sprintf("%s%s is not part of the JSON form", name, path))
				}
			}
		}
		fields(fp.val, "")
		// tags
		st := fp.json.Underlying().(*types.Struct)
		tags := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if tag == "" {
				tag = st.Field(i).Name()
			}
			if tag == "-" || tags[strings.ToLower(tag)] || !st.Field(i).Exported() {
				c.Report("tag", fp.json.Obj().Name()+"."+st.Field(i).Name(), st.Field(i), "the field is left out of the JSON form or shares its name with another")
			}
			tags[strings.ToLower(tag)] = true
		}
	}
	// the outermost form
	p.funcs(func(f *ssa.Function) {
		if f.Signature.Recv() == nil || f.Name() != "MarshalJSON" && f.Name() != "UnmarshalJSON" {
			return
		}
		c.Count("JSON methods", 1)
	})
	c.Floor("JSON methods", 2)
}

// leftOut: the placement depends on more than there being something to place.
func (p *packCheck) leftOut(pl placement) string {
	b := pl.at.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		side := -1
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				side = i
			}
		}
		if side < 0 {
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				continue
			}
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return "this part is converted only under some condition"
		}
		op := cmp.Op
		x, y := cmp.X, cmp.Y
		if side == 1 {
			op = negated(op)
		}
		if _, ok := constInt(x); ok {
			x, y, op = y, x, swapped(op)
		}
		if seq, _ := lenOf(y); seq != nil && op == token.LSS {
			continue // a loop
		}
		if seq, _ := lenOf(x); seq != nil {
			k, ok := constInt(y)
			if op == token.GEQ {
				k, op = k-1, token.GTR
			}
			if op == token.NEQ && k == 0 {
				op = token.GTR
			}
			if ok && op == token.GTR && (k == 0 || strings.Contains(pl.src, fmt.Sprintf("[%d:]", k)) || strings.Contains(pl.src, fmt.Sprintf("[%d]", k))) {
				continue
			}
			return "this part is not converted for all lengths of what it is part of"
		}
		return "this part is converted only under some condition"
	}
	return ""
}

func unionKeys(a, b map[string]map[string]bool) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func listText(m map[string]bool) string {
	if len(m) == 0 {
		return "nowhere"
	}
	return keysText(m)
}

// table: for a field stored as a constant chosen by comparing a part of the
// argument with constants, the constants by constant; keyed by the part.
func (p *packCheck) table(f *ssa.Function) map[string]map[string]string {
	out := map[string]map[string]string{}
	e := newPathEnv(p.c, f)
	live := liveBlocks(f)
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !live[b] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		k, ok := cmp.Y.(*ssa.Const)
		o := cmp.X
		if !ok {
			if k, ok = cmp.X.(*ssa.Const); !ok {
				continue
			}
			o = cmp.Y
		}
		src := e.one(o)
		if !strings.HasPrefix(src, "p0.") || k.Value == nil {
			continue
		}
		src = strings.TrimPrefix(src, "p0")
		t := b.Succs[0]
		if cmp.Op == token.NEQ {
			t = b.Succs[1]
		}
		for _, in := range t.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			v, ok := st.Val.(*ssa.Const)
			if !ok || v.Value == nil {
				continue
			}
			d, ok := p.place(e, st.Addr)
			if !ok {
				continue
			}
			if out[src] == nil {
				out[src] = map[string]string{}
			}
			out[src][k.Value.ExactString()] = d + "=" + v.Value.ExactString()
		}
		// the constant is chosen where the branches meet
		for _, s := range t.Succs {
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range s.Preds {
					v, ok := phi.Edges[i].(*ssa.Const)
					if pr != t || !ok || v.Value == nil || phi.Referrers() == nil {
						continue
					}
					for _, r := range *phi.Referrers() {
						if st, ok := r.(*ssa.Store); ok {
							if d, ok := p.place(e, st.Addr); ok {
								if out[src] == nil {
									out[src] = map[string]string{}
								}
								out[src][k.Value.ExactString()] = d + "=" + v.Value.ExactString()
							}
						}
					}
				}
			}
		}
	}
	return out
}

// tables: constants are translated to and fro alike, and all of them are.
func (p *packCheck) tables() {
	c := p.c
	for _, fp := range p.formPairs() {
		enc, dec := p.table(fp.enc), p.table(fp.dec)
		for field, m := range enc {
			var t types.Type
			for k, v := range m {
				c.Count("constants translated", 1)
				i := strings.LastIndex(v, "=")
				back := dec[v[:i]][v[i+1:]]
				if back != field+"="+k {
					c.Report("table", fp.val.Obj().Name()+field+" "+k, fp.dec, fmt.Sprintf("%s is encoded as %s, but that is decoded as %s", k, v[i+1:], back))
				}
				_ = t
			}
			// all constants of the type
			ty := fieldType(fp.val, field)
			n, ok := ty.(*types.Named)
			if !ok {
				continue
			}
			sc := n.Obj().Pkg().Scope()
			for _, name := range sc.Names() {
				k, ok := sc.Lookup(name).(*types.Const)
				if ok && types.Identical(k.Type(), n) && m[exact(k.Val())] == "" {
					c.Report("table", fp.val.Obj().Name()+field+" "+name, fp.enc, fmt.Sprintf("%s has no encoding", name))
				}
			}
		}
	}
	c.Floor("constants translated", 2)
}

func exact(v constant.Value) string { return v.ExactString() }

func fieldType(t types.Type, path string) types.Type {
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = nil
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				t = st.Field(i).Type()
			}
		}
		if t == nil {
			return nil
		}
	}
	return t
}

func isHCLRange(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Range" && relPkg(n.Obj().Pkg()) == "hcl"
}

// ranges: every range that is encoded was collected before.
func (p *packCheck) ranges() {
	c := p.c
	collected := map[*types.Named]map[string]bool{}
	p.funcs(func(f *ssa.Function) {
		if f.Signature.Recv() == nil || f.Signature.Results().Len() != 0 || len(f.Params) != 2 {
			return
		}
		m, ok := f.Params[1].Type().Underlying().(*types.Map)
		if !ok || !isHCLRange(m.Key()) {
			return
		}
		n := namedIn(f.Params[0].Type())
		got := map[string]bool{}
		newPathEnv(c, f).each(func(e *pathEnv, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok && e.one(mu.Map) == "p1" {
				for _, k := range e.of(mu.Key) {
					got[strings.TrimPrefix(k, "p0")] = true
				}
			}
		})
		// children of the same kind
		for _, b := range f.Blocks {
			e := newPathEnv(c, f)
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if g := call.Call.StaticCallee(); g != nil && g.Name() == f.Name() && len(call.Call.Args) == 2 {
					s, ok := p.source(e, call.Call.Args[0])
					if ok {
						got["children "+strings.Replace(s, "[i]", "[]", -1)] = true
					}
				}
			}
		}
		collected[n] = got
	})
	if len(collected) == 0 {
		c.Report("ranges", "collect", nil, "the ranges to be encoded are not collected")
		return
	}
	for _, fp := range p.formPairs() {
		e := newPathEnv(c, fp.enc)
		got := collected[fp.val]
		for _, b := range fp.enc.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) == 0 {
					continue
				}
				if isHCLRange(call.Call.Args[0].Type()) {
					s := strings.TrimPrefix(e.one(call.Call.Args[0]), "p0")
					c.Count("ranges encoded", 1)
					c.Obligation("%s%s is collected before it is encoded", fp.val.Obj().Name(), s)
					if !got[s] {
						c.Report("ranges", fp.val.Obj().Name()+s, call, fmt.Sprintf("%s%s is encoded, but its positions are not collected first, so it is lost", fp.val.Obj().Name(), s))
					}
				}
				if n := namedIn(call.Call.StaticCallee().Signature.Results().At(0).Type()); n != nil && jsonStruct(n) != nil {
					s, ok := p.source(e, call.Call.Args[0])
					s = strings.Replace(s, "[i]", "[]", -1)
					if ok && !got["children "+s] {
						c.Report("ranges", fp.val.Obj().Name()+s, call, "the ranges of nested parts are not collected, so they are lost")
					}
				}
			}
		}
	}
}

// written: what is handed to the functions that append numbers, in order.
func (p *packCheck) written(f *ssa.Function) (nums []string, marks []string) {
	e := newPathEnv(p.c, f)
	for _, b := range topo(f) {
		if !liveBlocks(f)[b] {
			continue
		}
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || p.c.PkgOf(g) != packPkg || len(call.Call.Args) != 2 || g.Signature.Recv() == nil {
				continue
			}
			v := call.Call.Args[1]
			if k, ok := constInt(v); ok {
				marks = append(marks, fmt.Sprint(k))
				continue
			}
			if isInt(v.Type()) {
				for {
					cv, ok := v.(*ssa.Convert)
					if !ok {
						break
					}
					v = cv.X
				}
				nums = append(nums, lastField(e.one(v)))
			}
		}
	}
	return
}

// read: which fields the numbers read go to, in order.
func (p *packCheck) read(f *ssa.Function) (nums []string, marks []string) {
	for _, b := range topo(f) {
		if !liveBlocks(f)[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || p.c.PkgOf(g) != packPkg || g.Signature.Results().Len() != 3 || !isInt(g.Signature.Results().At(0).Type()) {
					continue
				}
				p.c.Count("numbers read", 1)
				nums = append(nums, strings.Join(storedFields(extractOf(x, 0), 0), "|"))
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
					if k, ok := constInt(x.Y); ok {
						marks = append(marks, fmt.Sprint(k))
					}
				}
			}
		}
	}
	return
}

// storedFields: the fields a value is put in.
func storedFields(v ssa.Value, depth int) []string {
	if v == nil || v.Referrers() == nil || depth > 6 {
		return nil
	}
	var out []string
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				out = append(out, fieldOf(fa.X.Type(), fa.Field))
			} else if al, ok := x.Addr.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, rr := range *al.Referrers() {
					if l, ok := rr.(*ssa.UnOp); ok {
						out = append(out, storedFields(l, depth+1)...)
					}
				}
			}
		case *ssa.Convert:
			out = append(out, storedFields(x, depth+1)...)
		case *ssa.ChangeType:
			out = append(out, storedFields(x, depth+1)...)
		case *ssa.Phi:
			out = append(out, storedFields(x, depth+1)...)
		}
	}
	return uniq(out)
}

// numbers: numbers are read in the order in which they are written.
func (p *packCheck) numbers() {
	c := p.c
	w, r := map[string]*ssa.Function{}, map[string]*ssa.Function{}
	p.funcs(func(f *ssa.Function) {
		if f.Signature.Recv() == nil {
			return
		}
		n := namedIn(f.Params[0].Type())
		switch f.Name() {
		case "MarshalBinary":
			w[n.Obj().Name()] = f
		case "UnmarshalBinary":
			r[n.Obj().Name()] = f
		}
	})
	for name, f := range w {
		g := r[name]
		if g == nil {
			c.Report("numbers", name, f, "what is written cannot be read")
			continue
		}
		c.Count("binary forms", 1)
		wn, wm := p.written(f)
		rn, rm := p.read(g)
		c.Obligation("%s: writes %v, reads %v", name, wn, rn)
		if strings.Join(wn, " ") != strings.Join(rn, " ") {
			c.Report("numbers", name, g, fmt.Sprintf("numbers are written in the order %v, but read in the order %v", wn, rn))
		}
		if strings.Join(uniq(wm), " ") != strings.Join(uniq(rm), " ") {
			c.Report("numbers", name+" marker", g, "the marker written is not the marker looked for")
		}
		if len(wm) > 0 {
			p.marker(name, f, g)
		}
	}
	c.Floor("binary forms", 2)
}

// marker: a marker is written for every step of a number that only grows, and
// each one read is a step.
func (p *packCheck) marker(name string, f, g *ssa.Function) {
	c := p.c
	e := newPathEnv(c, f)
	okW := false
	field := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			sub, ok := in.(*ssa.BinOp)
			if !ok || sub.Op != token.SUB {
				continue
			}
			x := e.one(sub.X)
			phi, ok := sub.Y.(*ssa.Phi)
			if !ok || x == "" {
				continue
			}
			for i, ed := range phi.Edges {
				if b.Dominates(phi.Block().Preds[i]) && e.one(ed) == x {
					okW = true
					field = lastField(x)
				}
			}
		}
	}
	if !okW {
		c.Report("numbers", name+" step", f, "the number of markers is not the difference to the previous entry")
		return
	}
	okR := false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			inc, ok := in.(*ssa.BinOp)
			if !ok || inc.Op != token.ADD {
				continue
			}
			if k, ok := constInt(inc.Y); !ok || k != 1 {
				continue
			}
			phi, ok := inc.X.(*ssa.Phi)
			if !ok || !isRangeIndex(phi, inc) {
				continue
			}
			for _, s := range storedFields(phi, 0) {
				okR = okR || s == field
			}
		}
	}
	if !okR {
		c.Report("numbers", name+" step", g, "markers read do not count up what they stand for")
	}
}

// deltas: what is encoded as a difference is decoded as a sum.
func (p *packCheck) deltas() {
	c := p.c
	type dsum struct {
		pairs, resets map[string]bool
		f             *ssa.Function
		whole         bool
	}
	var packed, unpacked []dsum
	p.funcs(func(f *ssa.Function) {
		pk := dsum{map[string]bool{}, map[string]bool{}, f, false}
		un := dsum{map[string]bool{}, map[string]bool{}, f, false}
		var acc ssa.Value
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				to := fieldOf(fa.X.Type(), fa.Field)
				if bo, ok := st.Val.(*ssa.BinOp); ok {
					x, xb := fieldRead(bo.X)
					y, yb := fieldRead(bo.Y)
					switch {
					case bo.Op == token.SUB && x != "" && y != "" && xb != yb:
						pk.pairs[to+":"+x+"-"+y] = true
						acc = yb
					case bo.Op == token.ADD && x == to && xb == fa.X && y != "":
						un.pairs[y+":"+x+"+"] = true
						acc = fa.X
					case bo.Op == token.ADD && y == to && yb == fa.X && x != "":
						un.pairs[x+":"+y+"+"] = true
						acc = fa.X
					}
				}
			}
		}
		if len(pk.pairs) == 0 && len(un.pairs) == 0 {
			return
		}
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == acc {
					if k, ok := constInt(st.Val); ok && k == 0 {
						by := guardField(b)
						pk.resets[fieldOf(fa.X.Type(), fa.Field)+" by "+by] = true
						un.resets[fieldOf(fa.X.Type(), fa.Field)+" by "+by] = true
					}
				}
				if st.Addr == acc {
					if isZero(st.Val) {
						un.whole = guardField(b) != "" && movesOn(b) || un.whole
						pk.whole = true
					} else {
						// moved on
						un.pairs["moved"] = true
						pk.pairs["moved"] = true
					}
				}
			}
		}
		if al, ok := acc.(*ssa.Alloc); ok {
			for _, l := range loopsOf(f) {
				if l.blocks[al.Block()] {
					pk.whole = true
				}
			}
		}
		if len(pk.pairs) > 1 {
			packed = append(packed, pk)
		}
		if len(un.pairs) > 1 && len(pk.pairs) <= 1 {
			unpacked = append(unpacked, un)
		}
	})
	if len(packed) == 0 || len(unpacked) == 0 {
		c.Report("delta", "positions", nil, "the differences between positions are not found")
		return
	}
	for _, pk := range packed {
		for _, un := range unpacked {
			c.Count("differences compared", len(pk.pairs))
			fields := map[string]string{}
			for k := range pk.pairs {
				if k == "moved" {
					continue
				}
				i := strings.Index(k, ":")
				xy := strings.Split(k[i+1:], "-")
				if xy[0] != xy[1] {
					c.Report("delta", k[:i], pk.f, fmt.Sprintf("the difference is between %s and %s", xy[0], xy[1]))
				}
				fields[k[:i]] = xy[0]
				if !un.pairs[k[:i]+":"+xy[0]+"+"] {
					c.Report("delta", k[:i], un.f, fmt.Sprintf("%s is the difference of %s, but is not added to it again", k[:i], xy[0]))
				}
			}
			if !pk.pairs["moved"] {
				c.Report("delta", "base", pk.f, "differences are not taken to the previous position")
			}
			if !pk.whole || !un.whole {
				f := pk.f
				if pk.whole {
					f = un.f
				}
				c.Report("delta", "file", f, "the position does not start over for another file")
			}
			// what is reset when another component changes
			want := map[string]bool{}
			for r := range pk.resets {
				want[r] = true
			}
			got := map[string]bool{}
			for r := range un.resets {
				i := strings.Index(r, " by ")
				by := r[i+4:]
				if f, ok := fields[by]; ok {
					by = f
				}
				got[r[:i]+" by "+by] = true
			}
			c.Obligation("resets: %s and %s", keysText(want), keysText(got))
			if keysText(want) != keysText(got) {
				c.Report("delta", "reset", un.f, fmt.Sprintf("packing starts over %s, but unpacking %s", listText(want), listText(got)))
			}
		}
	}
	c.Floor("differences compared", 3)
}

// movesOn: what the field is compared with becomes the value of the field.
func movesOn(b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		f, _ := fieldRead(cmp.X)
		o := cmp.Y
		if f == "" {
			f, _ = fieldRead(cmp.Y)
			o = cmp.X
		}
		if g, _ := fieldRead(o); g == f {
			return true
		}
		seen := map[ssa.Value]bool{}
		var found func(v ssa.Value) bool
		found = func(v ssa.Value) bool {
			if seen[v] {
				return false
			}
			seen[v] = true
			if phi, ok := v.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					if found(e) {
						return true
					}
				}
			}
			g, _ := fieldRead(v)
			return g == f && f != ""
		}
		return found(o)
	}
	return false
}

// ends: the two ends of ranges are not mixed up, and both are kept.
func (p *packCheck) ends() {
	c := p.c
	p.funcs(func(f *ssa.Function) {
		read := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					read[fieldOf(x.X.Type(), x.Field)] = true
				case *ssa.Field:
					read[fieldOf(x.X.Type(), x.Field)] = true
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := fieldOf(fa.X.Type(), fa.Field)
				if n != "Start" && n != "End" {
					continue
				}
				from := map[string]bool{}
				endsIn(st.Val, from, map[ssa.Value]bool{})
				c.Count("ends of ranges", 1)
				if len(from) > 0 && keysText(from) != n {
					c.Report("ends", c.FuncName(f)+" "+n, in, fmt.Sprintf("the %s of a range is made from %s of another", strings.ToLower(n), strings.ToLower(keysText(from))))
				}
			}
		}
		for _, prm := range f.Params {
			if m, ok := prm.Type().Underlying().(*types.Map); ok && isHCLRange(m.Key()) && (read["Start"] || read["End"]) {
				c.Count("collections of positions", 1)
				if !read["Start"] || !read["End"] {
					c.Report("ends", c.FuncName(f), f, "only one end of each range is kept")
				}
			}
		}
	})
	c.Floor("ends of ranges", 4)
	c.Floor("collections of positions", 1)
}

// endsIn: the fields Start and End that a value was made from.
func endsIn(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if f, base := fieldRead(v); f == "Start" || f == "End" {
		out[f] = true
		return
	} else if base != nil {
		endsIn(base, out, seen)
		return
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == v {
				endsIn(st.Val, out, seen)
			}
		}
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			endsIn(e, out, seen)
		}
		return
	case ssa.Instruction:
		for _, o := range x.Operands(nil) {
			if *o != nil {
				endsIn(*o, out, seen)
			}
		}
	}
}

func isZero(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if vals, ok := storedIn(al); ok && len(vals) == 0 && !hasFieldStores(al) {
				return true
			}
		}
	}
	return false
}

func hasFieldStores(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if _, ok := r.(*ssa.FieldAddr); ok {
			return true
		}
	}
	return false
}

// fieldRead: the field read and what it belongs to.
func fieldRead(v ssa.Value) (string, ssa.Value) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa.X.Type(), fa.Field), fa.X
		}
	case *ssa.Field:
		return fieldOf(x.X.Type(), x.Field), x.X
	}
	return "", nil
}

// guardField: the field whose change leads to the block.
func guardField(b *ssa.BasicBlock) string {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return ""
		}
		side := -1
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				side = i
			}
		}
		if side < 0 {
			return ""
		}
		op := cmp.Op
		if side == 1 {
			op = negated(op)
		}
		x, _ := fieldRead(cmp.X)
		y, _ := fieldRead(cmp.Y)
		zero := false
		if k, ok := constInt(cmp.Y); ok && k == 0 {
			zero = true
		}
		if op == token.NEQ && x != "" && (y == x || zero || y == "") {
			return x
		}
		if op == token.GTR && x != "" && zero {
			return x
		}
		return ""
	}
	return ""
}

// offsets: offsets are made from positions and taken back alike, and are
// those of the entries they were made for.
func (p *packCheck) offsets() {
	c := p.c
	add, sub := map[string]int{}, map[string]int{}
	var mk *ssa.Function
	var back *ssa.Function
	p.funcs(func(f *ssa.Function) {
		if len(f.Params) != 1 || f.Signature.Results().Len() != 1 || len(f.Blocks) != 1 {
			return
		}
		from, to := f.Params[0].Type(), f.Signature.Results().At(0).Type()
		if !isInt(from) || !isInt(to) || types.Identical(from, to) {
			return
		}
		for _, in := range f.Blocks[0].Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			k, ok := constInt(bo.Y)
			if !ok {
				continue
			}
			if bo.Op == token.SUB {
				k = -k
			}
			if namedIn(to) != nil {
				add[namedIn(to).Obj().Name()] += k
				mk = f
			} else if namedIn(from) != nil {
				sub[namedIn(from).Obj().Name()] += k
				back = f
			}
		}
	})
	for n, k := range add {
		c.Count("offset types", 1)
		if sub[n] != -k || k <= 0 {
			c.Report("offset", n, back, "an offset does not give back the position it was made from")
		}
	}
	c.Floor("offset types", 1)
	if mk == nil {
		return
	}
	p.funcs(func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != mk {
					continue
				}
				c.Count("offsets made", 1)
				ln, ok := call.Call.Args[0].(*ssa.Call)
				okLen := false
				if ok {
					if bi, isB := ln.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
						seq := ln.Call.Args[0]
						// the entry appended next
						for _, r := range *seq.Referrers() {
							ap, ok := r.(*ssa.Call)
							if !ok {
								continue
							}
							if bi, ok := ap.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && ap.Call.Args[0] == seq && after(call, ap) {
								okLen = true
							}
						}
					}
				}
				if !okLen {
					c.Report("offset", c.FuncName(f), in, "the offset is not that of the entry added next")
				}
			}
		}
	})
}

// order: positions are sorted so that differences of lines are not negative.
func (p *packCheck) order() {
	c := p.c
	p.funcs(func(f *ssa.Function) {
		if f.Name() != "Less" || len(f.Params) != 3 {
			return
		}
		sl, ok := f.Params[0].Type().Underlying().(*types.Slice)
		if !ok || namedIn(sl.Elem()) == nil || namedIn(sl.Elem()).Obj().Name() != "Pos" {
			return
		}
		c.Count("orders of positions", 1)
		var fields []string
		for _, b := range topo(f) {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					fields = append(fields, fieldOf(fa.X.Type(), fa.Field))
				}
			}
		}
		if len(fields) == 0 || fields[0] != "Line" {
			c.Report("order", "positions", f, "positions are not sorted by line first, so that columns are not restored when byte offsets and lines disagree")
		}
		if len(uniq(fields)) < 3 {
			c.Report("order", "positions total", f, "positions that differ may count as equal in the order")
		}
	})
	c.Floor("orders of positions", 1)
}

// guards: positions taken from decoded data are checked before use.
func (p *packCheck) guards() {
	c := p.c
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] || c.PkgOf(f) != packPkg {
			return
		}
		reach[f] = true
		for _, g := range staticCallees(f) {
			visit(g)
		}
	}
	p.funcs(func(f *ssa.Function) {
		if strings.HasPrefix(f.Name(), "Unmarshal") && f.Signature.Recv() != nil {
			visit(f)
		}
	})
	for f := range reach {
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				var seq, idx ssa.Value
				switch x := in.(type) {
				case *ssa.IndexAddr:
					seq, idx = x.X, x.Index
				case *ssa.Index:
					seq, idx = x.X, x.Index
				case *ssa.Slice:
					if x.Low != nil {
						seq, idx = x.X, x.Low
					} else {
						seq, idx = x.X, x.High
					}
				case *ssa.MakeSlice:
					if k, ok := x.Len.(*ssa.Call); ok {
						if bi, ok := k.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							continue
						}
					}
				}
				if idx == nil {
					continue
				}
				if k, ok := constInt(idx); ok && k >= 0 {
					continue // constant positions: C24
				}
				c.Count("positions guarded", 1)
				c.Obligation("%s: position in %s is checked", c.FuncName(f), seq.Name())
				if ok := p.inBounds(f, seq, idx, in); !ok {
					c.Report("bounds", c.FuncName(f)+" "+describe(idx), in, "a position that may come from damaged data is used without a check against both ends")
				}
			}
		}
	}
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		return callee(&x.Call)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return callee(&call.Call)
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		if f, _ := fieldRead(v); f != "" {
			return f
		}
	}
	return v.Type().String()
}

// inBounds: the position is known to be within the sequence.
func (p *packCheck) inBounds(f *ssa.Function, seq, idx ssa.Value, in ssa.Instruction) bool {
	// the counter of a loop over the sequence, or over one of the same length
	for _, l := range loopsOf(f) {
		if !l.has(in) {
			continue
		}
		if inc, ok := idx.(*ssa.BinOp); ok && inc.Op == token.ADD {
			if phi, ok := inc.X.(*ssa.Phi); ok && isRangeIndex(phi, inc) {
				over := rangedOver(l)
				if over != nil && (sameSeq(over, seq) || madeFor(seq, over)) {
					return true
				}
			}
		}
	}
	// a count given by what filled the sequence
	if ex, ok := idx.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				if sameSeq(a, seq) {
					g := call.Call.StaticCallee()
					if g == nil || !p.c.InRepo(g) {
						if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/base64" {
							return true
						}
						// the number of bytes used, if there were any
						return p.lower(idx, in, 1) || p.lower(idx, in, 0)
					}
				}
			}
		}
	}
	return p.lower(idx, in, 0) && p.upper(seq, idx, in)
}

func sameSeq(a, b ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			}
			return v
		}
	}
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	x, ok1 := isLoad(a)
	y, ok2 := isLoad(b)
	if ok1 && ok2 {
		fx, ok1 := x.X.(*ssa.FieldAddr)
		fy, ok2 := y.X.(*ssa.FieldAddr)
		if ok1 && ok2 {
			return fx.Field == fy.Field && sameSeq(fx.X, fy.X)
		}
		return x.X == y.X
	}
	return false
}

// madeFor: the sequence was made with the length of the other.
func madeFor(seq, over ssa.Value) bool {
	if l, ok := isLoad(seq); ok {
		if vals, ok := storedAt(l.X); ok {
			for _, v := range vals {
				if !madeFor(v, over) {
					return false
				}
			}
			return len(vals) > 0
		}
		return false
	}
	ms, ok := seq.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	call, ok := ms.Len.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && sameSeq(call.Call.Args[0], over)
}

// storedAt: what is stored at a field of a local structure.
func storedAt(addr ssa.Value) ([]ssa.Value, bool) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		f2, ok := r.(*ssa.FieldAddr)
		if !ok || f2.Field != fa.Field {
			continue
		}
		for _, rr := range *f2.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(f2) {
				out = append(out, st.Val)
			}
		}
	}
	return out, true
}

// conditions holding at an instruction.
func holding(in ssa.Instruction) []condition {
	var out []condition
	b := in.Block()
	for d := b; d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				op := cmp.Op
				if i == 1 {
					op = negated(op)
				}
				out = append(out, condition{cmp.X, cmp.Y, op}, condition{cmp.Y, cmp.X, swapped(op)})
			}
		}
	}
	return out
}

type condition struct {
	x, y ssa.Value
	op   token.Token
}

func (p *packCheck) lower(idx ssa.Value, in ssa.Instruction, min int) bool {
	for _, h := range holding(in) {
		if h.x != idx && !sameSeq(h.x, idx) {
			continue
		}
		k, ok := constInt(h.y)
		if ok && (h.op == token.GEQ && k >= min || h.op == token.GTR && k >= min-1) {
			return true
		}
	}
	return false
}

func (p *packCheck) upper(seq, idx ssa.Value, in ssa.Instruction) bool {
	for _, h := range holding(in) {
		if h.x != idx && !sameSeq(h.x, idx) || h.op != token.LSS {
			continue
		}
		call, ok := h.y.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && sameSeq(call.Call.Args[0], seq) {
			return true
		}
	}
	return false
}

// text: the text form is decoded with the alphabet it is encoded with.
func (p *packCheck) text() {
	c := p.c
	used := map[string]map[string]bool{}
	at := map[string]*ssa.Function{}
	p.funcs(func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) == 0 || f.Signature.Recv() == nil {
					continue
				}
				g := call.Call.StaticCallee()
				if g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/base64" || g.Signature.Recv() == nil {
					continue
				}
				l, ok := isLoad(call.Call.Args[0])
				if !ok {
					continue
				}
				gl, ok := l.X.(*ssa.Global)
				if !ok {
					continue
				}
				k := namedIn(f.Params[0].Type()).Obj().Name()
				if used[k] == nil {
					used[k] = map[string]bool{}
				}
				used[k][gl.Name()] = true
				at[k] = f
			}
		}
	})
	for k, m := range used {
		c.Count("text forms", 1)
		if len(m) != 1 {
			c.Report("text", k, at[k], fmt.Sprintf("the text form is written and read with different alphabets: %s", keysText(m)))
		}
	}
	c.Floor("text forms", 2)
}

// space: there is room for the largest number where one is written.
func (p *packCheck) space() {
	c := p.c
	p.funcs(func(f *ssa.Function) {
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !live[b] {
					continue
				}
				g := call.Call.StaticCallee()
				if g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "go-vlq") || !strings.HasPrefix(g.Name(), "Put") {
					continue
				}
				c.Count("numbers put", 1)
				ok = false
				for _, d := range f.Blocks {
					if !live[d] || !d.Dominates(b) {
						continue
					}
					iff, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If)
					if !isIf {
						continue
					}
					if cmp, isCmp := iff.Cond.(*ssa.BinOp); isCmp {
						if k, isK := constInt(cmp.Y); isK && cmp.Op == token.LSS && k >= 10 {
							ok = true
						}
						if k, isK := constInt(cmp.X); isK && cmp.Op == token.GTR && k >= 10 {
							ok = true
						}
					}
				}
				if ms, isMake := call.Call.Args[0].(*ssa.MakeSlice); isMake {
					if k, isK := constInt(ms.Len); isK && k >= 10 {
						ok = true
					}
				}
				if sl, isSlice := call.Call.Args[0].(*ssa.Slice); isSlice && !ok {
					if at, isArr := derefType(sl.X.Type()).Underlying().(*types.Array); isArr && at.Len() >= 10 {
						ok = true
					}
				}
				if !ok {
					c.Report("space", c.FuncName(f), in, "a number is written without room for the largest one")
				}
			}
		}
	})
	c.Floor("numbers put", 1)
}
