package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: struct tags.
//
// One function reads the tags into a table of roles; what it enters under each
// kind is found by assuming the kind. What schema, decoding and encoding do
// with a field is then found by assuming its role and its type: operations on
// reflected types are followed on types of the type checker, so that branches
// on them are decided.

func init() {
	register("C18", "struct tags mean the same in schema, decoding and encoding", runC18)
}

const goPkg = "gohcl"

type tagCheck struct {
	c     *Ctx
	read  *ssa.Function // reads the tags
	roles map[string]string
	table *types.Named
	loops int
}

func runC18(c *Ctx) {
	t := &tagCheck{c: c, roles: map[string]string{}}
	for _, f := range c.Funcs {
		if c.PkgOf(f) == goPkg && t.readsTags(f) {
			t.read = f
		}
	}
	if t.read == nil {
		c.Report("anchor", "tags", nil, "no function reading the hcl field tags is found")
		return
	}
	t.reader()
	if c.failed("anchor") {
		return
	}
	t.users()
	t.fills()
	t.counted()
	t.written()
	t.labels()
	t.remainder()
	c.Floor("tag kinds", 5)
	c.Floor("attribute rounds", 3)
	c.Floor("block rounds", 3)
	c.Floor("field types", 30)
}

func (c *Ctx) failed(rule string) bool {
	for _, v := range c.findings {
		if v.Rule == rule {
			return true
		}
	}
	return false
}

// readsTags: a function that asks a field for its hcl tag.
func (t *tagCheck) readsTags(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if ok && asksForTag(call) {
				return true
			}
		}
	}
	return false
}

func asksForTag(call *ssa.Call) bool {
	h := call.Call.StaticCallee()
	if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "reflect" || h.Name() != "Get" && h.Name() != "Lookup" || len(call.Call.Args) != 2 {
		return false
	}
	k, ok := call.Call.Args[1].(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "hcl"
}

// isTag: the text of the tag.
func isTag(v ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	call, ok := v.(*ssa.Call)
	return ok && asksForTag(call)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// reader: what each kind of tag enters in the table.
func (t *tagCheck) reader() {
	f := t.read
	c := t.c
	res := f.Signature.Results()
	if res.Len() != 1 {
		c.Report("anchor", "table", f, "the tag reader does not return one table")
		return
	}
	t.table = namedOf(derefType(res.At(0).Type()))
	// the kind is what is compared with the names of the kinds
	subjects := map[string]int{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.EQL {
				if k, of, ok := stringTest(bo); ok && (k == "attr" || k == "block" || k == "label" || k == "optional" || k == "remain") {
					subjects[of]++
				}
			}
		}
	}
	kind := ""
	for s, n := range subjects {
		if n > subjects[kind] {
			kind = s
		}
	}
	if kind == "" || t.table == nil {
		c.Report("anchor", "kinds", f, "the tag reader does not compare the kind of tag with the names of the kinds")
		return
	}
	env := newPathEnv(c, f)
	entered := func(k string, taken bool) (map[string]string, *assumed) {
		a := assume(f, func(v ssa.Value) constant.Value {
			if isStringType(v.Type()) && k != "" {
				if _, isConst := v.(*ssa.Const); !isConst && subjectOf(v) == kind {
					return constant.MakeString(k)
				}
			}
			if call, ok := v.(*ssa.Call); ok && k == "" {
				// no comma
				if h := call.Call.StaticCallee(); h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "strings" {
					switch {
					case strings.HasPrefix(h.Name(), "Index"):
						return constant.MakeInt64(-1)
					case strings.HasPrefix(h.Name(), "Contains"):
						return constant.MakeBool(false)
					}
				}
			}
			if call, ok := v.(*ssa.Call); ok {
				if l := lenName(call); l != nil {
					if isTag(l) {
						return constant.MakeInt64(5)
					}
				}
			}
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 {
				if call, ok := ex.Tuple.(*ssa.Call); ok && asksForTag(call) {
					return constant.MakeBool(true)
				}
			}
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				for _, side := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if isTag(side[0]) {
						if e, ok := side[1].(*ssa.Const); ok && e.Value != nil && constant.StringVal(e.Value) == "" {
							return constant.MakeBool(bo.Op == token.NEQ)
						}
					}
					if _, isMap := side[0].Type().Underlying().(*types.Map); !isMap && isNilConst(side[1]) && t.fieldName(side[0]) != "" {
						return constant.MakeBool(taken == (bo.Op == token.NEQ))
					}
				}
			}
			return nil
		})
		out := map[string]string{}
		enters := map[*ssa.BasicBlock]map[string]bool{}
		for _, b := range f.Blocks {
			if !a.reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if n := t.fieldName(x.Map); n != "" {
						out[n] = "map"
						enters[b] = map[string]bool{"entry": true}
						t.entry(f, env, k, n, x.Key, x.Value, x)
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || namedOf(derefType(fa.X.Type())) != t.table {
						continue
					}
					if innermost(f, b) == nil {
						continue // made before
					}
					n := fieldOf(fa.X.Type(), fa.Field)
					out[n] = "set"
					enters[b] = map[string]bool{"entry": true}
					t.stored(f, k, n, x)
				}
			}
		}
		if !taken && k != "" && k != "?" && len(out) > 0 {
			for _, l := range loopsOf(f) {
				r := &round{f: f, l: l}
				holds := false
				for b := range l.blocks {
					holds = holds || enters[b] != nil
				}
				if holds && !r.every(a, enters, "entry") {
					c.Report("fields", "passed over "+k, At(loopPos(l)), fmt.Sprintf("%s passes over some fields with a tag of the kind %s", c.FuncName(f), k))
				}
			}
		}
		return out, a
	}
	want := map[string][]string{"attr": {"attributes"}, "block": {"blocks"}, "label": {"labels"}, "remain": {"rest"}, "optional": {"attributes", "optional"}}
	for _, k := range []string{"attr", "block", "label", "remain", "optional"} {
		got, _ := entered(k, false)
		c.Count("tag kinds", 1)
		var names []string
		for n := range got {
			names = append(names, n)
		}
		sort.Strings(names)
		c.Obligation("a tag of the kind %s is entered in %v", k, names)
		var fresh []string
		for _, n := range names {
			if t.roles[n] == "" {
				fresh = append(fresh, n)
			} else if !contains(want[k], t.roles[n]) {
				c.Report("kind", k, f, fmt.Sprintf("%s enters a field of the kind %s also as %s", c.FuncName(f), k, t.roles[n]))
			}
		}
		var missing []string
		for _, r := range want[k] {
			found := false
			for _, n := range names {
				if t.roles[n] == r {
					found = true
				}
			}
			if !found {
				missing = append(missing, r)
			}
		}
		switch {
		case len(fresh) == 1 && len(missing) == 1 && !t.has(missing[0]):
			t.roles[fresh[0]] = missing[0]
		case len(missing) > 0:
			c.Report("kind", k, f, fmt.Sprintf("%s does not enter a field of the kind %s as %s", c.FuncName(f), k, strings.Join(missing, ", ")))
		case len(fresh) > 0:
			c.Report("kind", k, f, fmt.Sprintf("%s enters a field of the kind %s also in %s", c.FuncName(f), k, strings.Join(fresh, ", ")))
		}
	}
	if got, _ := entered("", false); len(got) > 0 && len(got) < len(t.roles) {
		for n := range got {
			if t.roles[n] != "attributes" {
				c.Report("kind", "default", f, fmt.Sprintf("%s enters a field with a tag without kind as %s", c.FuncName(f), t.roles[n]))
			}
		}
	}
	if got, _ := entered("remain", true); len(got) > 0 {
		c.Report("kind", "second remain", f, c.FuncName(f)+" accepts more than one field for the remainder")
	}
	if _, a := entered("?", false); true {
		panics := false
		for _, l := range loopsOf(f) {
			for b := range l.blocks {
				for _, s := range b.Succs {
					if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok && a.edges[edge{b, s}] {
						panics = true
					}
				}
			}
		}
		if !panics {
			c.Report("kind", "unknown", f, c.FuncName(f)+" accepts tags of unknown kinds")
		}
	}
	t.split(f)
	t.everyField(f)
}

func (t *tagCheck) has(role string) bool {
	for _, r := range t.roles {
		if r == role {
			return true
		}
	}
	return false
}

// fieldName: the field of the table that a map or list comes from.
func (t *tagCheck) fieldName(v ssa.Value) string {
	if ld, ok := isLoad(v); ok {
		v = ld.X
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if namedOf(derefType(x.X.Type())) == t.table {
			return fieldOf(x.X.Type(), x.Field)
		}
	case *ssa.Field:
		if namedOf(x.X.Type()) == t.table {
			return fieldOf(x.X.Type(), x.Field)
		}
	case *ssa.MakeMap:
		// put into the table when it is made
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Val == v {
				return t.fieldName(st.Addr)
			}
		}
	case *ssa.Parameter:
		// a map of the table handed over
		name := ""
		for _, s := range t.c.callSites(x.Parent()) {
			for i, p := range x.Parent().Params {
				if p == x && i < len(s.Args) {
					n := t.fieldName(s.Args[i])
					if name != "" && n != name {
						return ""
					}
					name = n
				}
			}
		}
		return name
	}
	return ""
}

func (t *tagCheck) role(v ssa.Value) string { return t.roles[t.fieldName(v)] }

// entry: a map of the table has names and positions, or names and a mark.
func (t *tagCheck) entry(f *ssa.Function, env *pathEnv, kind, field string, key, val ssa.Value, at ssa.Instruction) {
	if isInt(val.Type()) && !t.isPosition(f, val) {
		t.c.Report("entry", kind+" "+field, at, fmt.Sprintf("%s enters something else than the position of the field for the kind %s", t.c.FuncName(f), kind))
	}
	t.tagText(f, kind, field, key, at)
	if k, ok := val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
		t.c.Report("entry", kind+" "+field, at, fmt.Sprintf("%s enters false for the kind %s", t.c.FuncName(f), kind))
	}
}

// isPosition: the position that the field was asked for with.
func (t *tagCheck) isPosition(f *ssa.Function, v ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Field" && len(call.Call.Args) == 1 {
				if sameCell(call.Call.Args[0], v) {
					return true
				}
			}
		}
	}
	return false
}

// sameCell: one value, or two reads of one variable, or a copy of it.
func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := isLoad(a)
	lb, ok2 := isLoad(b)
	if ok1 && ok2 && la.X == lb.X {
		return true
	}
	if ok2 {
		if al, ok := lb.X.(*ssa.Alloc); ok {
			for _, v := range valuesIn(al) {
				if v == a {
					return true
				}
			}
		}
	}
	if al, ok := b.(*ssa.Alloc); ok {
		for _, v := range valuesIn(al) {
			if sameCell(a, v) {
				return true
			}
		}
	}
	return false
}

// stored: lists have an element with position and name added, the remainder
// has the address of a position.
func (t *tagCheck) stored(f *ssa.Function, kind, field string, st *ssa.Store) {
	if call, ok := st.Val.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, e := range appendedElements(call) {
				t.element(f, kind, field, e, st)
			}
			return
		}
	}
	if al, ok := st.Val.(*ssa.Alloc); ok && isInt(derefType(al.Type())) {
		if !t.isPosition(f, al) {
			t.c.Report("entry", kind+" "+field, st, fmt.Sprintf("%s enters something else than the position of the field for the kind %s", t.c.FuncName(f), kind))
		}
	}
}

func (t *tagCheck) element(f *ssa.Function, kind, field string, v ssa.Value, at ssa.Instruction) {
	ld, ok := isLoad(v)
	if !ok {
		return
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			s, ok := u.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(fa) {
				continue
			}
			if isStringType(s.Val.Type()) {
				t.tagText(f, kind, field, s.Val, at)
			}
			if isInt(s.Val.Type()) && !t.isPosition(f, s.Val) {
				t.c.Report("entry", kind+" "+field, at, fmt.Sprintf("%s enters something else than the position of the field for the kind %s", t.c.FuncName(f), kind))
			}
		}
	}
}

// tagText: names are text of the tag.
func (t *tagCheck) tagText(f *ssa.Function, kind, field string, v ssa.Value, at ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if call, ok := v.(*ssa.Call); ok && asksForTag(call) {
			return true
		}
		if ld, ok := isLoad(v); ok {
			if al, ok := ld.X.(*ssa.Alloc); ok {
				for _, w := range valuesIn(al) {
					if from(w) {
						return true
					}
				}
			}
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && from(*op) {
				return true
			}
		}
		return false
	}
	if !from(v) {
		t.c.Report("entry", kind+" "+field+" name", at, fmt.Sprintf("%s enters something else than text of the tag as name for the kind %s", t.c.FuncName(f), kind))
	}
}

// split: the name is what comes before the comma, the kind what comes after it.
func (t *tagCheck) split(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok {
				continue
			}
			if bt, ok := sl.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
				continue
			}
			isComma := func(v ssa.Value) bool {
				call, ok := v.(*ssa.Call)
				if !ok {
					return false
				}
				h := call.Call.StaticCallee()
				return h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "strings" && strings.HasPrefix(h.Name(), "Index")
			}
			t.c.Count("tag parts", 1)
			switch {
			case sl.Low == nil && sl.High != nil && isComma(sl.High):
			case sl.High == nil && sl.Low != nil:
				bo, ok := sl.Low.(*ssa.BinOp)
				if ok && bo.Op == token.ADD && isComma(bo.X) {
					if k, _ := constInt(bo.Y); k == 1 {
						continue
					}
				}
				if isComma(sl.Low) || ok && (isComma(bo.X) || isComma(bo.Y)) {
					t.c.Report("split", "kind", sl, t.c.FuncName(f)+" does not take the kind of a tag from right after the comma")
				}
			case sl.Low != nil && isComma(sl.Low), sl.High != nil && !isComma(sl.High):
				if bo, ok := sl.High.(*ssa.BinOp); ok && (isComma(bo.X) || isComma(bo.Y)) {
					t.c.Report("split", "name", sl, t.c.FuncName(f)+" does not take the name of a tag from before the comma")
				}
			}
		}
	}
}

// everyField: all fields are asked; only those without a tag are passed over.
func (t *tagCheck) everyField(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Field" {
				continue
			}
			l := innermost(f, b)
			if l == nil {
				continue
			}
			idx := call.Call.Args[0]
			if ld, ok := isLoad(idx); ok {
				if al, ok := ld.X.(*ssa.Alloc); ok {
					for _, v := range valuesIn(al) {
						if k, ok := constInt(v); ok && k != 0 {
							t.c.Report("fields", "first", call, t.c.FuncName(f)+" does not start with the first field")
						}
					}
				}
			}
			for b := range l.blocks {
				// left or passed over early
				for _, s := range b.Succs {
					if l.blocks[s] || b == l.header {
						continue
					}
					if _, panics := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); panics {
						continue
					}
					t.c.Report("fields", "early", At(lastPos(b)), t.c.FuncName(f)+" does not look at all fields")
				}
			}
		}
	}
}

// A fieldCase is what is assumed about one field.
type fieldCase struct {
	role     string // attributes, blocks or rest
	typ      types.Type
	optional bool
	present  bool // the attribute is there, the pointer is not nil
	count    int  // blocks there are
}

type tagFrame struct {
	t    *tagCheck
	fc   fieldCase
	f    *ssa.Function
	a    *assumed
	up   *tagFrame
	args []ssa.Value
	busy map[ssa.Value]bool
}

func (t *tagCheck) enter(f *ssa.Function, fc fieldCase, up *tagFrame, args []ssa.Value) *tagFrame {
	fr := &tagFrame{t: t, fc: fc, f: f, up: up, args: args, busy: map[ssa.Value]bool{}}
	fr.a = &assumed{f: f, edges: map[edge]bool{}, reach: map[*ssa.BasicBlock]bool{}, busy: map[ssa.Value]bool{}}
	fr.a.given = fr.given
	fr.a.run()
	return fr
}

func (fr *tagFrame) depth() int {
	n := 0
	for x := fr.up; x != nil; x = x.up {
		n++
	}
	return n
}

// arg: what a parameter was given.
func (fr *tagFrame) arg(v ssa.Value) (ssa.Value, *tagFrame) {
	for {
		p, ok := v.(*ssa.Parameter)
		if !ok || fr.up == nil {
			return v, fr
		}
		found := false
		for i, q := range fr.f.Params {
			if q == p && i < len(fr.args) {
				v, found = fr.args[i], true
			}
		}
		if !found {
			return v, fr
		}
		fr = fr.up
	}
}

// positionRoles: the roles of the fields at a position.
func (fr *tagFrame) positionRoles(v ssa.Value, depth int) []string {
	if depth > 10 {
		return nil
	}
	v, fr = fr.arg(v)
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return fr.mapRoles(r.X, depth+1)
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return fr.mapRoles(lk.X, depth+1)
		}
	case *ssa.Lookup:
		return fr.mapRoles(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if r := fr.t.role(x.X); r != "" {
			return []string{r}
		}
		if ld, ok := isLoad(x.X); ok {
			if r := fr.t.role(ld); r == "rest" {
				return []string{r}
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			var out []string
			for _, v := range valuesIn(al) {
				out = append(out, fr.positionRoles(v, depth+1)...)
			}
			return uniqPaths(out)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if r := fr.t.elementRole(fa.X); r != "" {
				return []string{r}
			}
		}
	case *ssa.Field:
		if r := fr.t.elementRole(x.X); r != "" {
			return []string{r}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			if e != v {
				out = append(out, fr.positionRoles(e, depth+1)...)
			}
		}
		return uniqPaths(out)
	}
	return nil
}

// elementRole: the role of the elements of a list that something is one of.
func (t *tagCheck) elementRole(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		return t.role(x.X)
	case *ssa.UnOp:
		return t.elementRole(x.X)
	case *ssa.Alloc:
		for _, w := range valuesIn(x) {
			if r := t.elementRole(w); r != "" {
				return r
			}
		}
	}
	return ""
}

// mapRoles: the roles of the positions in a map.
func (fr *tagFrame) mapRoles(v ssa.Value, depth int) []string {
	v, fr = fr.arg(v)
	if r := fr.t.role(v); r != "" {
		return []string{r}
	}
	if mm, ok := v.(*ssa.MakeMap); ok {
		var out []string
		for _, r := range *mm.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == v {
				out = append(out, fr.positionRoles(mu.Value, depth+1)...)
			}
		}
		return uniqPaths(out)
	}
	if ld, ok := isLoad(v); ok {
		if ia, ok := ld.X.(*ssa.IndexAddr); ok && depth < 10 {
			// one of a list of maps
			base := ia.X
			if sl, ok := base.(*ssa.Slice); ok {
				base = sl.X
			}
			var out []string
			if al, ok := base.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ea, ok := r.(*ssa.IndexAddr); ok {
						for _, u := range *ea.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ea) {
								out = append(out, fr.mapRoles(st.Val, depth+1)...)
							}
						}
					}
				}
			}
			return uniqPaths(out)
		}
		if al, ok := ld.X.(*ssa.Alloc); ok {
			var out []string
			for _, x := range valuesIn(al) {
				out = append(out, fr.mapRoles(x, depth+1)...)
			}
			for _, r := range *al.Referrers() {
				if l, ok := r.(*ssa.UnOp); ok {
					for _, u := range *l.Referrers() {
						if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(l) {
							out = append(out, fr.positionRoles(mu.Value, depth+1)...)
						}
					}
				}
			}
			return uniqPaths(out)
		}
	}
	return nil
}

// typeOf: the type a reflected type stands for.
func (fr *tagFrame) typeOf(v ssa.Value) types.Type {
	v, fr = fr.arg(v)
	if fr.busy[v] {
		return nil
	}
	fr.busy[v] = true
	defer delete(fr.busy, v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			return fr.t.globalType(a)
		case *ssa.FieldAddr:
			if fieldOf(a.X.Type(), a.Field) == "Type" && isNamed(derefType(a.X.Type()), "reflect", "StructField") && fr.ownField(a.X) {
				return fr.fc.typ
			}
		case *ssa.Alloc:
			if vs := valuesIn(a); len(vs) == 1 {
				return fr.typeOf(vs[0])
			}
		}
	case *ssa.Field:
		if fieldOf(x.X.Type(), x.Field) == "Type" && isNamed(x.X.Type(), "reflect", "StructField") && fr.ownField(x.X) {
			return fr.fc.typ
		}
	case *ssa.Phi:
		var out types.Type
		for _, e := range fr.a.edgesInto(x) {
			t := fr.typeOf(e)
			if t == nil || out != nil && !types.Identical(t, out) {
				return nil
			}
			out = t
		}
		return out
	case *ssa.Call:
		if x.Call.IsInvoke() {
			if x.Call.Method.Name() == "Elem" {
				if t := fr.typeOf(x.Call.Value); t != nil {
					return elemOf(t)
				}
			}
			return nil
		}
		h := x.Call.StaticCallee()
		if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "reflect" {
			return nil
		}
		switch h.Name() {
		case "PtrTo", "PointerTo":
			if t := fr.typeOf(x.Call.Args[0]); t != nil {
				return types.NewPointer(t)
			}
		case "SliceOf":
			if t := fr.typeOf(x.Call.Args[0]); t != nil {
				return types.NewSlice(t)
			}
		case "Type":
			return fr.valueType(x.Call.Args[0])
		}
	}
	return nil
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// valueType: the type of the reflected value of a field.
func (fr *tagFrame) valueType(v ssa.Value) types.Type {
	v, fr = fr.arg(v)
	if call, ok := v.(*ssa.Call); ok {
		h := call.Call.StaticCallee()
		if h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "reflect" {
			switch h.Name() {
			case "Field":
				if len(call.Call.Args) == 2 && contains(fr.positionRoles(call.Call.Args[1], 0), fr.fc.role) {
					return fr.fc.typ
				}
			case "Elem":
				if t := fr.valueType(call.Call.Args[0]); t != nil {
					return elemOf(t)
				}
			}
		}
	}
	return nil
}

// ownField: the description of the field the assumptions are about.
func (fr *tagFrame) ownField(v ssa.Value) bool {
	v, fr = fr.arg(v)
	switch x := v.(type) {
	case *ssa.Alloc:
		for _, s := range valuesIn(x) {
			if fr.ownField(s) {
				return true
			}
		}
	case *ssa.UnOp:
		return x.Op == token.MUL && fr.ownField(x.X)
	case *ssa.Call:
		name := ""
		var pos ssa.Value
		if x.Call.IsInvoke() {
			name = x.Call.Method.Name()
			if len(x.Call.Args) == 1 {
				pos = x.Call.Args[0]
			}
		}
		return name == "Field" && pos != nil && contains(fr.positionRoles(pos, 0), fr.fc.role)
	}
	return false
}

// globalType: the type a package variable is initialised with.
func (t *tagCheck) globalType(g *ssa.Global) types.Type {
	for _, f := range t.c.initsOf(g.Pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return initType(st.Val)
				}
			}
		}
	}
	return nil
}

func initType(v ssa.Value) types.Type {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if call.Call.IsInvoke() && call.Call.Method.Name() == "Elem" {
		if t := initType(call.Call.Value); t != nil {
			return elemOf(t)
		}
		return nil
	}
	if h := call.Call.StaticCallee(); h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "reflect" && h.Name() == "TypeOf" {
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	return nil
}

func kindOf(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Ptr, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Map:
		return reflect.Map, true
	case *types.Interface:
		return reflect.Interface, true
	case *types.Array:
		return reflect.Array, true
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String, true
		case types.Bool:
			return reflect.Bool, true
		case types.Int:
			return reflect.Int, true
		}
	}
	return 0, false
}

// given: what follows from the assumptions.
func (fr *tagFrame) given(v ssa.Value) constant.Value {
	if fr.up != nil {
		if p, ok := v.(*ssa.Parameter); ok {
			if w, g := fr.arg(p); g != fr {
				return g.a.value(w)
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
			if h := call.Call.StaticCallee(); h != nil && impliesSchema(h) {
				return constant.MakeBool(fr.fc.role == "rest")
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			switch r := fr.tableRole(lk.X); r {
			case "attributes", "blocks":
				return constant.MakeBool(r == fr.fc.role)
			case "optional":
				return constant.MakeBool(fr.fc.optional)
			}
			if fr.isAttributes(lk.X) {
				return constant.MakeBool(fr.fc.present)
			}
			if isBlocksMap(lk.X.Type()) {
				return constant.MakeBool(fr.fc.count > 0)
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && fr.tableRole(lk.X) == "optional" {
			return constant.MakeBool(fr.fc.optional)
		}
	case *ssa.Lookup:
		if !x.CommaOk && fr.tableRole(x.X) == "optional" {
			return constant.MakeBool(fr.fc.optional)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, v := range []ssa.Value{x.X, x.Y} {
				w, g := fr.arg(v)
				if isPtrNamed(w.Type(), "hcl", "BodyContent") && (isNilConst(x.X) || isNilConst(x.Y)) {
					return constant.MakeBool(x.Op == token.NEQ)
				}
				if lk := lookupOf(w); lk != nil && g.isAttributes(lk.X) && (isNilConst(x.X) || isNilConst(x.Y)) {
					return constant.MakeBool(fr.fc.present == (x.Op == token.NEQ))
				}
				if fr.t.role(w) == "rest" && (isNilConst(x.X) || isNilConst(x.Y)) {
					return constant.MakeBool((fr.fc.role == "rest") == (x.Op == token.NEQ))
				}
			}
		}
	case *ssa.Call:
		if l := lenName(x); l != nil {
			w, _ := fr.arg(l)
			if blocksOf(w) != nil {
				return constant.MakeInt64(int64(fr.fc.count))
			}
			return nil
		}
		if x.Call.IsInvoke() {
			switch x.Call.Method.Name() {
			case "Kind":
				if t := fr.typeOf(x.Call.Value); t != nil {
					if k, ok := kindOf(t); ok {
						return constant.MakeInt64(int64(k))
					}
				}
			case "AssignableTo", "Implements":
				if from, to := fr.typeOf(x.Call.Value), fr.typeOf(x.Call.Args[0]); from != nil && to != nil {
					return constant.MakeBool(types.AssignableTo(from, to))
				}
			}
			return nil
		}
		h := x.Call.StaticCallee()
		if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "reflect" || len(x.Call.Args) == 0 {
			return nil
		}
		switch h.Name() {
		case "IsValid":
			return constant.MakeBool(fr.fc.present)
		case "IsNil":
			return constant.MakeBool(!fr.fc.present)
		case "Kind":
			if t := fr.valueType(x.Call.Args[0]); t != nil {
				if k, ok := kindOf(t); ok {
					return constant.MakeInt64(int64(k))
				}
			}
		}
	}
	return nil
}

func (fr *tagFrame) tableRole(v ssa.Value) string {
	w, g := fr.arg(v)
	return g.t.role(w)
}

func isReflect(call *ssa.Call, name string) bool {
	h := call.Call.StaticCallee()
	return h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "reflect" && h.Name() == name
}

func t2(h *ssa.Function, pkg, name string) bool {
	return h.Pkg != nil && h.Pkg.Pkg.Path() == pkg && h.Name() == name
}

// blocksOf: where the blocks of a type were got.
func blocksOf(v ssa.Value) ssa.Value {
	if lk := lookupOf(v); lk != nil && isBlocksMap(lk.X.Type()) {
		return lk
	}
	if call, ok := v.(*ssa.Call); ok {
		if h := call.Call.StaticCallee(); h != nil && t2(h, hclPath, "OfType") {
			return call
		}
	}
	return nil
}

func lookupOf(v ssa.Value) *ssa.Lookup {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	lk, _ := v.(*ssa.Lookup)
	return lk
}

// isAttributes: the attributes found in a body.
func (fr *tagFrame) isAttributes(v ssa.Value) bool {
	w, _ := fr.arg(v)
	return isNamed(w.Type(), hclPath, "Attributes")
}

func isBlocksMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), hclPath, "Blocks")
}

// happens: what an instruction does that matters, and the name it does it for.
func (fr *tagFrame) happens(in ssa.Instruction) (what string, name ssa.Value) {
	switch x := in.(type) {
	case *ssa.Alloc:
		if isNamed(derefType(x.Type()), hclPath, "Diagnostic") {
			return "error", nil
		}
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return "", nil
		}
		t := derefType(fa.X.Type())
		switch {
		case isNamed(t, hclPath, "AttributeSchema") && fieldOf(t, fa.Field) == "Name":
			return "attribute schema", x.Val
		case isNamed(t, hclPath, "BlockHeaderSchema") && fieldOf(t, fa.Field) == "Type":
			return "block schema", x.Val
		}
	case *ssa.Lookup:
		if isNamed(x.X.Type(), hclPath, "Attributes") {
			return "look up attribute", x.Index
		}
		if isBlocksMap(x.X.Type()) {
			return "look up blocks", x.Index
		}
	case *ssa.Slice:
		if blocksOf(x.X) != nil && (x.Low != nil || x.High != nil) {
			return "leave out blocks", nil
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && isNamed(x.Call.Value.Type(), hclPath, "Body") {
			switch x.Call.Method.Name() {
			case "Content":
				return "whole content", nil
			case "PartialContent":
				return "partial content", nil
			}
		}
		h := x.Call.StaticCallee()
		if h == nil {
			return "", nil
		}
		switch {
		case t2(h, hclPath, "OfType") && len(x.Call.Args) == 2:
			return "look up blocks", x.Call.Args[1]
		case h.Pkg != nil && h.Pkg.Pkg.Path() == "reflect" && (h.Name() == "Append" || h.Name() == "AppendSlice"):
			return "set element", nil
		case h.Pkg != nil && h.Pkg.Pkg.Path() == "reflect" && h.Name() == "Set" && len(x.Call.Args) == 2:
			if to, ok := x.Call.Args[0].(*ssa.Call); ok && isReflect(to, "Index") {
				return "set element", nil
			}
			return "set " + fr.given2(x.Call.Args[1]), nil
		case fr.t.c.PkgOf(h) == goPkg && fr.t.decodesExpr(h):
			return "decode expression", nil
		case fr.t.c.PkgOf(h) == goPkg && takes(h, hclPath, "Block", true):
			return "decode block", nil
		case fr.t.c.PkgOf(h) == goPkg && takes(h, hclPath, "Body", false) && takes(h, "reflect", "Value", false) && !fr.private(h):
			for i, p := range h.Params {
				if isNamed(p.Type(), hclPath, "Body") && fr.fc.role == "rest" && !fr.remains(x.Call.Args[i]) {
					return "decode other body", nil
				}
			}
			return "decode body", nil
		case fr.t.c.PkgOf(h) == "hclwrite" && strings.HasPrefix(h.Name(), "SetAttribute") && len(x.Call.Args) > 1:
			return "write attribute", x.Call.Args[1]
		case fr.t.c.PkgOf(h) == "hclwrite" && h.Name() == "AppendBlock":
			return "write block", nil
		case fr.t.c.PkgOf(h) == "hclwrite" && (h.Name() == "AppendNewBlock" || h.Name() == "NewBlock") && len(x.Call.Args) > 1:
			k := len(x.Call.Args) - 2
			return "write block", x.Call.Args[k]
		case fr.t.c.PkgOf(h) == goPkg && h.Signature.Results().Len() == 1 && isPtrNamed(h.Signature.Results().At(0).Type(), "hclwrite", "Block"):
			for i, p := range h.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					return "make block", x.Call.Args[i]
				}
			}
		}
	}
	return "", nil
}

// private: a function that is called only from where the frames are.
func (fr *tagFrame) private(h *ssa.Function) bool {
	if fr.t.c.addressTaken(h) {
		return false
	}
	for _, f := range fr.t.c.Funcs {
		inside := false
		for x := fr; x != nil; x = x.up {
			inside = inside || x.f == f
		}
		if inside {
			continue
		}
		for _, g := range staticCallees(f) {
			if g == h {
				return false
			}
		}
	}
	return true
}

func takes(h *ssa.Function, pkg, name string, ptr bool) bool {
	for _, p := range h.Params {
		t := p.Type()
		if ptr {
			pt, ok := t.(*types.Pointer)
			if !ok {
				continue
			}
			t = pt.Elem()
		}
		if isNamed(t, pkg, name) {
			return true
		}
	}
	return false
}

// decodesExpr: evaluates an expression into a place.
func (t *tagCheck) decodesExpr(h *ssa.Function) bool {
	if !takes(h, hclPath, "Expression", false) {
		return false
	}
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "cty/gocty") && g.Name() == "FromCtyValue" {
					return true
				}
			}
		}
	}
	return false
}

// given2: what a field is set to.
func (fr *tagFrame) given2(v ssa.Value) string {
	w, g := fr.arg(v)
	call, ok := w.(*ssa.Call)
	if !ok {
		return "value"
	}
	h := call.Call.StaticCallee()
	if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "reflect" {
		return "value"
	}
	if h.Name() == "Zero" {
		return "zero"
	}
	if h.Name() != "ValueOf" {
		return "value"
	}
	x := call.Call.Args[0]
	for i := 0; i < 6; i++ {
		x, g = g.arg(x)
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		} else if ci, ok := x.(*ssa.ChangeInterface); ok {
			x = ci.X
		}
	}
	switch {
	case isPtrNamed(x.Type(), "hcl", "Attribute"):
		return "attribute"
	case isNamed(x.Type(), hclPath, "Attributes"):
		if ex, ok := x.(*ssa.Extract); ok && fr.fc.role == "rest" {
			if call, ok := ex.Tuple.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "JustAttributes" && !g.remains(call.Call.Value) {
				return "other attributes"
			}
		}
		return "attributes"
	case isNamed(x.Type(), hclPath, "Body"):
		if fr.fc.role == "rest" && !g.remains(x) {
			return "other body"
		}
		return "body"
	case isNamed(x.Type(), hclPath, "Expression"):
		if c2, ok := x.(*ssa.Call); ok {
			if s := c2.Call.StaticCallee(); s != nil && s.Name() == "StaticExpr" {
				return "null expression"
			}
		}
		if ld, ok := isLoad(x); ok {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == "Expr" {
				return "expression"
			}
		}
		return "some expression"
	}
	return "value"
}

// A round is one way of treating each field of a role: the body of a loop.
type round struct {
	f     *ssa.Function
	l     *loop
	roles []string
	key   ssa.Value // the name of the field
}

// rounds finds the loops in which fields are looked at by position.
func (t *tagCheck) rounds() []*round {
	var out []*round
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg || f == t.read {
			continue
		}
		fr := &tagFrame{t: t, f: f, busy: map[ssa.Value]bool{}}
		byLoop := map[*ssa.BasicBlock]*round{}
		loops := loopsOf(f)
		for _, b := range f.Blocks {
			var l *loop
			for _, q := range loops {
				if q.blocks[b] && (l == nil || len(q.blocks) > len(l.blocks)) {
					l = q // the outermost
				}
			}
			if l == nil {
				continue
			}
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range ci.Common().Args {
					if !isInt(a.Type()) {
						continue
					}
					roles := fr.positionRoles(a, 0)
					if !contains(roles, "attributes") && !contains(roles, "blocks") {
						continue
					}
					r := byLoop[l.header]
					if r == nil {
						r = &round{f: f, l: l}
						byLoop[l.header] = r
						out = append(out, r)
					}
					r.roles = uniqPaths(append(r.roles, roles...))
					if k := keyOfPosition(a); k != nil {
						r.key = k
					}
				}
			}
		}
	}
	return out
}

// keyRoles: the roles of the names that a list holds.
func (t *tagCheck) keyRoles(v ssa.Value, seen map[ssa.Value]bool) []string {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return (&tagFrame{t: t, f: x.Parent(), busy: map[ssa.Value]bool{}}).mapRoles(r.X, 0)
			}
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return t.keyRoles(a.X, seen)
		case *ssa.Alloc:
			var out []string
			for _, w := range valuesIn(a) {
				out = append(out, t.keyRoles(w, seen)...)
			}
			return uniqPaths(out)
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, t.keyRoles(e, seen)...)
		}
		return uniqPaths(out)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			out := t.keyRoles(x.Call.Args[0], seen)
			for _, e := range appendedElements(x) {
				out = append(out, t.keyRoles(e, seen)...)
			}
			return uniqPaths(out)
		}
	}
	return nil
}

// fills: lists and maps of names filled from the table have all of them.
func (t *tagCheck) fills() {
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg || f == t.read {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n, ok := in.(*ssa.Next)
				if !ok {
					continue
				}
				rg, ok := n.Iter.(*ssa.Range)
				if !ok || t.role(rg.X) == "" {
					continue
				}
				l := innermost(f, b)
				if l == nil {
					continue
				}
				t.c.Count("table loops", 1)
				enters := map[*ssa.BasicBlock]map[string]bool{}
				all := map[string]bool{}
				for lb := range l.blocks {
					enters[lb] = map[string]bool{}
					for _, x := range lb.Instrs {
						w := ""
						switch y := x.(type) {
						case *ssa.MapUpdate:
							if _, made := y.Map.(*ssa.MakeMap); made {
								w = "map"
							}
						case *ssa.Call:
							if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
								if sl, ok := y.Type().Underlying().(*types.Slice); ok && isStringType(sl.Elem()) {
									w = "list"
								}
							}
						}
						if w != "" {
							enters[lb][w], all[w] = true, true
						}
					}
				}
				a := assume(f, func(ssa.Value) constant.Value { return nil })
				r := &round{f: f, l: l}
				for w := range all {
					if !r.every(a, enters, w) {
						t.c.Report("names", t.c.FuncName(f)+" "+w, n, fmt.Sprintf("%s leaves out some fields of the role %s", t.c.FuncName(f), t.role(rg.X)))
					}
				}
			}
		}
	}
}

// counted: loops by number go through all.
func (t *tagCheck) counted() {
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg {
			continue
		}
		for _, l := range loopsOf(f) {
			iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if ar, ok := v.(*ssa.BinOp); ok && (ar.Op == token.SUB || ar.Op == token.QUO) {
					if call, ok := ar.X.(*ssa.Call); ok {
						t.c.Report("fields", "last "+t.c.FuncName(f), At(loopPos(l)), t.c.FuncName(f)+" stops before the last of "+call.Name())
					}
				}
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				p, ok := v.(*ssa.Phi)
				if !ok || p.Block() != l.header {
					continue
				}
				for i, pred := range p.Block().Preds {
					if k, ok := constInt(p.Edges[i]); ok && !l.blocks[pred] && k > 0 {
						t.c.Report("fields", "first "+t.c.FuncName(f), At(loopPos(l)), t.c.FuncName(f)+" does not start with the first")
					}
				}
			}
		}
	}
}

// written: a block that is made has the labels and the body.
func (t *tagCheck) written() {
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 || !isPtrNamed(res.At(0).Type(), "hclwrite", "Block") {
			continue
		}
		t.c.Count("block writers", 1)
		in := map[*ssa.BasicBlock]map[string]bool{}
		a := assume(f, func(ssa.Value) constant.Value { return nil })
		for _, b := range f.Blocks {
			in[b] = map[string]bool{}
			for _, x := range b.Instrs {
				call, ok := x.(*ssa.Call)
				if !ok {
					continue
				}
				h := call.Call.StaticCallee()
				if h == nil {
					continue
				}
				if t.c.PkgOf(h) == "hclwrite" && (h.Name() == "NewBlock" || h.Name() == "AppendNewBlock") {
					last := call.Call.Args[len(call.Call.Args)-1]
					if isNilConst(last) {
						t.c.Report("label", t.c.FuncName(f)+" written", call, t.c.FuncName(f)+" writes no labels")
					}
				}
				if t.c.PkgOf(h) == goPkg {
					for _, p := range h.Params {
						if isPtrNamed(p.Type(), "hclwrite", "Body") {
							in[b]["body"] = true
						}
					}
					if g := h.Signature.Results(); g.Len() == 1 && isPtrNamed(g.At(0).Type(), "hclwrite", "Block") {
						in[b]["body"] = true
					}
				}
			}
		}
		if !mustPass(f, a, in, "body") {
			t.c.Report("written", t.c.FuncName(f), f, t.c.FuncName(f)+" does not always write the body of the block")
		}
	}
}

// keyOfPosition: the name under which a position was found.
func keyOfPosition(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			for _, r := range *n.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					return e
				}
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return lk.Index
		}
	case *ssa.Lookup:
		return x.Index
	}
	return nil
}

// outcome: what may and what must happen in a round.
type outcome struct {
	may, must map[string]bool
	names     map[string][]framedName
	at        map[string]ssa.Instruction
}

type framedName struct {
	v  ssa.Value
	fr *tagFrame
	in ssa.Instruction
}

func (t *tagCheck) outcome(r *round, fc fieldCase) *outcome {
	fr := t.enter(r.f, fc, nil, nil)
	o := &outcome{may: map[string]bool{}, must: map[string]bool{}, names: map[string][]framedName{}, at: map[string]ssa.Instruction{}}
	in := map[*ssa.BasicBlock]map[string]bool{}
	for b := range r.l.blocks {
		if !fr.a.reach[b] {
			continue
		}
		in[b] = map[string]bool{}
		for _, x := range b.Instrs {
			fr.collect(x, in[b], o)
		}
		// ways out that are taken because of something
		for _, s := range b.Succs {
			if !r.l.blocks[s] && fr.a.edges[edge{b, s}] && b != r.l.header {
				if _, panics := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); panics {
					in[b]["panic?"] = true
				}
			}
		}
	}
	for b, s := range in {
		_ = b
		for w := range s {
			o.may[w] = true
		}
	}
	for w := range o.may {
		if r.every(fr.a, in, w) {
			o.must[w] = true
		}
	}
	return o
}

// collect follows helpers.
func (fr *tagFrame) collect(in ssa.Instruction, into map[string]bool, o *outcome) {
	what, name := fr.happens(in)
	if what != "" {
		into[what] = true
		if o.at[what] == nil {
			o.at[what] = in
		}
		if name != nil {
			o.names[what] = append(o.names[what], framedName{name, fr, in})
		}
		return
	}
	call, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	h := call.Call.StaticCallee()
	if h == nil || fr.t.c.PkgOf(h) != goPkg || h == fr.t.read || fr.depth() > 3 || len(h.Blocks) == 0 {
		return
	}
	for x := fr; x != nil; x = x.up {
		if x.f == h {
			return
		}
	}
	n := fr.t.enter(h, fr.fc, fr, call.Call.Args)
	inner := map[*ssa.BasicBlock]map[string]bool{}
	all := map[string]bool{}
	for _, b := range h.Blocks {
		if !n.a.reach[b] {
			continue
		}
		inner[b] = map[string]bool{}
		for _, x := range b.Instrs {
			n.collect(x, inner[b], o)
		}
		for w := range inner[b] {
			all[w] = true
		}
	}
	for w := range all {
		if mustPass(h, n.a, inner, w) {
			into[w] = true
		} else {
			o.may[w] = true
		}
	}
}

// mustPass: every way from entry to a return meets the event.
func mustPass(h *ssa.Function, a *assumed, in map[*ssa.BasicBlock]map[string]bool, w string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || in[b][w] {
			return true
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, s := range b.Succs {
			if a.edges[edge{b, s}] && !walk(s) {
				return false
			}
		}
		return true
	}
	return len(h.Blocks) > 0 && walk(h.Blocks[0])
}

// every: each way round meets the event.
func (r *round) every(a *assumed, in map[*ssa.BasicBlock]map[string]bool, w string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == r.l.header {
			return false
		}
		if seen[b] || in[b][w] {
			return true
		}
		// inner loops may have no rounds, but are about the elements of the field
		seen[b] = true
		for _, s := range b.Succs {
			if !a.edges[edge{b, s}] {
				continue
			}
			if !r.l.blocks[s] {
				continue
			}
			if inner := r.innerLoop(b); inner != nil && !inner.blocks[s] && r.meets(inner, in, w) {
				continue // the loop is left after all elements
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	if in[r.l.header][w] {
		return true
	}
	for _, s := range r.l.header.Succs {
		if r.l.blocks[s] && a.edges[edge{r.l.header, s}] && !walk(s) {
			return false
		}
	}
	return true
}

func (r *round) innerLoop(b *ssa.BasicBlock) *loop {
	for _, l := range loopsOf(r.f) {
		if l.header == b && l.header != r.l.header {
			return l
		}
	}
	return nil
}

func (r *round) meets(l *loop, in map[*ssa.BasicBlock]map[string]bool, w string) bool {
	for b := range l.blocks {
		if in[b][w] {
			return true
		}
	}
	return false
}

// users: what schema, decoding and encoding do with each type of field.
func (t *tagCheck) users() {
	hcl := t.c.ByPat["hcl"]
	lookup := func(name string) types.Type {
		if o := hcl.Types.Scope().Lookup(name); o != nil {
			return o.Type()
		}
		return types.Typ[types.Invalid]
	}
	str := types.Typ[types.String]
	st := types.NewStruct(nil, nil)
	expr, attr := lookup("Expression"), types.NewPointer(lookup("Attribute"))
	attrTypes := []types.Type{str, types.NewPointer(str), types.NewSlice(str), expr, attr}
	blockTypes := []types.Type{st, types.NewPointer(st), types.NewSlice(st), types.NewSlice(types.NewPointer(st))}

	for _, r := range t.rounds() {
		// what is this loop for?
		all := t.outcome(r, fieldCase{})
		_ = all
		uses := map[string]bool{}
		for _, role := range r.roles {
			for _, present := range []bool{true, false} {
				o := t.outcome(r, fieldCase{role: role, typ: str, present: present, count: 1})
				for w := range o.may {
					uses[w] = true
				}
				o = t.outcome(r, fieldCase{role: role, typ: st, present: present, count: 1})
				for w := range o.may {
					uses[w] = true
				}
			}
		}
		name := t.c.FuncName(r.f)
		if keys := t.keyRoles(r.key, map[ssa.Value]bool{}); len(keys) > 0 {
			for _, role := range r.roles {
				if !contains(keys, role) {
					t.c.Report("names", name+" "+role, At(loopPos(r.l)), fmt.Sprintf("%s passes over the fields of the role %s", name, role))
				}
			}
		}
		t.c.Obligation("loop over %v in %s: %v", r.roles, name, sortedKeys(uses))
		if contains(r.roles, "attributes") {
			switch {
			case uses["attribute schema"]:
				t.c.Count("attribute rounds", 1)
				t.schemaAttrs(r, name, attrTypes, expr)
			case uses["decode expression"] || uses["set expression"]:
				t.c.Count("attribute rounds", 1)
				t.decodeAttrs(r, name, attrTypes, expr, attr)
			case uses["write attribute"]:
				t.c.Count("attribute rounds", 1)
				t.encodeAttrs(r, name, attrTypes, expr, attr)
			}
		}
		if contains(r.roles, "blocks") {
			switch {
			case uses["block schema"]:
				t.c.Count("block rounds", 1)
				for _, ty := range blockTypes {
					o := t.outcome(r, fieldCase{role: "blocks", typ: ty, present: true, count: 1})
					t.expect(r, o, name, "blocks", ty, "", []string{"block schema"}, nil, nil)
					t.nested(r, ty)
				}
			case uses["decode block"]:
				t.c.Count("block rounds", 1)
				t.decodeBlocks(r, name, blockTypes)
			case uses["write block"] || uses["make block"]:
				t.c.Count("block rounds", 1)
				t.encodeBlocks(r, name, blockTypes)
			}
		}
	}
}

// nested: the tags of the type of the blocks say what labels there are.
func (t *tagCheck) nested(r *round, ty types.Type) {
	fr := t.enter(r.f, fieldCase{role: "blocks", typ: ty, present: true, count: 1}, nil, nil)
	for b := range r.l.blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != t.read || !fr.a.reach[b] {
				continue
			}
			def, ok := call.Call.Args[0].(ssa.Instruction)
			got := fr.typeOf(call.Call.Args[0])
			if got == nil && (!ok || !r.l.blocks[def.Block()]) {
				t.c.Report("nested", t.c.FuncName(r.f), call, t.c.FuncName(r.f)+" reads the tags of another type than that of the block")
				continue
			}
			if got == nil {
				continue
			}
			if _, ok := got.Underlying().(*types.Struct); !ok {
				t.c.Report("nested", t.c.FuncName(r.f), call, fmt.Sprintf("%s reads the tags of %s for blocks of type %s", t.c.FuncName(r.f), shortType(got), shortType(ty)))
			}
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// expect compares what happens with what should.
func (t *tagCheck) expect(r *round, o *outcome, fn, role string, ty types.Type, when string, must, mustNot, mayNot []string) {
	t.c.Count("field types", 1)
	desc := types.TypeString(ty, types.RelativeTo(nil))
	desc = strings.Replace(desc, modPath+"/", "", -1)
	t.c.Obligation("%s, %s of type %s%s: may %v, must %v", fn, role, desc, when, sortedKeys(o.may), sortedKeys(o.must))
	for _, w := range must {
		ok := false
		for _, alt := range strings.Split(w, "|") {
			ok = ok || o.must[alt]
		}
		if !ok {
			t.c.Report("field", fn+" "+role+" "+desc+when+" "+w, At(loopPos(r.l)), fmt.Sprintf("%s does not always %s for %s of type %s%s", fn, strings.Replace(w, "|", " or ", -1), role, desc, when))
		}
	}
	for _, w := range mustNot {
		if o.may[w] {
			p := o.at[w]
			var at Poser = At(loopPos(r.l))
			if p != nil {
				at = At(p.Pos())
			}
			t.c.Report("field", fn+" "+role+" "+desc+when+" no "+w, at, fmt.Sprintf("%s can %s for %s of type %s%s", fn, w, role, desc, when))
		}
	}
	// names
	for w, list := range o.names {
		for _, n := range list {
			t.named(r, fn, w, n)
		}
	}
}

// named: a name is used that goes with the position.
func (t *tagCheck) named(r *round, fn, what string, n framedName) {
	v, fr := n.fr.arg(n.v)
	if r.key == nil || fr.f != r.f {
		return
	}
	if v == r.key || sameCell(v, r.key) || sameCell(r.key, v) {
		return
	}
	if _, ok := v.(*ssa.Phi); ok {
		return
	}
	t.c.Report("name", fn+" "+what, n.in, fmt.Sprintf("%s: to %s another name is used than that of the field", fn, what))
}

func (t *tagCheck) schemaAttrs(r *round, name string, tys []types.Type, expr types.Type) {
	for _, ty := range tys {
		for _, optional := range []bool{false, true} {
			fc := fieldCase{role: "attributes", typ: ty, optional: optional, present: true, count: 1}
			when := ""
			if optional {
				when = ", optional"
			}
			o := t.outcome(r, fc)
			t.expect(r, o, name, "attributes", ty, when, []string{"attribute schema"}, nil, nil)
			_, isPtr := ty.(*types.Pointer)
			want := !optional && !isPtr && !types.Identical(ty, expr)
			got, at, known := t.required(r, fc)
			if !known {
				continue
			}
			for _, g := range got {
				if g != want {
					t.c.Report("required", fmt.Sprintf("%s%s", shortType(ty), when), at, fmt.Sprintf("%s: an attribute of type %s%s is required: %v, where decoding needs it: %v", name, shortType(ty), when, g, want))
				}
			}
		}
	}
}

// required: what the schema says about an attribute.
func (t *tagCheck) required(r *round, fc fieldCase) (out []bool, at Poser, known bool) {
	var visit func(fr *tagFrame, blocks map[*ssa.BasicBlock]bool)
	stored, made, open := false, false, false
	visit = func(fr *tagFrame, blocks map[*ssa.BasicBlock]bool) {
		for _, b := range fr.f.Blocks {
			if !fr.a.reach[b] || blocks != nil && !blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isNamed(derefType(fa.X.Type()), hclPath, "AttributeSchema") {
						continue
					}
					made = true
					at = At(x.Pos())
					if fieldOf(fa.X.Type(), fa.Field) != "Required" {
						continue
					}
					stored = true
					known = true
					if k := fr.a.value(x.Val); k != nil && k.Kind() == constant.Bool {
						out = append(out, constant.BoolVal(k))
					} else if call, ok := x.Val.(*ssa.Call); ok {
						if h := call.Call.StaticCallee(); h != nil && t.c.PkgOf(h) == goPkg {
							n := t.enter(h, fc, fr, call.Call.Args)
							for _, b := range h.Blocks {
								if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && n.a.reach[b] {
									if k := n.a.value(ret.Results[0]); k != nil {
										out = append(out, constant.BoolVal(k))
									} else {
										open = true
									}
								}
							}
						} else {
							open = true
						}
					} else {
						open = true
					}
				case *ssa.Call:
					if h := x.Call.StaticCallee(); h != nil && t.c.PkgOf(h) == goPkg && h != t.read && fr.depth() < 3 && h != fr.f {
						visit(t.enter(h, fc, fr, x.Call.Args), nil)
					}
				}
			}
		}
	}
	visit(t.enter(r.f, fc, nil, nil), r.l.blocks)
	if open {
		t.c.Report("required", fmt.Sprintf("%s %v", shortType(fc.typ), fc.optional), at, fmt.Sprintf("%s: whether an attribute of type %s is required depends on something else than its tag and type", t.c.FuncName(r.f), shortType(fc.typ)))
	}
	if made && !stored {
		return []bool{false}, at, true
	}
	return out, at, known
}

func (t *tagCheck) decodeAttrs(r *round, name string, tys []types.Type, expr, attr types.Type) {
	for _, ty := range tys {
		for _, optional := range []bool{false, true} {
			fc := fieldCase{role: "attributes", typ: ty, optional: optional, present: true}
			want, not := "decode expression", []string{"set attribute", "set expression", "set null expression"}
			switch {
			case types.Identical(ty, expr):
				want, not = "set expression", []string{"decode expression", "set attribute", "set null expression"}
			case types.Identical(ty, attr):
				want, not = "set attribute", []string{"decode expression", "set expression", "set null expression"}
			}
			when := ""
			if optional {
				when = ", optional"
			}
			t.expect(r, t.outcome(r, fc), name, "attributes", ty, when+", present", []string{"look up attribute", want}, not, nil)
			fc.present = false
			if types.Identical(ty, expr) {
				t.expect(r, t.outcome(r, fc), name, "attributes", ty, when+", absent", []string{"set null expression"}, []string{"decode expression", "set attribute", "set expression"}, nil)
			} else {
				t.expect(r, t.outcome(r, fc), name, "attributes", ty, when+", absent", nil, []string{"decode expression", "set attribute", "set expression", "set null expression", "error"}, nil)
			}
		}
	}
}

func (t *tagCheck) encodeAttrs(r *round, name string, tys []types.Type, expr, attr types.Type) {
	for _, ty := range tys {
		fc := fieldCase{role: "attributes", typ: ty, present: true}
		if types.Identical(ty, expr) || types.Identical(ty, attr) {
			t.expect(r, t.outcome(r, fc), name, "attributes", ty, ", undecoded", nil, []string{"write attribute", "write block"}, nil)
			continue
		}
		t.expect(r, t.outcome(r, fc), name, "attributes", ty, "", []string{"write attribute"}, []string{"write block"}, nil)
		fc.optional = true
		t.expect(r, t.outcome(r, fc), name, "attributes", ty, ", optional", []string{"write attribute"}, []string{"write block"}, nil)
		if _, ok := ty.(*types.Pointer); ok {
			fc.present = false
			t.expect(r, t.outcome(r, fc), name, "attributes", ty, ", nil", nil, []string{"write attribute"}, nil)
		}
	}
}

func (t *tagCheck) decodeBlocks(r *round, name string, tys []types.Type) {
	for _, ty := range tys {
		_, isSlice := ty.(*types.Slice)
		_, isPtr := ty.(*types.Pointer)
		for _, n := range []int{0, 1, 2} {
			fc := fieldCase{role: "blocks", typ: ty, present: true, count: n}
			o := t.outcome(r, fc)
			when := fmt.Sprintf(", %d there", n)
			switch {
			case n == 0 && (isSlice || isPtr):
				t.expect(r, o, name, "blocks", ty, when, []string{"look up blocks", "set zero|set value"}, []string{"error", "decode block"}, nil)
			case n == 0 || n == 2 && !isSlice:
				t.expect(r, o, name, "blocks", ty, when, []string{"error"}, nil, nil)
			default:
				t.expect(r, o, name, "blocks", ty, when, []string{"decode block"}, []string{"error", "leave out blocks"}, nil)
				if sl, ok := ty.(*types.Slice); ok {
					if _, ok := sl.Elem().(*types.Pointer); ok {
						t.expect(r, o, name, "blocks", ty, when, []string{"set element"}, nil, nil)
					}
				}
				if isSlice || isPtr {
					t.expect(r, o, name, "blocks", ty, when, []string{"set value"}, nil, nil)
				}
			}
		}
	}
}

func (t *tagCheck) encodeBlocks(r *round, name string, tys []types.Type) {
	for _, ty := range tys {
		o := t.outcome(r, fieldCase{role: "blocks", typ: ty, present: true, count: 1})
		t.expect(r, o, name, "blocks", ty, "", []string{"write block"}, []string{"write attribute"}, nil)
	}
}

// labels: the labels go with the fields in the order of the fields.
func (t *tagCheck) labels() {
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg || f == t.read {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || t.role(ia.X) != "labels" {
					continue
				}
				t.c.Count("label uses", 1)
				l := innermost(f, b)
				if l == nil {
					t.c.Report("label", t.c.FuncName(f), ia, t.c.FuncName(f)+" uses one label field only")
					continue
				}
				// whatever else is indexed in the loop has the same index
				for lb := range l.blocks {
					for _, x := range lb.Instrs {
						if call, ok := x.(*ssa.Call); ok && isReflect(call, "Field") && len(call.Call.Args) == 2 {
							fr := &tagFrame{t: t, f: f, busy: map[ssa.Value]bool{}}
							if roles := fr.positionRoles(call.Call.Args[1], 0); !contains(roles, "labels") {
								t.c.Report("label", t.c.FuncName(f)+" field", call, t.c.FuncName(f)+" takes another field than that of the label")
							}
						}
						other, ok := x.(*ssa.IndexAddr)
						if !ok || other == ia || innermost(f, lb).header != l.header {
							continue
						}
						if _, lit := other.X.(*ssa.Alloc); lit {
							continue // arguments
						}
						if other.Index != ia.Index {
							t.c.Report("label", t.c.FuncName(f)+" order", ia, t.c.FuncName(f)+" pairs label fields and labels by different positions")
						}
					}
				}
				t.passed(f, l, ia)
				a := assume(f, func(v ssa.Value) constant.Value {
					if x := lenName(v); x != nil {
						if t.role(x) == "labels" || isLabelsOf(x) {
							return constant.MakeInt64(1)
						}
					}
					return nil
				})
				if !a.reach[b] {
					t.c.Report("label", t.c.FuncName(f)+" one", ia, t.c.FuncName(f)+" does not treat a single label")
				}
			}
		}
	}
	if t.c.counts["label uses"] == 0 {
		t.c.Report("anchor", "labels", nil, "no use of the label fields is found")
	}
}

// isLabelsOf: the labels of a block.
func isLabelsOf(v ssa.Value) bool {
	ld, ok := isLoad(v)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	return ok && isNamed(derefType(fa.X.Type()), hclPath, "Block") && fieldOf(fa.X.Type(), fa.Field) == "Labels"
}

// passed: no label field is left out.
func (t *tagCheck) passed(f *ssa.Function, l *loop, at ssa.Instruction) {
	for b := range l.blocks {
		for _, s := range b.Succs {
			if s == l.header && !at.Block().Dominates(b) {
				t.c.Report("label", t.c.FuncName(f)+" all", at, t.c.FuncName(f)+" passes over label fields")
			}
			if !l.blocks[s] && b != l.header {
				if _, panics := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !panics {
					t.c.Report("label", t.c.FuncName(f)+" all", at, t.c.FuncName(f)+" does not look at all label fields")
				}
			}
		}
	}
}

// impliesSchema: gives a schema and whether it is partial.
func impliesSchema(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 2 || !isPtrNamed(res.At(0).Type(), "hcl", "BodySchema") {
		return false
	}
	b, ok := res.At(1).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// whole: what happens in a function outside of loops.
func (t *tagCheck) whole(f *ssa.Function, fc fieldCase) *outcome {
	fr := t.enter(f, fc, nil, nil)
	o := &outcome{may: map[string]bool{}, must: map[string]bool{}, names: map[string][]framedName{}, at: map[string]ssa.Instruction{}}
	in := map[*ssa.BasicBlock]map[string]bool{}
	for _, b := range f.Blocks {
		if !fr.a.reach[b] || innermost(f, b) != nil {
			continue
		}
		in[b] = map[string]bool{}
		for _, x := range b.Instrs {
			fr.collect(x, in[b], o)
		}
		for w := range in[b] {
			o.may[w] = true
		}
	}
	for w := range o.may {
		if mustPass(f, fr.a, in, w) {
			o.must[w] = true
		}
	}
	return o
}

// remains: what is left of the body by reading part of it.
func (fr *tagFrame) remains(v ssa.Value) bool {
	v, fr = fr.arg(v)
	if fr.busy[v] {
		return true
	}
	fr.busy[v] = true
	defer delete(fr.busy, v)
	switch x := v.(type) {
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		return ok && call.Call.IsInvoke() && call.Call.Method.Name() == "PartialContent" && x.Index == 1
	case *ssa.Phi:
		any := false
		for _, e := range fr.a.edgesInto(x) {
			if !fr.remains(e) {
				return false
			}
			any = true
		}
		return any
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, w := range valuesIn(al) {
				if fr.remains(w) {
					return true
				}
			}
		}
	}
	return false
}

// remainder: what is left of the body goes to the field for the remainder, and
// only then is something left.
func (t *tagCheck) remainder() {
	hcl := t.c.ByPat["hcl"]
	body, attrs := hcl.Types.Scope().Lookup("Body"), hcl.Types.Scope().Lookup("Attributes")
	if body == nil || attrs == nil {
		return
	}
	found := 0
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg || f == t.read {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, a := range ci.Common().Args {
						fr := &tagFrame{t: t, f: f, busy: map[ssa.Value]bool{}}
						if isInt(a.Type()) && contains(fr.positionRoles(a, 0), "rest") {
							uses = true
						}
					}
				}
			}
		}
		if !uses {
			continue
		}
		found++
		st := types.NewStruct(nil, nil)
		for _, ty := range []types.Type{body.Type(), attrs.Type(), st, types.NewMap(types.Typ[types.String], types.Typ[types.String])} {
			o := t.whole(f, fieldCase{role: "rest", typ: ty, present: true})
			want := "decode body"
			switch {
			case types.Identical(ty, body.Type()):
				want = "set body"
			case types.Identical(ty, attrs.Type()):
				want = "set attributes"
			}
			t.c.Count("field types", 1)
			t.c.Obligation("%s, remainder of type %s: %v", t.c.FuncName(f), shortType(ty), sortedKeys(o.must))
			for _, w := range []string{"set body", "set attributes", "decode body"} {
				if w == want && !o.must[w] || w != want && o.may[w] {
					t.c.Report("rest", shortType(ty)+" "+w, f, fmt.Sprintf("%s: for a remainder of type %s, %s what is left of the body: %v", t.c.FuncName(f), shortType(ty), w, o.must[w]))
				}
			}
			if o.may["whole content"] || !o.may["partial content"] {
				t.c.Report("rest", "content", f, t.c.FuncName(f)+" does not leave what the schema does not name for the remainder")
			}
		}
		o := t.whole(f, fieldCase{role: "attributes", typ: st, present: true})
		if o.may["partial content"] || !o.may["whole content"] {
			t.c.Report("rest", "content", f, t.c.FuncName(f)+" leaves things unread although there is no field for the remainder")
		}
	}
	for _, f := range t.c.Funcs {
		if t.c.PkgOf(f) != goPkg || !impliesSchema(f) {
			continue
		}
		t.c.Count("schema functions", 1)
		for _, role := range []string{"rest", "attributes"} {
			fr := t.enter(f, fieldCase{role: role, typ: types.Typ[types.String], present: true}, nil, nil)
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || !fr.a.reach[b] {
					continue
				}
				v := ret.Results[1]
				if ld, ok := isLoad(v); ok {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						if vs := valuesIn(al); len(vs) > 0 {
							v = vs[len(vs)-1]
						}
					}
				}
				if ex, ok := v.(*ssa.Extract); ok {
					if call, ok := ex.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil && impliesSchema(call.Call.StaticCallee()) {
						continue
					}
				}
				if k := fr.a.value(v); k == nil || constant.BoolVal(k) != (role == "rest") {
					t.c.Report("rest", "partial", At(ret.Pos()), t.c.FuncName(f)+" does not say that the schema is partial exactly when there is a field for the remainder")
				}
			}
		}
	}
	if found == 0 {
		t.c.Report("anchor", "rest", nil, "nothing uses the field for the remainder")
	}
}
