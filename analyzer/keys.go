package main

import (
	"golang.org/x/tools/go/ssa"
)

// ownKey: the look-up uses a key that was taken from the map itself, directly
// or through a list of names.
func ownKey(l *ssa.Lookup) bool {
	return keysOf(l.Index, l.X, map[ssa.Value]bool{})
}

func keysOf(v, m ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !keysOf(e, m, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return elemsAreKeys(ia.X, m, seen)
		}
		if vals, ok := storedIn(x.X); ok {
			for _, s := range vals {
				if !keysOf(s, m, seen) {
					return false
				}
			}
			return len(vals) > 0
		}
	case *ssa.Extract:
		n, ok := x.Tuple.(*ssa.Next)
		if !ok || x.Index != 1 {
			return false
		}
		r, ok := n.Iter.(*ssa.Range)
		if !ok {
			return false
		}
		if sameValue(r.X, m) {
			return true
		}
		// a map that only got keys of the other one
		mk, ok := plainValue(r.X).(*ssa.MakeMap)
		if !ok {
			return false
		}
		n2 := 0
		for _, b := range mk.Parent().Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.MapUpdate:
					if plainValue(y.Map) != ssa.Value(mk) {
						continue
					}
					n2++
					if !keysOf(y.Key, m, seen) {
						return false
					}
				case ssa.CallInstruction:
					if _, ok := y.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					for _, a := range y.Common().Args {
						if g := y.Common().StaticCallee(); plainValue(a) == ssa.Value(mk) && (g == nil || g.Pkg == mk.Parent().Pkg) {
							return false
						}
					}
				}
			}
		}
		return n2 > 0
	}
	return false
}

// elemsAreKeys: all elements of the list are keys of the map.
func elemsAreKeys(v, m ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && !keysOf(st.Val, m, seen) {
					return false
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		return elemsAreKeys(x.X, m, seen)
	case *ssa.Alloc:
		return true // an array, whose elements were looked at above
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !elemsAreKeys(e, m, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		for _, a := range x.Call.Args {
			if !elemsAreKeys(a, m, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		vals, ok := storedIn(x.X)
		if !ok || len(vals) == 0 {
			return false
		}
		for _, s := range vals {
			if !elemsAreKeys(s, m, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// storedIn: everything that is stored in a local variable, also by function
// literals.
func storedIn(addr ssa.Value) ([]ssa.Value, bool) {
	addr = capturedFrom(addr)
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != v {
					return false
				}
				out = append(out, y.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b == v && !visit(y.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(al) {
		return nil, false
	}
	return out, true
}

// capturedFrom: the variable a function literal captured.
func capturedFrom(v ssa.Value) ssa.Value {
	for {
		fv, ok := v.(*ssa.FreeVar)
		if !ok || fv.Parent().Parent() == nil {
			return v
		}
		found := false
		for _, b := range fv.Parent().Parent().Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(fv.Parent()) || found {
					continue
				}
				for i, w := range fv.Parent().FreeVars {
					if w == fv {
						v, found = mc.Bindings[i], true
					}
				}
			}
		}
		if !found {
			return v
		}
	}
}

// plainValue: the one value a local variable has.
func plainValue(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			vals, ok := storedIn(x.X)
			if !ok || len(vals) != 1 {
				return v
			}
			v = vals[0]
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FreeVar:
			w := capturedFrom(x)
			if w == v {
				return v
			}
			v = w
		default:
			return v
		}
	}
	return v
}

func sameValue(a, b ssa.Value) bool {
	a, b = plainValue(a), plainValue(b)
	if a == b {
		return true
	}
	u, ok := isLoad(a)
	w, ok2 := isLoad(b)
	if ok && ok2 {
		x, ok := u.X.(*ssa.FieldAddr)
		y, ok2 := w.X.(*ssa.FieldAddr)
		return ok && ok2 && x.Field == y.Field && sameValue(x.X, y.X)
	}
	x, ok := a.(*ssa.Field)
	y, ok2 := b.(*ssa.Field)
	return ok && ok2 && x.Field == y.Field && sameValue(x.X, y.X)
}
