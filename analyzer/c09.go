package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "every construction of a diagnostic must, before the diagnostic is used, be given a valid severity (error severity unless the operation goes on unharmed) and a non-empty summary, and a subject whenever it is given a context", runC09)
}

// Places that may warn: the operation goes on and gives the result that was
// asked for.
var c09Warn = []struct{ fn, why string }{
	{"cmd/hcldec.decodeDefaultSpec", "a default block with a single specification is redundant but works"},
	{"cmd/hclspecsuite.decodeJSONDiagnostics", "reproduces the severity another process reported"},
}

func runC09(c *Ctx) {
	for _, f := range c.Funcs {
		if isFuzz(c.PkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if isNamed(derefType(in.Type()), hclPath, "Diagnostic") {
						c.diagLiteral(f, in)
					}
				case *ssa.Store:
					// severities assigned to existing diagnostics
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isPtrTo(fa.X.Type(), hclPath, "Diagnostic") {
						if fieldName(fa) == "Diagnostic.Severity" {
							if _, own := fa.X.(*ssa.Alloc); !own {
								c.Count("severity assignments", 1)
								c.severity(f, in)
							}
						}
					}
				}
			}
		}
	}
	c.Floor("diagnostics constructed", 150)
	c.Assume("a summary computed at run time from other text is not empty")
}

func (c *Ctx) diagLiteral(f *ssa.Function, a *ssa.Alloc) {
	stores := map[string][]*ssa.Store{}
	var uses []ssa.Instruction
	var visit func(v ssa.Value)
	copied := false
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.X != v {
					continue
				}
				name := fieldName(r)
				for _, rr := range *r.Referrers() {
					switch rr := rr.(type) {
					case *ssa.Store:
						if rr.Addr == ssa.Value(r) {
							stores[name] = append(stores[name], rr)
							continue
						}
						uses = append(uses, rr)
					case *ssa.DebugRef:
					default:
						// a part of it is read
					}
				}
			case *ssa.Store:
				if r.Addr == v {
					copied = true // starts as a copy of another diagnostic
				} else {
					uses = append(uses, r)
				}
			case *ssa.DebugRef:
			default:
				uses = append(uses, r)
			}
		}
	}
	visit(a)
	if copied || len(uses) == 0 && len(stores) == 0 {
		return
	}
	c.Count("diagnostics constructed", 1)
	what := c.diagSummary(stores["Diagnostic.Summary"])
	c.Obligation("%s: diagnostic %s", c.FuncName(f), what)
	key := c.FuncName(f) + " " + what
	// given on every way from the construction to a use
	given := func(field string) bool {
		st := stores[field]
		for _, u := range uses {
			if reachesAny(a, func(in ssa.Instruction) bool { return in == u }, func(in ssa.Instruction) bool {
				for _, s := range st {
					if in == ssa.Instruction(s) {
						return true
					}
				}
				return false
			}) {
				return false
			}
		}
		return len(st) > 0
	}
	if !given("Diagnostic.Severity") {
		c.Report("severity", key, a, "diagnostic is constructed without a severity")
	}
	for _, s := range stores["Diagnostic.Severity"] {
		c.severityValue(f, s, key)
	}
	if !given("Diagnostic.Summary") {
		c.Report("summary", key, a, "diagnostic is constructed without a summary")
	}
	for _, s := range stores["Diagnostic.Summary"] {
		if emptyString(s.Val, 0) {
			c.Report("summary", key, s, "diagnostic gets an empty summary")
		}
	}
	hasCtx := false
	for _, s := range stores["Diagnostic.Context"] {
		if !isNilConst(s.Val) {
			hasCtx = true
		}
	}
	if hasCtx {
		c.Count("diagnostics with context", 1)
		if !given("Diagnostic.Subject") {
			c.Report("context", key, a, "diagnostic has a context but no subject")
		}
		for _, s := range stores["Diagnostic.Subject"] {
			if c.mayBeNilRange(s.Val, map[ssa.Value]bool{}) {
				c.Report("context", key, s, "diagnostic has a context but its subject can be missing")
			}
		}
	}
}

func (c *Ctx) diagSummary(ss []*ssa.Store) string {
	for _, s := range ss {
		if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
			return k.Value.ExactString()
		}
		if call, ok := s.Val.(*ssa.Call); ok && len(call.Call.Args) > 0 {
			if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				return k.Value.ExactString()
			}
		}
	}
	return "(computed summary)"
}

func (c *Ctx) severity(f *ssa.Function, s *ssa.Store) {
	c.severityValue(f, s, c.FuncName(f)+" assignment")
}

func (c *Ctx) severityValue(f *ssa.Function, s *ssa.Store, key string) {
	var visit func(v ssa.Value, seen map[ssa.Value]bool)
	visit = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			n := int64(0)
			if x.Value != nil {
				n, _ = constant.Int64Val(x.Value)
			}
			switch n {
			case 1:
			case 2:
				for _, e := range c09Warn {
					if c.Within(f, e.fn) {
						c.Exception("warning in " + e.fn + ": " + e.why)
						return
					}
				}
				c.Report("warning", key, s, "a problem is reported with warning severity, so callers take the operation as successful")
			default:
				c.Report("severity", key, s, fmt.Sprintf("diagnostic gets the invalid severity %d", n))
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e, seen)
			}
		case *ssa.Parameter:
			// judged where the value comes from
			for i, p := range x.Parent().Params {
				if p == x {
					for _, call := range c.callSites(x.Parent()) {
						if i < len(call.Args) {
							visit(call.Args[i], seen)
						}
					}
				}
			}
		}
	}
	visit(s.Val, map[ssa.Value]bool{})
}

// callSites lists the static calls of a function in the repository.
func (p *Prog) callSites(f *ssa.Function) []*ssa.CallCommon {
	var out []*ssa.CallCommon
	for _, g := range p.AllFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					out = append(out, ci.Common())
				}
			}
		}
	}
	return out
}

// emptyString: the value can be the empty string.
func emptyString(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if emptyString(e, depth+1) {
				return true
			}
		}
	case *ssa.BinOp:
		return emptyString(x.X, depth+1) && emptyString(x.Y, depth+1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "fmt.Sprintf" {
			return emptyString(x.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if u, ok := isLoad(x); ok {
			if a, ok := u.X.(*ssa.Alloc); ok {
				// a variable that is never assigned
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						return false
					}
				}
				return !capturedByClosure(a)
			}
		}
	}
	return false
}

// mayBeNilRange: can the range pointer be nil?
func (c *Ctx) mayBeNilRange(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.mayBeNilRange(e, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		for i, p := range f.Params {
			if p != x {
				continue
			}
			if o, ok := f.Object().(*types.Func); ok && o.Exported() && f.Signature.Recv() == nil {
				return true
			}
			for _, call := range c.callSites(f) {
				if i < len(call.Args) && c.mayBeNilRange(call.Args[i], seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && c.InRepo(f) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 && c.mayBeNilRange(r.Results[0], seen) {
						return true
					}
				}
			}
		}
	case *ssa.UnOp:
		if u, ok := isLoad(x); ok {
			if a, ok := u.X.(*ssa.Alloc); ok {
				init := false
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						init = true
						if c.mayBeNilRange(s.Val, seen) {
							return true
						}
					}
				}
				return !init && !capturedByClosure(a)
			}
		}
	}
	return false
}
