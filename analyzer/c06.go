package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "no exported operation may write (directly or through any callee) to memory reachable from a parameter, receiver or captured variable, unless that parameter is a declared destination", runC06)
	register("C07", "no function that can run after package initialisation may write to memory reachable from a package-level variable", runC07)
}

// effectsOf computes the effect summaries once per run.
func (c *Ctx) effectsOf() *effects {
	if c.Prog.eff == nil {
		c.Prog.eff = computeEffects(c.Prog)
	}
	return c.Prog.eff
}

// c06Dest lists the parameters an operation is there to change: type or
// function, parameter name ("" for the receiver), and why.
var c06Dest = []struct{ fn, param, why string }{
	{"(*hclparse.Parser).", "recv", "the parser records the files it has parsed"},
	{"(*hcl.RangeScanner).Scan", "recv", "scanner state"},
	{"(hcl.Diagnostics).Append", "recv", "append helper with the semantics of append"},
	{"(hcl.Diagnostics).Extend", "recv", "append helper with the semantics of append"},
	{").UnmarshalJSON", "recv", "decoding target"},
	{").UnmarshalBinary", "recv", "decoding target"},
	{").UnmarshalText", "recv", "decoding target"},
	{"gohcl.DecodeBody", "2", "decoding target"},
	{"gohcl.DecodeExpression", "2", "decoding target"},
	{"gohcl.EncodeIntoBody", "1", "the body to write to"},
	{"(*hclwrite.Body).Append", "recv", "edit operation"},
	{"(*hclwrite.Body).SetAttribute", "recv", "edit operation"},
	{"(*hclwrite.Body).Clear", "recv", "edit operation"},
	{"(*hclwrite.Body).Remove", "recv", "edit operation"},
	{"(*hclwrite.Expression).RenameVariablePrefix", "recv", "edit operation"},
	{".BuildTokens", "1", "appends to the given tokens"},
	{"hcl/hclsyntax.Walk", "1", "the caller's walker keeps its own state"},
	{"(*hcl/hclsyntax.variablesWalker).", "recv", "walker state, private to one call of Variables"},
}

// c06State lists state that reading operations may touch, and which property
// covers it instead.
var c06State = []struct{ what, why string }{
	{"AnonSymbolExpr.values", "placeholder of a splat, per evaluation and under a lock (C26)"},
	{"Parser.files", "file cache of the parser that an include resolver was given"},
}

// c06OutputOnly: writing a file lays out its tokens, which only changes the
// spacing recorded in them (C12).
func c06Allowed(root, param, what string) (string, bool) {
	for _, s := range c06State {
		if strings.HasSuffix(what, s.what) {
			return s.why, true
		}
	}
	for _, d := range c06Dest {
		if strings.Contains(root, d.fn) && d.param == param {
			return d.why, true
		}
	}
	if what == "Token.SpacesBefore" && strings.HasPrefix(root, "(*hclwrite.File).") {
		return "laying out the file before writing it (C12)", true
	}
	return "", false
}

// c06Root: is f an operation users can call?
func c06Root(c *Ctx, f *ssa.Function) bool {
	if f.Object() == nil || f.Parent() != nil || !token.IsExported(f.Name()) || isFuzz(c.PkgOf(f)) {
		return false
	}
	if pk := c.ByPat[c.PkgOf(f)]; pk == nil || pk.Name == "main" {
		return false
	}
	recv := f.Signature.Recv()
	if recv == nil {
		return true
	}
	t := recv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Exported() {
		return true
	}
	// a method that an exported interface of the repository asks for
	for _, in := range c.named {
		it, ok := in.Underlying().(*types.Interface)
		if !ok || !in.Obj().Exported() || it.NumMethods() == 0 {
			continue
		}
		if !types.Implements(n, it) && !types.Implements(types.NewPointer(n), it) {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == f.Name() {
				return true
			}
		}
	}
	return false
}

func runC06(c *Ctx) {
	e := c.effectsOf()
	for _, f := range c.Funcs {
		s := e.sums[f]
		if s == nil {
			continue
		}
		c.Count("functions summarised", 1)
		if f.Parent() != nil {
			c06Closure(c, e, f, s)
		}
		if !c06Root(c, f) {
			continue
		}
		c.Count("operations", 1)
		root := c.FuncName(f)
		n := 0
		for _, ef := range s.sortedEffects() {
			if ef.on.k != 'P' {
				continue
			}
			param := fmt.Sprint(ef.on.i)
			what := "parameter " + f.Params[ef.on.i].Name()
			if f.Signature.Recv() != nil && ef.on.i == 0 {
				param = "recv"
				what = "its receiver"
			}
			if why, ok := c06Allowed(root, param, ef.what); ok {
				c.Exception(fmt.Sprintf("%s may write %s: %s", root, what, why))
				continue
			}
			n++
			c.Report("write", fmt.Sprintf("%s writes %s in %s", root, ef.what, ef.in), At(ef.pos),
				fmt.Sprintf("%s changes %s (%s), reachable from %s", root, ef.what, ef.in, what))
		}
		if n == 0 {
			c.Obligation(root + " leaves its inputs alone")
		}
	}
	c.Floor("operations", 220)
	c.Floor("functions summarised", 500)
	c.Assume("functions outside the repository do not write to their arguments, except the listed mutators and methods with pointer receivers")
	c.Assume("values of the cty library are immutable")
}

// c06Closure: a function value that outlives its creator must not write to the
// variables it captured, since it may run any number of times, anywhere.
func c06Closure(c *Ctx, e *effects, f *ssa.Function, s *summary) {
	if pk := c.ByPat[c.PkgOf(f)]; pk == nil || pk.Name == "main" || isFuzz(c.PkgOf(f)) {
		return
	}
	if st := e.states[f.Parent()]; st == nil || !st.escaped[f] {
		return
	}
	c.Count("escaping function values", 1)
	n := 0
	for _, ef := range s.sortedEffects() {
		if ef.on.k != 'F' || !capturedAlloc(f, ef.on.i) && ef.on.d == 0 {
			continue
		}
		if _, ok := c06Allowed(c.FuncName(f), "", ef.what); ok {
			continue
		}
		if ef.in == c.FuncName(f) && lockedAt(f, ef.pos) {
			c.Exception(c.FuncName(f) + " may write " + ef.what + ": holds a lock")
			continue
		}
		n++
		c.Report("captured", fmt.Sprintf("%s writes %s in %s", c.FuncName(f), ef.what, ef.in), At(ef.pos),
			fmt.Sprintf("%s can run after %s has returned and changes %s, which all its runs share", c.FuncName(f), c.FuncName(f.Parent()), ef.what))
	}
	if n == 0 {
		c.Obligation(c.FuncName(f) + " leaves captured variables alone")
	}
}

// lockedAt: is the store at pos dominated by a call that takes a lock?
func lockedAt(f *ssa.Function, pos token.Pos) bool {
	var locks []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && (g.String() == "(*sync.Mutex).Lock" || g.String() == "(*sync.RWMutex).Lock") {
					locks = append(locks, in)
				}
			}
		}
	}
	ok := false
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Call:
			default:
				continue
			}
			if in.Pos() != pos {
				continue
			}
			held := false
			for _, l := range locks {
				if l.Block() == b {
					for j := 0; j < i; j++ {
						held = held || b.Instrs[j] == l
					}
				} else if l.Block().Dominates(b) {
					held = true
				}
			}
			if !held {
				return false
			}
			ok = true
		}
	}
	return ok
}

func capturedAlloc(f *ssa.Function, i int) bool { return i < len(f.FreeVars) }

// c07Global lists calls that change state of the whole process.
var c07Global = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true,
	"log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true,
	"encoding/gob.Register": true, "encoding/gob.RegisterName": true, "math/rand.Seed": true,
	"runtime.GOMAXPROCS": true, "runtime/debug.SetGCPercent": true,
	"os/signal.Notify": true, "expvar.Publish": true,
}

func runC07(c *Ctx) {
	e := c.effectsOf()
	initOnly := c.initOnly()
	globals := map[*ssa.Global]bool{}
	type key struct{ g, what, in string }
	seen := map[key]bool{}
	for _, f := range c.Funcs {
		if pk := c.ByPat[c.PkgOf(f)]; pk == nil || pk.Name == "main" || isFuzz(c.PkgOf(f)) {
			continue
		}
		if initOnly[f] {
			c.Count("functions only run at initialisation", 1)
			continue
		}
		c.Count("functions that can run later", 1)
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && c07Global[g.String()] {
						n++
						c.Report("process", fmt.Sprintf("%s calls %s", c.FuncName(f), g), At(in.Pos()), "changes state of the whole process")
					}
				}
				var rands [16]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && c.isRepoPath(g.Pkg.Pkg.Path()) {
						globals[g] = true
						c.Count("uses of package variables", 1)
					}
				}
			}
		}
		s := e.sums[f]
		if s == nil {
			continue
		}
		for _, ef := range s.sortedEffects() {
			if ef.on.k != 'G' {
				continue
			}
			n++
			g := ef.on.v.(*ssa.Global)
			k := key{g.String(), ef.what, ef.in}
			if seen[k] {
				continue
			}
			seen[k] = true
			c.Report("global", fmt.Sprintf("%s writes %s of package variable %s", ef.in, ef.what, g.String()), At(ef.pos),
				fmt.Sprintf("%s changes %s, reachable from the package variable %s", ef.in, ef.what, g.Name()))
		}
		if n == 0 {
			c.Obligation(c.FuncName(f) + " leaves package variables alone")
		}
	}
	c.Count("package variables used", len(globals))
	c.Floor("functions that can run later", 450)
	c.Floor("package variables used", 20)
	c.Assume("functions outside the repository do not write to their arguments, except the listed mutators and methods with pointer receivers")
}

// initOnly gives the functions that only run while packages are initialised:
// init functions and what only they and variable initialisers call.
func (c *Ctx) initOnly() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if strings.HasPrefix(f.Name(), "init#") {
			r[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range c.Funcs {
			if r[f] || token.IsExported(f.Name()) && f.Parent() == nil {
				continue
			}
			if f.Parent() != nil && !r[f.Parent()] {
				continue
			}
			calls := c.Callers(f)
			ok := len(calls) > 0 || f.Parent() != nil
			for _, g := range calls {
				if !r[g] && g.Synthetic != "package initializer" {
					ok = false
				}
			}
			if ok && !c.addressTaken(f) {
				r[f] = true
				changed = true
			}
		}
	}
	return r
}
