package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop (loops with the same header are merged).
type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (l *loop) has(in ssa.Instruction) bool {
	return in != nil && in.Block() != nil && l.blocks[in.Block()]
}

// definedIn: is the value computed by an instruction of the loop?
func (l *loop) definedIn(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.has(in)
}

// loopsOf gives the natural loops of a function.
func loopsOf(f *ssa.Function) []*loop {
	byHeader := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHeader[h]
			if l == nil {
				l = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// reaches: can execution get from just after "from" to "to" without executing
// "avoid"?
func reaches(from, to, avoid ssa.Instruction) bool {
	return reachesAny(from, func(in ssa.Instruction) bool { return in == to }, func(in ssa.Instruction) bool { return in == avoid })
}

// reachesAny: can execution get from just after "from" to an instruction
// satisfying hit without executing one satisfying stop?
func reachesAny(from ssa.Instruction, hit, stop func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if hit(in) {
				return true
			}
			if stop(in) {
				return false
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if walk(s, 0) {
				return true
			}
		}
		return false
	}
	return walk(from.Block(), instrIndex(from)+1)
}

// strip removes conversions that keep the value's identity.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// isBuiltin reports a call of the named builtin.
func isBuiltin(in ssa.Instruction, name string) (*ssa.Call, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return c, ok && b.Name() == name
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isLoad(v ssa.Value) (*ssa.UnOp, bool) {
	u, ok := v.(*ssa.UnOp)
	return u, ok && u.Op == token.MUL
}
