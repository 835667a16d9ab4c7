package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A simulation follows a small state machine through a function, keeping what
// the facts engine knows separately for every state of the machine, so that
// conditions that decide about a state also decide about later tests of the
// same condition.
type simulation struct {
	a *ffunc
	// start is the machine's state on entry.
	start string
	// event gives the states after an instruction; none when the path ends.
	event func(st *fstate, s string, in ssa.Instruction) []string
	// branch, if set, can change the state along a branch.
	branch func(st *fstate, s string, iff *ssa.If, truth bool) []string
	limit  int

	in       map[*ssa.BasicBlock]map[string]*fstate
	overflow bool
}

func (m *simulation) run() {
	a := m.a
	if m.limit == 0 {
		m.limit = 48
	}
	m.in = map[*ssa.BasicBlock]map[string]*fstate{}
	if len(a.f.Blocks) == 0 {
		return
	}
	a.paths = true
	defer func() { a.paths = false }()
	type item struct {
		b *ssa.BasicBlock
		s string
	}
	var work []item
	add := func(b *ssa.BasicBlock, s string, st *fstate) {
		t := m.in[b]
		if t == nil {
			t = map[string]*fstate{}
			m.in[b] = t
		}
		old, ok := t[s]
		if !ok && len(t) >= m.limit {
			m.overflow = true
			return
		}
		n := joinStates(old, st)
		if ok && n.equal(old) {
			return
		}
		t[s] = n
		for _, w := range work {
			if w.b == b && w.s == s {
				return
			}
		}
		work = append(work, item{b, s})
	}
	entry := a.in[a.f.Blocks[0]]
	if entry == nil {
		entry = newState()
	}
	add(a.f.Blocks[0], m.start, entry)
	for budget := 60000; len(work) > 0; budget-- {
		if budget < 0 {
			m.overflow = true
			return
		}
		w := work[0]
		work = work[1:]
		m.block(w.b, w.s, m.in[w.b][w.s], nil, add)
	}
}

// block runs one block from one state.
func (m *simulation) block(b *ssa.BasicBlock, s string, st *fstate, visit func(st *fstate, s string, in ssa.Instruction), add func(b *ssa.BasicBlock, s string, st *fstate)) {
	a := m.a
	type pair struct {
		s  string
		st *fstate
	}
	cur := []pair{{s, st.clone()}}
	for _, in := range b.Instrs {
		var next []pair
		for _, p := range cur {
			if visit != nil {
				visit(p.st, p.s, in)
			}
			ss := m.event(p.st, p.s, in)
			for i, s := range ss {
				st := p.st
				if i < len(ss)-1 {
					st = st.clone()
				}
				if st = a.step(st, in); st != nil {
					next = append(next, pair{s, st})
				}
			}
		}
		cur = next
	}
	if add == nil {
		return
	}
	for _, p := range cur {
		used := map[*ssa.BasicBlock]int{}
		for i, s := range b.Succs {
			nth := used[s]
			used[s]++
			es := p.st
			states := []string{p.s}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if m.branch != nil {
					states = m.branch(p.st, p.s, iff, i == 0)
				}
				es = a.assume(p.st.clone(), iff.Cond, i == 0)
			}
			if es == nil {
				continue
			}
			j := -1
			for k, q := range s.Preds {
				if q == b {
					if nth == 0 {
						j = k
						break
					}
					nth--
				}
			}
			es = a.phis(es, s, j)
			for _, ns := range states {
				add(s, ns, es)
			}
		}
	}
}

// walk visits every instruction with every state it can be reached in.
func (m *simulation) walk(cb func(st *fstate, s string, in ssa.Instruction)) {
	m.a.paths = true
	defer func() { m.a.paths = false }()
	for _, b := range m.a.f.Blocks {
		var states []string
		for s := range m.in[b] {
			states = append(states, s)
		}
		sort.Strings(states)
		for _, s := range states {
			m.block(b, s, m.in[b][s], cb, nil)
		}
	}
}
