package main

import (
	"fmt"
	"strings"
)

// Preparing queries: skolemisation of goals and ground instances of assumed
// quantifiers.

func (e *Exec) hasQuant(st *State) bool {
	for _, t := range st.pc {
		if t.quant {
			return true
		}
	}
	return false
}

// negGoal returns the negation of goal with universal quantifiers of the goal
// replaced by fresh constants.
func (e *Exec) negGoal(goal *Term) *Term {
	return e.skolem(e.c.Not(goal), true)
}

// skolem removes quantifiers of t that are existential in positive position.
// pos: t is asserted (true) or its negation is.
func (e *Exec) skolem(t *Term, pos bool) *Term {
	c := e.c
	if !t.quant {
		return t
	}
	switch t.op {
	case "not":
		return c.Not(e.skolem(t.args[0], !pos))
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, e.skolem(a, pos))
		}
		if t.op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "forall":
		if pos {
			return t
		}
		if k, ok := e.skolems[t]; ok {
			return k
		}
		m := map[*Term]*Term{}
		for _, v := range t.args[:len(t.args)-1] {
			m[v] = c.Fresh("sk", v.sort)
		}
		r := c.Subst(t.args[len(t.args)-1], m)
		r = e.skolem(r, pos)
		e.skolems[t] = r
		return r
	}
	return t
}

// prepQuery builds the path condition and extra assertions for a query about
// cond.  Without quant, quantified assumptions are replaced by instances.
func (e *Exec) prepQuery(st *State, cond *Term, quant bool) ([]*Term, []*Term) {
	if !e.hasQuant(st) {
		e.reunfold(cond, st)
		return st.pc, []*Term{cond}
	}
	var pc, qs []*Term
	for _, t := range st.pc {
		if t.quant {
			t2 := e.skolem(t, true)
			if !t2.quant {
				pc = append(pc, t2)
				continue
			}
			qs = append(qs, t2)
			if !quant {
				continue
			}
			pc = append(pc, t2)
			continue
		}
		pc = append(pc, t)
	}
	extra := []*Term{cond}
	ground := append(append([]*Term{}, pc...), cond)
	insts := e.instances(st, ground, qs, cond)
	for _, t := range insts {
		e.reunfold(t, st)
	}
	e.reunfold(cond, st)
	return pc, append(extra, insts...)
}

// prepGround leaves the quantified assumptions out.
func (e *Exec) prepGround(st *State, cond *Term) ([]*Term, []*Term) {
	var pc []*Term
	for _, t := range st.pc {
		if t.quant {
			if t = e.skolem(t, true); t.quant {
				continue
			}
		}
		pc = append(pc, t)
	}
	e.reunfold(cond, st)
	return pc, []*Term{cond}
}

// instances instantiates the quantified assumptions at index terms.
func (e *Exec) instances(st *State, ground, qs []*Term, cond *Term) []*Term {
	c := e.c
	var out []*Term
	have := map[*Term]bool{}
	// index terms by array base
	type key struct{ arr *Term }
	idx := map[*Term][]*Term{}
	apps := map[string][]*Term{}
	all := []*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.open {
			return
		}
		seen[t] = true
		if t.op == "el" {
			idx[t.args[0]] = append(idx[t.args[0]], t.args[1])
			all = append(all, t.args[1])
		}
		if t.op == "sym" && t.sort == SBV64 && len(t.name) > 2 && t.name[:2] == "sk" {
			all = append(all, t)
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == "app" {
			if strings.HasPrefix(t.name, "spec.") {
				for j, a := range t.args {
					if a.sort == SBV64 {
						k := holeKey(t, j)
						apps[k] = append(apps[k], a)
					}
				}
			}
			for _, f := range c.facts[t] {
				walk(f)
			}
		}
	}
	walk(cond)
	n := len(all)
	for i := len(ground) - 1; i >= 0; i-- {
		walk(ground[i])
		if len(all) > 60 {
			break
		}
	}
	_ = n
	for round := 0; round < 2; round++ {
		var fresh []*Term
		for _, q := range qs {
			e.instQ(q, idx, apps, all, func(t *Term) {
				if !have[t] && !t.isTrue() && len(out) < 200 {
					have[t] = true
					out = append(out, t)
					fresh = append(fresh, t)
				}
			})
		}
		if len(fresh) == 0 {
			break
		}
		if round == 0 {
			for _, t := range fresh {
				walk(t)
			}
		}
	}
	return out
}

// instQ emits instances of the (positively occurring) quantifiers in q.
func (e *Exec) instQ(q *Term, idx map[*Term][]*Term, apps map[string][]*Term, all []*Term, emit func(*Term)) {
	c := e.c
	var fs []*Term
	var find func(t *Term, pos bool)
	find = func(t *Term, pos bool) {
		if !t.quant {
			return
		}
		switch t.op {
		case "not":
			find(t.args[0], !pos)
		case "and", "or":
			for _, a := range t.args {
				find(a, pos)
			}
		case "forall":
			if pos && len(t.args) == 2 {
				fs = append(fs, t)
			}
		}
	}
	find(q, true)
	for _, f := range fs {
		v, body := f.args[0], f.args[1]
		cands := map[*Term]bool{}
		matched := false
		// from element patterns
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || !t.open {
				return
			}
			seen[t] = true
			if t.op == "el" && t.args[1].open {
				rest := c.BVSub(t.args[1], v)
				if !rest.open {
					for _, i := range idx[t.args[0]] {
						if !i.open {
							cands[c.BVSub(i, rest)] = true
						}
					}
				}
			}
			if t.op == "app" && strings.HasPrefix(t.name, "spec.") {
				for j, a := range t.args {
					if !a.open || a.sort != SBV64 {
						continue
					}
					if rest := c.BVSub(a, v); !rest.open {
						for _, i := range apps[holeKey(t, j)] {
							cands[c.BVSub(i, rest)] = true
							matched = true
						}
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(body)
		if len(cands) < 12 && !matched {
			for _, i := range all {
				if len(cands) >= 24 {
					break
				}
				cands[i] = true
			}
		}
		for _, i := range sortedTerms(cands) {
			inst := c.Subst(body, map[*Term]*Term{v: i})
			// replace the quantifier by the instance inside q
			emit(c.Subst(q, map[*Term]*Term{f: inst}))
		}
	}
}

// holeKey identifies an application up to argument j.
func holeKey(t *Term, j int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%d", t.name, j)
	for k, a := range t.args {
		if k != j {
			fmt.Fprintf(&b, "|%d", a.id)
		}
	}
	return b.String()
}
