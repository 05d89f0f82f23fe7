package main

// Loops: bounded unrolling when the exit is decided, otherwise invariants
// (automatic candidates and templates, Houdini).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unrollExceeded struct {
	b  *ssa.BasicBlock
	fn *ssa.Function
}

const defaultUnroll = 12

func (e *Exec) unrollLimit(fr *Frame) int {
	if e.unrollN > 0 {
		return e.unrollN
	}
	return defaultUnroll
}

// execLoop enters a loop from outside.
func (e *Exec) execLoop(fr *Frame, st *State, prev *ssa.BasicBlock, lp *loopInfo, stop *ssa.BasicBlock) []exit {
	if !e.noUnroll[lp.header] && e.unrollWorth(fr, st, prev, lp) {
		if ex, ok := e.tryUnroll(fr, st, prev, lp, stop); ok {
			return ex
		}
		e.noUnroll[lp.header] = true
	}
	return e.invariantLoop(fr, st, prev, lp, stop)
}

type saved struct {
	obls, covers, stack, harness, frames, logs, depth int
	specDepth                                         int
	curPanic                                          *panicCtx
	contracts, inl                                    map[string]bool
}

func (e *Exec) save() saved {
	return saved{len(e.obls), len(e.covers), len(e.stack), len(e.harness), len(e.frames), len(e.logs), e.depth, e.spec.depth, e.p.curPanic, nil, nil}
}

func (e *Exec) restore(s saved) {
	e.obls = e.obls[:s.obls]
	e.covers = e.covers[:s.covers]
	e.stack = e.stack[:s.stack]
	e.harness = e.harness[:s.harness]
	e.frames = e.frames[:s.frames]
	e.logs = e.logs[:s.logs]
	e.depth = s.depth
	e.spec.depth = s.specDepth
	e.p.curPanic = s.curPanic
}

// unrollWorth: a quick look whether the loop is obviously unbounded.
func (e *Exec) unrollWorth(fr *Frame, st *State, prev *ssa.BasicBlock, lp *loopInfo) bool {
	if e.unrollN > 0 {
		return true
	}
	// header compares something with the length of a symbolic slice?
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return !e.p.hasTemplates(fr.fn)
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return !e.p.hasTemplates(fr.fn)
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		t := e.outsideValue(fr, lp, v)
		if t == nil {
			continue
		}
		if t.op == "bv" {
			return true
		}
		if t.sort.width() > 0 && e.feasible(st, e.c.Ult(e.c.BVc(t.sort.width(), uint64(e.unrollLimit(fr))), t)) {
			return false
		}
	}
	return true
}

// hasTemplates: are there invariants written for the loops of fn?
func (p *Program) hasTemplates(fn *ssa.Function) bool {
	for _, li := range p.invs {
		if li.for_ == fn.Name() {
			return true
		}
	}
	return false
}

// outsideValue evaluates v if it does not depend on the loop.
func (e *Exec) outsideValue(fr *Frame, lp *loopInfo, v ssa.Value) *Term {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return nil
		}
		t, _ := e.constVal(c).(*Term)
		return t
	}
	if in, ok := v.(ssa.Instruction); ok && lp.body[in.Block()] {
		// len of an outside slice computed in the header
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := call.Call.Args[0]
				if ai, ok := a.(ssa.Instruction); ok && lp.body[ai.Block()] {
					return nil
				}
				if val, ok := fr.env[a]; ok {
					if s, ok := val.(*SliceV); ok {
						return s.len
					}
					if t, ok := val.(*Term); ok && isString(a.Type()) {
						return e.c.SLen(t)
					}
				}
			}
		}
		return nil
	}
	t, _ := fr.env[v].(*Term)
	return t
}

func (e *Exec) tryUnroll(fr *Frame, st *State, prev *ssa.BasicBlock, lp *loopInfo, stop *ssa.BasicBlock) (ex []exit, ok bool) {
	sv := e.save()
	f2 := fr.clone()
	if f2.visits == nil {
		f2.visits = map[*ssa.BasicBlock]int{}
	}
	f2.visits[lp.header] = 0
	s2 := st.clone()
	defer func() {
		if r := recover(); r != nil {
			if x, isx := r.(unrollExceeded); isx && x.b == lp.header {
				e.restore(sv)
				ok = false
				ex = nil
				return
			}
			panic(r)
		}
	}()
	if prev != nil {
		e.phis(f2, prev, lp.header)
	}
	return e.run(f2, s2, lp.header, e.firstNonPhi(lp.header), stop), true
}

type cand struct {
	name string
	eval func(fr *Frame, st *State) *Term
	tmpl bool
}

type havocSpec struct {
	exact map[string]map[*Term]bool // key -> exact addresses
	arrs  map[string]map[*Term]*leafPath
	maps  map[string]map[*Term]bool
	whole map[string]bool
	fresh map[string]bool
}

func newHavoc() *havocSpec {
	return &havocSpec{map[string]map[*Term]bool{}, map[string]map[*Term]*leafPath{}, map[string]map[*Term]bool{}, map[string]bool{}, map[string]bool{}}
}

func (h *havocSpec) size() int {
	n := len(h.whole) + len(h.fresh)
	for _, m := range h.exact {
		n += len(m)
	}
	for _, m := range h.arrs {
		n += len(m)
	}
	for _, m := range h.maps {
		n += len(m)
	}
	return n
}

func (e *Exec) invariantLoop(fr *Frame, st *State, prev *ssa.BasicBlock, lp *loopInfo, stop *ssa.BasicBlock) []exit {
	c := e.c
	h := lp.header
	if prev != nil {
		e.phis(fr, prev, h)
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	init := map[*ssa.Phi]Value{}
	for _, p := range phis {
		init[p] = fr.env[p]
	}
	wm0 := e.nextObj
	mark := len(c.terms)
	_, wm := e.gap()
	hs := newHavoc()
	entry := st

	// the state at an arbitrary iteration
	prep := func() (*Frame, *State) {
		f := fr.clone()
		if f.active == nil {
			f.active = map[*ssa.BasicBlock]bool{}
		}
		f.active[h] = true
		s := entry.clone()
		for _, p := range phis {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			f.env[p] = e.phiSym(lp, p, nm, wm)
		}
		e.applyHavoc(s, hs, wm0, wm)
		return f, s
	}
	runBody := func(f *Frame, s *State, trial bool) []exit {
		if trial {
			f.trial = lp
		}
		return e.run(f, s, h, e.firstNonPhi(h), stop)
	}
	trialSave := fr.trial

	// 1. what does the body write
	for iter := 0; ; iter++ {
		if iter > 6 {
			unsup("loop write set does not stabilise in %s", fr.fn)
		}
		before := hs.size()
		sv := e.save()
		var log []writeRec
		e.logs = append(e.logs, &log)
		f, s := prep()
		e.assumeAuto(f, s, phis, init, lp)
		e.writesOnly++
		runBody(f, s, true)
		e.writesOnly--
		e.restore(sv)
		e.addWrites(hs, log, wm0, mark)
		if hs.size() == before {
			break
		}
		if debugLoops {
			fmt.Fprintf(os.Stderr, "loop %s: writes %d -> %d exact %d arrs %d maps %d\n", fr.fn.Name(), before, hs.size(), len(hs.exact), len(hs.arrs), len(hs.maps))
			for k, m := range hs.exact {
				fmt.Fprintf(os.Stderr, "  exact %s %d\n", k, len(m))
			}
			for k, m := range hs.arrs {
				fmt.Fprintf(os.Stderr, "  arrs %s %d\n", k, len(m))
			}
		}
	}
	// 2. candidates
	cands := e.candidates(fr, entry, lp, phis, init, hs)
	// those true on entry
	var live []cand
	for _, cd := range cands {
		if e.writesOnly > 0 && cd.tmpl {
			continue // only the write set of an enclosing loop is wanted
		}
		t := cd.eval(fr, entry)
		if t == nil {
			continue
		}
		if t.isTrue() || e.holds(entry, t, 1000, cd.tmpl) {
			live = append(live, cd)
		} else if debugLoops {
			fmt.Fprintf(os.Stderr, "loop %s: candidate %s not established: %s\n", fr.fn.Name(), cd.name, t)
		}
	}
	// 3. Houdini
	for round := 0; ; round++ {
		if round > 40 {
			unsup("invariant inference does not stabilise in %s", fr.fn)
		}
		sv := e.save()
		f, s := prep()
		for _, cd := range live {
			if t := cd.eval(f, s); t != nil {
				s.assume(t)
			}
		}
		exits := runBody(f, s, true)
		e.restore(sv)
		drop := map[int]bool{}
		for _, x := range exits {
			if x.kind != xBack || x.block != h {
				continue
			}
			for i, cd := range live {
				if drop[i] {
					continue
				}
				t := cd.eval(x.fr, x.st)
				if t == nil || !e.holds(x.st, t, 2000, cd.tmpl) {
					drop[i] = true
					if debugLoops {
						fmt.Fprintf(os.Stderr, "loop %s: candidate %s dropped\n", fr.fn.Name(), cd.name)
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var nl []cand
		for i, cd := range live {
			if !drop[i] {
				nl = append(nl, cd)
			}
		}
		live = nl
	}
	e.invCount += len(live)
	if debugLoops {
		var ns []string
		for _, l := range live {
			ns = append(ns, l.name)
		}
		fmt.Fprintf(os.Stderr, "loop %s: invariants %v\n", fr.fn.Name(), ns)
	}
	// 4. final run; writes are reported to enclosing logs by the run itself
	f, s := prep()
	for _, cd := range live {
		if t := cd.eval(f, s); t != nil {
			s.assume(t)
		}
	}
	f.trial = trialSave
	head := s.clone()
	exits := runBody(f, s, false)
	var out []exit
	for _, x := range exits {
		if x.kind == xBack && x.block == h {
			e.checkMeasure(lp, fr, f, head, x, phis)
			continue
		}
		if x.fr.active != nil {
			delete(x.fr.active, h)
		}
		out = append(out, x)
	}
	return out
}

// phiSym: one symbol per loop entry and phi (fresh each call).
func (e *Exec) phiSym(lp *loopInfo, p *ssa.Phi, nm string, wm int64) Value {
	return e.freshValue(nm, p.Type(), wm)
}

func (e *Exec) checkMeasure(lp *loopInfo, fr, f0 *Frame, s0 *State, x exit, phis []*ssa.Phi) {
	// a decreasing measure among differences of integer phis and invariant terms
	c := e.c
	name := fr.fn.String()
	if e.spec.depth > 0 {
		return
	}
	key := fmt.Sprintf("%s@%d", name, lp.header.Index)
	ok := false
	for _, p := range phis {
		a, isT := f0.env[p].(*Term)
		b, _ := x.fr.env[p].(*Term)
		if isT && a.sort.width() > 0 && isInteger(p.Type()) {
			w := a.sort.width()
			// increasing without wrap, or decreasing and bounded below by zero
			if e.provable(x.st, c.Slt(a, b), 300) && w >= 32 {
				ok = true
			} else if e.provable(x.st, c.And(c.Slt(b, a), c.Sle(c.BVc(w, 0), a)), 300) {
				ok = true
			} else if e.provable(x.st, c.Ult(b, a), 300) {
				ok = true
			}
		}
		if s1, isS := f0.env[p].(*SliceV); isS {
			s2 := x.fr.env[p].(*SliceV)
			if e.provable(x.st, c.Ult(s2.len, s1.len), 300) {
				ok = true
			}
		}
	}
	if ok {
		return
	}
	// measures over the state
	for _, m := range e.templates(fr, s0, lp, phis, true) {
		a, b := m.eval(f0, s0), m.eval(x.fr, x.st)
		if a == nil || b == nil {
			continue
		}
		t := c.And(c.Sle(c.BVc(64, 0), a), c.Slt(b, a))
		e.oblige(x.st, fr.fn.Name()+": loop measure decreases", t)
		return
	}
	e.nonterm[key] = true
}

func (e *Exec) provable(st *State, t *Term, ms int) bool { return e.holds(st, t, ms, true) }

// holds: with all, quantified assumptions are used as they are when their
// instances do not suffice.
func (e *Exec) holds(st *State, t *Term, ms int, all bool) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return !e.feasible(st, e.c.True())
	}
	for i := len(st.joins) - 1; i >= 0; i-- {
		if !mentions(t, st.joins[i]) {
			continue
		}
		for _, cond := range st.joins[i] {
			sc, tc := e.oneWay(st, t, i, cond)
			if sc != nil && !e.holds(sc, tc, ms, all) {
				return false
			}
		}
		return true
	}
	defer prof("holds", func() string { return clip(t.String()) })()
	neg := e.negGoal(t)
	if e.hasQuant(st) && !neg.quant {
		pc, extra := e.prepGround(st, neg)
		if e.s.Check(pc, extra, ms) == "unsat" {
			return true
		}
	}
	pc, extra := e.prepQuery(st, neg, false)
	r := e.s.Check(pc, extra, ms)
	if r == "unsat" {
		return true
	}
	if r == "sat" && (!all || !e.hasQuant(st)) && !t.quant {
		return false
	}
	if d := os.Getenv("GOVER_SLOW"); d != "" && r == "unknown" && all {
		os.WriteFile(fmt.Sprintf("%s/h%d.smt2", d, time.Now().UnixNano()), []byte(e.c.script(append(append([]*Term{}, pc...), extra...), nil)), 0o644)
	}
	if all && r == "unknown" {
		// the one-shot solver does better on larger queries
		switch e.c.oneShot(append(append([]*Term{}, pc...), extra...), 8*time.Second) {
		case "unsat":
			return true
		case "sat":
			if !e.hasQuant(st) && !t.quant {
				return false
			}
		default:
			if r, _ := e.c.proveFallback(append(append([]*Term{}, pc...), extra...), 40*time.Second); r == "unsat" {
				return true
			}
		}
	}
	if e.hasQuant(st) || t.quant {
		pc, extra = e.prepQuery(st, neg, true)
		return e.s.Check(pc, extra, ms) == "unsat"
	}
	return false
}

func (e *Exec) assumeAuto(f *Frame, s *State, phis []*ssa.Phi, init map[*ssa.Phi]Value, lp *loopInfo) {
}

// dependsOnLoop: does t contain symbols created after mark (phi symbols, havoc)?
func (e *Exec) dependsAfter(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.id < mark || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "sym" || t.op == "obj" {
			return true
		}
		if t.op == "app" && strings.HasPrefix(t.name, "H") && !strings.HasPrefix(t.name, "H0.") {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (e *Exec) addWrites(hs *havocSpec, log []writeRec, wm0 int64, mark int) {
	put := func(m map[string]map[*Term]bool, k string, t *Term) {
		if m[k] == nil {
			m[k] = map[*Term]bool{}
		}
		m[k][t] = true
	}
	for _, w := range log {
		switch {
		case w.whole:
			hs.whole[w.key] = true
			hs.fresh[w.key] = true
		case w.addr != nil:
			if e.ageOf(w.addr).lo > wm0 {
				hs.fresh[w.key] = true
				continue
			}
			if !e.dependsAfter(w.addr, mark) {
				put(hs.exact, w.key, w.addr)
				continue
			}
			// array element or map entry of an invariant base?
			a := w.addr
			var tags []int64
			for a.op == "sub" {
				tags = append([]int64{int64(a.val)}, tags...)
				a = a.args[0]
			}
			if a.op == "el" && !e.dependsAfter(a.args[0], mark) {
				if hs.arrs[w.key] == nil {
					hs.arrs[w.key] = map[*Term]*leafPath{}
				}
				hs.arrs[w.key][a.args[0]] = &leafPath{tags: tags, key: w.key}
				continue
			}
			if a.op == "me" && !e.dependsAfter(a.args[0], mark) {
				put(hs.maps, w.key, a.args[0])
				continue
			}
			hs.whole[w.key] = true
			hs.fresh[w.key] = true
		case w.arr != nil:
			if e.ageOf(w.arr).lo > wm0 {
				hs.fresh[w.key] = true
				continue
			}
			if !e.dependsAfter(w.arr, mark) {
				if hs.arrs[w.key] == nil {
					hs.arrs[w.key] = map[*Term]*leafPath{}
				}
				hs.arrs[w.key][w.arr] = w.lp
				continue
			}
			hs.whole[w.key] = true
			hs.fresh[w.key] = true
		case w.m != nil:
			if e.ageOf(w.m).lo > wm0 {
				hs.fresh[w.key] = true
				continue
			}
			if !e.dependsAfter(w.m, mark) {
				put(hs.maps, w.key, w.m)
				continue
			}
			hs.whole[w.key] = true
			hs.fresh[w.key] = true
		}
	}
}

func (e *Exec) applyHavoc(s *State, hs *havocSpec, wm0, wm int64) {
	c := e.c
	keys := map[string]bool{}
	for k := range hs.exact {
		keys[k] = true
	}
	for k := range hs.arrs {
		keys[k] = true
	}
	for k := range hs.maps {
		keys[k] = true
	}
	for k := range hs.whole {
		keys[k] = true
	}
	for k := range hs.fresh {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		k := k
		ex, ar, mp, wh, fh := sortedTerms(hs.exact[k]), hs.arrs[k], sortedTerms(hs.maps[k]), hs.whole[k], hs.fresh[k]
		var arrs []*Term
		for a := range ar {
			arrs = append(arrs, a)
		}
		sort.Slice(arrs, func(i, j int) bool { return arrs[i].id < arrs[j].id })
		e.havocKey(s, k, wm, func(a *Term) *Term {
			if wh {
				return c.True()
			}
			r := c.False()
			for _, x := range ex {
				r = c.Or(r, e.addrEq(a, x))
			}
			for _, base := range arrs {
				cond, arr, _ := e.matchEl(a, ar[base].tags)
				if !cond.isFalse() {
					r = c.Or(r, c.And(cond, e.addrEq(arr, base)))
				}
			}
			for _, m := range mp {
				b := a
				for b.op == "sub" {
					b = b.args[0]
				}
				cond, mm, _ := e.matchMe(b, nil)
				if !cond.isFalse() {
					r = c.Or(r, c.And(cond, e.addrEq(mm, m)))
				}
				r = c.Or(r, e.addrEq(a, m))
			}
			if fh {
				rg := e.ageOf(a)
				if rg.hi > wm0 {
					if rg.lo > wm0 {
						return c.True()
					}
					r = c.Or(r, c.ILt(c.Intc(wm0), c.Age(a)))
				}
			}
			return r
		})
	}
}

var debugLoops = os.Getenv("GOVER_LOOPS") != ""

// candidates produces automatic and template invariants.
func (e *Exec) candidates(fr *Frame, entry *State, lp *loopInfo, phis []*ssa.Phi, init map[*ssa.Phi]Value, hs *havocSpec) []cand {
	c := e.c
	var out []cand
	add := func(name string, f func(fr *Frame, st *State) *Term) { out = append(out, cand{name: name, eval: f}) }
	var ints []*ssa.Phi
	for _, p := range phis {
		p := p
		v0 := init[p]
		switch x := v0.(type) {
		case *Term:
			w := x.sort.width()
			switch {
			case w > 0 && isInteger(p.Type()):
				ints = append(ints, p)
				if isSigned(p.Type()) {
					add(p.Comment+">=init", func(fr *Frame, st *State) *Term { return c.Sle(x, fr.env[p].(*Term)) })
					add(p.Comment+"<=init", func(fr *Frame, st *State) *Term { return c.Sle(fr.env[p].(*Term), x) })
					add(p.Comment+">=0", func(fr *Frame, st *State) *Term { return c.Sle(c.BVc(w, 0), fr.env[p].(*Term)) })
					add(p.Comment+"<2^40", func(fr *Frame, st *State) *Term {
						if w < 64 {
							return nil
						}
						return c.Sle(fr.env[p].(*Term), c.BVc(w, 1<<41))
					})
				} else {
					add(p.Comment+">=init", func(fr *Frame, st *State) *Term { return c.Ule(x, fr.env[p].(*Term)) })
					add(p.Comment+"<=init", func(fr *Frame, st *State) *Term { return c.Ule(fr.env[p].(*Term), x) })
				}
			case x.sort == SRef:
				add(p.Comment+"!=nil", func(fr *Frame, st *State) *Term { return c.Not(c.Eq(fr.env[p].(*Term), c.Nil())) })
				add(p.Comment+"==init", func(fr *Frame, st *State) *Term { return c.Eq(fr.env[p].(*Term), x) })
			case x.sort == SAny:
				add(p.Comment+"==nil", func(fr *Frame, st *State) *Term { return c.Eq(c.ATag(fr.env[p].(*Term)), c.Intc(0)) })
				add(p.Comment+"!=nil", func(fr *Frame, st *State) *Term { return c.Not(c.Eq(c.ATag(fr.env[p].(*Term)), c.Intc(0))) })
			case x.sort == SBool:
				add(p.Comment, func(fr *Frame, st *State) *Term { return fr.env[p].(*Term) })
				add("!"+p.Comment, func(fr *Frame, st *State) *Term { return c.Not(fr.env[p].(*Term)) })
			}
		case *SliceV:
			g := func(fr *Frame) *SliceV { return fr.env[p].(*SliceV) }
			add(p.Comment+".arr==init", func(fr *Frame, st *State) *Term { return c.Eq(g(fr).arr, x.arr) })
			add(p.Comment+".end==init", func(fr *Frame, st *State) *Term {
				return c.Eq(c.BVAdd(g(fr).off, g(fr).len), c.BVAdd(x.off, x.len))
			})
			add(p.Comment+".off>=init", func(fr *Frame, st *State) *Term { return c.Ule(x.off, g(fr).off) })
			add(p.Comment+".off==0", func(fr *Frame, st *State) *Term { return c.Eq(g(fr).off, c.BVc(64, 0)) })
			add(p.Comment+".len>=init", func(fr *Frame, st *State) *Term { return c.Ule(x.len, g(fr).len) })
			wm0 := e.nextObj - (1 << 20)
			_ = wm0
			lo := e.loopWM(x)
			add(p.Comment+".arr fresh", func(fr *Frame, st *State) *Term {
				return c.Or(c.Eq(g(fr).arr, x.arr), c.ILt(c.Intc(lo), c.Age(g(fr).arr)))
			})
			add(p.Comment+".arr fresh or nil", func(fr *Frame, st *State) *Term {
				return c.Or(c.Eq(g(fr).arr, c.Nil()), c.ILt(c.Intc(lo), c.Age(g(fr).arr)))
			})
			for _, q := range phis {
				q := q
				if t, ok := init[q].(*Term); ok && t.sort == SBV64 && isInteger(q.Type()) {
					add(p.Comment+".len tracks "+q.Comment, func(fr *Frame, st *State) *Term {
						return c.Eq(c.BVSub(g(fr).len, x.len), c.BVSub(fr.env[q].(*Term), t))
					})
				}
			}
		}
	}
	// bounds from comparisons in the loop
	for b := range lp.body {
		_ = b
	}
	var blocks []*ssa.BasicBlock
	for b := range lp.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, sides := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				bound := e.outsideValue(fr, lp, sides[1])
				if bound == nil || bound.sort.width() == 0 || !isInteger(sides[1].Type()) {
					continue
				}
				for _, p := range ints {
					p := p
					if t := init[p].(*Term); t.sort != bound.sort {
						continue
					}
					for d := int64(0); d <= 1; d++ {
						d := d
						w := bound.sort.width()
						if isSigned(p.Type()) {
							add(fmt.Sprintf("%s+%d<=bound", p.Comment, d), func(fr *Frame, st *State) *Term {
								return c.Or(c.Eq(fr.env[p].(*Term), init[p].(*Term)), c.Sle(c.BVAdd(fr.env[p].(*Term), c.BVc(w, uint64(d))), bound))
							})
							add(fmt.Sprintf("%s+%d<=bound'", p.Comment, d), func(fr *Frame, st *State) *Term {
								return c.Sle(c.BVAdd(fr.env[p].(*Term), c.BVc(w, uint64(d))), bound)
							})
						} else {
							add(fmt.Sprintf("%s<=bound", p.Comment), func(fr *Frame, st *State) *Term {
								return c.Ule(fr.env[p].(*Term), bound)
							})
						}
					}
				}
			}
		}
	}
	// lockstep pairs
	for i, p := range ints {
		for _, q := range ints[i+1:] {
			p, q := p, q
			tp, tq := init[p].(*Term), init[q].(*Term)
			if tp.sort != tq.sort {
				continue
			}
			add(p.Comment+"~"+q.Comment, func(fr *Frame, st *State) *Term {
				return c.Eq(c.BVSub(fr.env[p].(*Term), tp), c.BVSub(fr.env[q].(*Term), tq))
			})
		}
	}
	// heap cells at fixed addresses
	for _, k := range sortedKeys(hs.exact) {
		if len(hs.exact[k]) > 6 || e.lazy() {
			continue
		}
		for _, a := range sortedTerms(hs.exact[k]) {
			k, a := k, a
			s, typ, ok := e.keySort(k)
			if !ok {
				continue
			}
			v0 := e.readLeaf(e.chain(entry, k), a, s, typ)
			rd := func(st *State) *Term { return e.readLeaf(e.chain(st, k), a, s, typ) }
			add("cell "+shortKey(k)+"==init", func(fr *Frame, st *State) *Term { return c.Eq(rd(st), v0) })
			if s.width() > 0 {
				add("cell "+shortKey(k)+">=init", func(fr *Frame, st *State) *Term { return c.Sle(v0, rd(st)) })
				add("cell "+shortKey(k)+" u>=init", func(fr *Frame, st *State) *Term { return c.Ule(v0, rd(st)) })
				if s == SBV64 {
					add("cell "+shortKey(k)+"<2^41", func(fr *Frame, st *State) *Term { return c.Ule(rd(st), c.BVc(64, 1<<41)) })
				}
				for _, p := range ints {
					p := p
					if t := init[p].(*Term); t.sort == s {
						add("cell "+shortKey(k)+"~"+p.Comment, func(fr *Frame, st *State) *Term {
							return c.Eq(c.BVSub(rd(st), v0), c.BVSub(fr.env[p].(*Term), t))
						})
					}
				}
				// equal to / bounded by other cells of the same sort
			} else if s == SRef {
				add("cell "+shortKey(k)+"!=nil", func(fr *Frame, st *State) *Term { return c.Not(c.Eq(rd(st), c.Nil())) })
			} else if s == SAny {
				add("cell "+shortKey(k)+" nil", func(fr *Frame, st *State) *Term { return c.Eq(c.ATag(rd(st)), c.Intc(0)) })
				add("cell "+shortKey(k)+" not nil", func(fr *Frame, st *State) *Term { return c.Not(c.Eq(c.ATag(rd(st)), c.Intc(0))) })
			}
		}
	}
	// slices from outside the loop keep their elements
	outer := map[*SliceV]types.Type{}
	var order []*SliceV
	note := func(v ssa.Value) {
		x, ok := fr.env[v].(*SliceV)
		if !ok || x.arr.op == "nil" {
			return
		}
		st, ok := under(v.Type()).(*types.Slice)
		if !ok {
			return
		}
		if _, ok := scalarSort(st.Elem()); !ok || !hs.whole["C:"+typeStr(st.Elem())] {
			return
		}
		for _, o := range order {
			if o.arr == x.arr {
				return
			}
		}
		outer[x] = st.Elem()
		order = append(order, x)
	}
	for _, p := range fr.fn.Params {
		note(p)
	}
	for _, b := range fr.fn.Blocks {
		if lp.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				note(v)
			}
		}
	}
	for _, x := range order {
		x, el := x, outer[x]
		for _, p := range phis {
			p := p
			if ps, ok := under(p.Type()).(*types.Slice); ok && types.Identical(ps.Elem(), el) && init[p].(*SliceV).arr != x.arr {
				add(p.Comment+" apart", func(fr *Frame, st *State) *Term {
					return c.Or(c.Eq(x.cap, c.BVc(64, 0)), c.Not(c.Eq(fr.env[p].(*SliceV).arr, x.arr)))
				})
			}
		}
		add("elements kept", func(fr *Frame, st *State) *Term {
			q := c.Var(SBV64)
			a := c.El(x.arr, c.BVAdd(x.off, q))
			v0, ok0 := e.load(entry.clone(), a, el).(*Term)
			v1, ok1 := e.load(st.clone(), a, el).(*Term)
			if !ok0 || !ok1 {
				return nil
			}
			return c.Forall([]*Term{q}, c.Imp(c.And(c.Sle(c.BVc(64, 0), q), c.Slt(q, x.len)), c.Eq(v1, v0)))
		})
	}
	if e.writesOnly > 0 {
		return out // an enclosing loop only wants to know what is written
	}
	for _, cd := range e.templates(fr, entry, lp, phis, false) {
		cd.tmpl = true
		out = append(out, cd)
	}
	return out
}

func (e *Exec) loopWM(x *SliceV) int64 {
	if len(e.frames) > 0 {
		return e.frames[len(e.frames)-1].wm
	}
	return 0
}

// keySort finds the sort of a heap key from its name.
func (e *Exec) keySort(k string) (Sort, types.Type, bool) {
	if i := strings.IndexByte(k, '#'); i >= 0 {
		if k[i:] == "#arr" {
			return SRef, nil, true
		}
		return SBV64, nil, true
	}
	if k == mapLenKey {
		return SBV64, nil, true
	}
	if k == "G:iterpos" {
		return SBV64, nil, true
	}
	if s, ok := e.keySorts[k]; ok {
		return s, e.keyTypes[k], true
	}
	return "", nil, false
}

// templates instantiates //verif:loop functions by binding their parameters by
// type to loop variables, parameters and harness values.
func (e *Exec) templates(fr *Frame, entry *State, lp *loopInfo, phis []*ssa.Phi, measure bool) []cand {
	var out []cand
	type src struct {
		name string
		typ  types.Type
		get  func(fr *Frame) Value
	}
	var pool []src
	for _, p := range phis {
		p := p
		pool = append(pool, src{p.Comment, p.Type(), func(fr *Frame) Value { return fr.env[p] }})
		if b, ok := under(p.Type()).(*types.Basic); ok && b.Kind() == types.Int {
			pool = append(pool, src{p.Comment + "+1", p.Type(), func(fr *Frame) Value {
				return e.c.BVAdd(fr.env[p].(*Term), e.c.BVc(64, 1))
			}})
		}
	}
	isPhi := len(pool)
	for _, p := range fr.fn.Params {
		p := p
		pool = append(pool, src{p.Name(), p.Type(), func(fr *Frame) Value { return fr.env[p] }})
	}
	for _, p := range fr.fn.FreeVars {
		p := p
		pool = append(pool, src{p.Name(), p.Type(), func(fr *Frame) Value { return fr.env[p] }})
	}
	// values computed before the loop in this frame
	for _, b := range fr.fn.Blocks {
		if lp.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); !isPhi {
				switch x := v.(type) {
				case *ssa.BinOp:
					// the current index of an enclosing loop
					if _, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD && types.Identical(x.Type(), types.Typ[types.Int]) {
						if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
							if _, ok := fr.env[v]; ok {
								v2 := v
								pool = append(pool, src{"outer", x.Type(), func(fr *Frame) Value { return fr.env[v2] }})
							}
						}
					}
					continue
				case *ssa.Call, *ssa.Extract, *ssa.Alloc, *ssa.UnOp, *ssa.MakeSlice, *ssa.TypeAssert, *ssa.Slice:
				default:
					continue
				}
			}
			if _, ok := fr.env[v]; !ok {
				continue
			}
			v2 := v
			pool = append(pool, src{v.Name(), v.Type(), func(fr *Frame) Value { return fr.env[v2] }})
		}
	}
	if len(e.harness) > 0 {
		for _, hv := range append(entry.binds[:len(entry.binds):len(entry.binds)], e.harnessVals...) {
			hv := hv
			pool = append(pool, src{"harness." + hv.name, hv.typ, func(fr *Frame) Value { return hv.v }})
		}
	}
	// one source per value
	var uniq []src
	for i, s := range pool {
		dup := false
		if i >= isPhi {
			v, ok := s.get(fr).(*Term)
			for _, u := range pool[isPhi:i] {
				if w, ok2 := u.get(fr).(*Term); ok && ok2 && v == w && v.op != "bv" && types.Identical(u.typ, s.typ) {
					dup = true
				}
			}
		}
		if !dup {
			uniq = append(uniq, s)
		}
	}
	pool = uniq
	// sources by name: a parameter called like a variable of that type binds
	// only to it, next is the coming value of the loop's own index
	match := func(p *ssa.Parameter) []src {
		var named, typed []src
		for i, s := range pool {
			if !types.Identical(s.typ, p.Type()) {
				continue
			}
			typed = append(typed, s)
			if s.name == p.Name() || p.Name() == "next" && i < isPhi && s.name == "rangeindex+1" {
				named = append(named, s)
			}
		}
		if len(named) > 0 || p.Name() == "outer" {
			return named
		}
		return typed
	}
	depth := 0
	for _, l := range e.p.info(fr.fn).loops {
		if l != lp && l.body[lp.header] {
			depth++
		}
	}
	for _, li := range e.p.invs {
		li := li
		if li.measure != measure {
			continue
		}
		if li.for_ != "" && !e.onStack(li.for_, fr.fn) {
			continue
		}
		if li.for_ == "" && (measure || heapOnly(li.fn)) && pkgOf(fr.fn) != li.fn.Pkg {
			continue
		}
		if li.depth > 0 && li.depth != depth+1 {
			continue
		}
		var rec func(i int, chosen []src)
		count := 0
		rec = func(i int, chosen []src) {
			if count >= 48 {
				return
			}
			if i == len(li.fn.Params) {
				usesPhi := false
				for _, s := range chosen {
					for k := 0; k < isPhi; k++ {
						if pool[k].name == s.name {
							usesPhi = true
						}
					}
				}
				if !usesPhi && isPhi > 0 && !measure && (li.for_ != "" || !heapOnly(li.fn)) {
					return
				}
				count++
				ch := append([]src(nil), chosen...)
				nm := li.fn.Name()
				for _, s := range ch {
					nm += " " + s.name
				}
				out = append(out, cand{name: nm, eval: func(fr *Frame, st *State) *Term {
					var args []Value
					for _, s := range ch {
						v := s.get(fr)
						if v == nil {
							return nil
						}
						args = append(args, v)
					}
					if measure {
						return e.evalInt(li.fn, args, st)
					}
					return e.evalFn(li.fn, args, st)
				}})
				return
			}
			for _, s := range match(li.fn.Params[i]) {
				rec(i+1, append(chosen, s))
			}
		}
		rec(0, nil)
	}
	return out
}

func (e *Exec) onStack(name string, fn *ssa.Function) bool {
	for _, f := range append(append([]*ssa.Function{}, e.stack...), fn) {
		if f.Name() == name {
			return true
		}
	}
	return false
}

// heapOnly: is the template about objects, which change without a phi?
func heapOnly(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := under(p.Type()).(*types.Pointer); ok {
			return true
		}
	}
	return false
}

// evalInt evaluates an integer Go function to a term in st.
func (e *Exec) evalInt(fn *ssa.Function, args []Value, st *State) *Term {
	base := st.clone()
	sf, sl := e.frames, e.logs
	e.frames, e.logs = nil, nil
	defer func() { e.frames, e.logs = sf, sl }()
	var r *Term
	for _, o := range e.call(fn, args, nil, base.clone(), nil) {
		if o.panicked {
			return nil
		}
		cond, _ := e.split(o.st, len(base.pc))
		if v := o.vals[0].(*Term); r == nil {
			r = v
		} else {
			r = e.c.Ite(cond, v, r)
		}
	}
	return r
}

// evalFn evaluates a boolean Go function to a term in st.
func (e *Exec) evalFn(fn *ssa.Function, args []Value, st *State) *Term {
	base := st.clone()
	sf, sl := e.frames, e.logs
	e.frames, e.logs = nil, nil
	defer func() { e.frames, e.logs = sf, sl }()
	outs := e.call(fn, args, nil, base.clone(), nil)
	return e.combine(base, outs)
}

// pkgOf is the package of a function or of what it is an instance of.
func pkgOf(fn *ssa.Function) *ssa.Package {
	if o := fn.Origin(); fn.Pkg == nil && o != nil {
		return o.Pkg
	}
	return fn.Pkg
}
