package main

// Path-wise symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Closure struct {
	fn   *ssa.Function
	free []Value
}

type Obligation struct {
	name string
	pos  string
	pc   []*Term
	goal *Term
	st   *State
}

type writeRec struct {
	key  string
	addr *Term // exact address, or nil
	lp   *leafPath
	arr  *Term
	off  *Term
	n    *Term
	m    *Term // map entries of m

	whole bool // every cell of the kind
}

type Exec struct {
	deepDone map[SliceV]bool
	p        *PExec
	c        *Ctx
	s        *Solver
	feas     *Solver
	bases    map[string]*Layer
	readMemo map[*Layer]map[*Term]*Term
	ages     map[*Term]ageRange
	nextObj  int64
	layerID  int

	obls     []*Obligation
	closures map[int64]*Closure
	wraps    map[*Term][]*Term // error ref -> wrapped errors
	errVals  []*Term           // package level error values
	strSrc   map[*Term]func(i *Term) *Term

	harness       []*HarnessCtx
	frames        []*FrameSpec // write permission frames (innermost last)
	logs          []*[]writeRec
	depth         int
	stack         []*ssa.Function
	spec          specState
	inputs        []namedTerm
	notes         map[string]bool
	covers        []coverRec
	steps         int
	unrollN       int
	globals       map[*ssa.Global]*Term
	fnIDs         map[*ssa.Function]int64
	fnByID        map[int64]*ssa.Function
	feasCache     map[string]bool
	curPos        token.Pos
	contractsUsed map[string]bool
	inlined       map[string]bool
	initHeap      map[string]*Layer
	deadline      int
	noUnroll      map[*ssa.BasicBlock]bool
	nonterm       map[string]bool
	invCount      int
	skolems       map[*Term]*Term
	ufs           map[string]baseInfo
	factsDone     map[*Term]bool
	keySorts      map[string]Sort
	keyTypes      map[string]types.Type
	harnessVals   []typedVal
	stopAt        time.Time
	writesOnly    int // inside the search for the writes of a loop
	verLayer      map[int64]*Layer
	proving       bool // execution is over, obligations are being discharged
	inInit        bool
	baseWM        int64
	initState     *State
}

type typedVal struct {
	name string
	typ  types.Type
	v    Value
}

type coverRec struct {
	name string
	pc   []*Term
}

type namedTerm struct {
	name string
	t    *Term
}

const (
	xReturn = iota
	xPanic
	xArrive
	xBack
)

type exit struct {
	kind  int
	st    *State
	fr    *Frame
	vals  []Value
	pv    *Term
	block *ssa.BasicBlock
}

type Outcome struct {
	st       *State
	panicked bool
	pv       *Term
	vals     []Value
}

type deferRec struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferRec
	harn   *HarnessCtx
	active map[*ssa.BasicBlock]bool
	visits map[*ssa.BasicBlock]int
	info   *fnInfo
	trial  *loopInfo // only the loop body is explored
	// state of a running panic, for recover()
	panicVal *Term
	recov    *bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	if len(f.active) > 0 {
		n.active = map[*ssa.BasicBlock]bool{}
		for k, v := range f.active {
			n.active[k] = v
		}
	}
	if len(f.visits) > 0 {
		n.visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.visits {
			n.visits[k] = v
		}
	}
	return &n
}

func newExec(p *Program) *Exec {
	c := newCtx()
	e := &Exec{
		p: &PExec{Program: p, reg: newRegistry(), impl: map[string]implRes{}},
		c: c, bases: map[string]*Layer{}, readMemo: map[*Layer]map[*Term]*Term{}, ages: map[*Term]ageRange{},
		closures: map[int64]*Closure{}, wraps: map[*Term][]*Term{}, strSrc: map[*Term]func(i *Term) *Term{},
		notes: map[string]bool{}, globals: map[*ssa.Global]*Term{}, fnIDs: map[*ssa.Function]int64{}, fnByID: map[int64]*ssa.Function{},
		contractsUsed: map[string]bool{}, inlined: map[string]bool{}, noUnroll: map[*ssa.BasicBlock]bool{}, nonterm: map[string]bool{}, skolems: map[*Term]*Term{}, ufs: map[string]baseInfo{}, factsDone: map[*Term]bool{}, verLayer: map[int64]*Layer{}, keySorts: map[string]Sort{}, keyTypes: map[string]types.Type{},
	}
	e.spec.init()
	c.satHook = func(s, i *Term) *Term {
		if f := e.strSrc[s]; f != nil {
			return f(i)
		}
		return nil
	}
	e.s = newSolver(c, false)
	e.feas = newSolver(c, true)
	return e
}

func (e *Exec) note(f string, a ...any) { e.notes[fmt.Sprintf(f, a...)] = true }

// ---- solver access

const feasTimeout = 400

func (e *Exec) feasible(st *State, cond *Term) bool {
	if cond.isTrue() {
		return true
	}
	if cond.isFalse() {
		return false
	}
	if st.pcs[cond] {
		return true
	}
	if st.pcs[e.c.Not(cond)] {
		return false
	}
	if cond.op == "and" {
		for _, a := range cond.args {
			if st.pcs[e.c.Not(a)] {
				return false
			}
		}
	}
	defer prof("feasible", func() string { return clip(cond.String()) })()
	if simp := e.underEqs(st, cond); simp.isTrue() || simp.isFalse() {
		return simp.isTrue()
	}
	if e.spec.depth > 0 {
		return true // facts are guarded by the path condition
	}
	var pc, extra []*Term
	if e.hasQuant(st) && !cond.quant {
		pc, extra = e.prepGround(st, cond)
	} else {
		pc, extra = e.prepQuery(st, cond, false)
	}
	t0 := time.Now()
	r := e.feas.Check(pc, extra, feasTimeout)
	if d := os.Getenv("GOVER_DUMP"); d != "" && r == "unknown" {
		os.WriteFile(fmt.Sprintf("%s/f%d.smt2", d, time.Now().UnixNano()), []byte(e.c.script(append(append([]*Term{}, pc...), extra...), nil)), 0o644)
	}
	if traceOn {
		fmt.Fprintf(os.Stderr, "query %s %dms pc=%d extra=%d %s\n", r, time.Since(t0).Milliseconds(), len(pc), len(extra), e.p.prog.Fset.Position(e.curPos))
	}
	return r != "unsat"
}

// underEqs simplifies cond with the equations to constants of the path.
func (e *Exec) underEqs(st *State, cond *Term) *Term {
	var m map[*Term]*Term
	for _, t := range st.pc {
		if t.op != "=" {
			continue
		}
		a, b := t.args[0], t.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && !a.isConst() {
			if m == nil {
				m = map[*Term]*Term{}
			}
			m[a] = b
		}
	}
	if m == nil {
		return cond
	}
	return e.c.Subst(cond, m)
}

func (e *Exec) valid(st *State, cond *Term) bool { return !e.feasible(st, e.c.Not(cond)) }

func (e *Exec) oblige(st *State, name string, goal *Term) {
	pos := ""
	if e.curPos.IsValid() {
		pos = e.p.prog.Fset.Position(e.curPos).String()
	}
	e.obls = append(e.obls, &Obligation{name: name, pos: pos, pc: st.pc, goal: goal, st: st.clone()})
}

// ---- function execution

func (e *Exec) call(fn *ssa.Function, args []Value, free []Value, st *State, harn *HarnessCtx) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("function without body %s", fn)
	}
	if e.depth > 60 {
		unsup("inlining too deep at %s", fn)
	}
	rec := 0
	for _, f := range e.stack {
		if f == fn {
			rec++
		}
	}
	if rec > e.p.maxRec && harn == nil && e.spec.depth == 0 {
		unsup("recursion without contract in %s", fn)
	}
	e.depth++
	e.stack = append(e.stack, fn)
	savePos := e.curPos
	defer func() {
		e.depth--
		e.stack = e.stack[:len(e.stack)-1]
		e.curPos = savePos
	}()
	if e.p.isRepo(fn) && harn == nil && e.spec.depth == 0 {
		e.inlined[fn.String()] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, harn: harn, info: e.p.info(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	exits := e.enter(fr, st, nil, fn.Blocks[0], nil)
	var outs []Outcome
	for _, x := range exits {
		switch x.kind {
		case xReturn:
			outs = append(outs, Outcome{st: x.st, vals: x.vals})
		case xPanic:
			outs = append(outs, e.unwind(x)...)
		default:
			unsup("stray exit")
		}
	}
	return e.mergeOutcomes(st, outs)
}

// unwind runs deferred calls of a panicking frame.
func (e *Exec) unwind(x exit) []Outcome {
	fr := x.fr
	if len(fr.defers) == 0 {
		return []Outcome{{st: x.st, panicked: true, pv: x.pv}}
	}
	type item struct {
		st *State
		pv *Term // nil when recovered
		n  int
		fr *Frame
	}
	work := []item{{x.st, x.pv, len(fr.defers), fr}}
	var outs []Outcome
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.n == 0 {
			if it.pv != nil {
				outs = append(outs, Outcome{st: it.st, panicked: true, pv: it.pv})
				continue
			}
			// recovered: run the recover block
			if fr.fn.Recover == nil {
				var vals []Value
				res := fr.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					vals = append(vals, e.c.zeroValue(res.At(i).Type()))
				}
				outs = append(outs, Outcome{st: it.st, vals: vals})
				continue
			}
			f2 := it.fr.clone()
			f2.defers = nil
			for _, y := range e.enter(f2, it.st, nil, fr.fn.Recover, nil) {
				if y.kind == xReturn {
					outs = append(outs, Outcome{st: y.st, vals: y.vals})
				} else {
					outs = append(outs, Outcome{st: y.st, panicked: true, pv: y.pv})
				}
			}
			continue
		}
		d := fr.defers[it.n-1]
		for _, o := range e.runDefer(d, it.st, it.pv) {
			if o.panicked {
				work = append(work, item{o.st, o.pv, it.n - 1, it.fr})
			} else if o.recovered {
				work = append(work, item{o.st, nil, it.n - 1, it.fr})
			} else {
				work = append(work, item{o.st, it.pv, it.n - 1, it.fr})
			}
		}
	}
	return outs
}

type deferOutcome struct {
	st        *State
	panicked  bool
	recovered bool
	pv        *Term
}

func (e *Exec) runDefer(d deferRec, st *State, pv *Term) []deferOutcome {
	// recover() is visible only in the deferred function itself
	save := e.p.curPanic
	e.p.curPanic = &panicCtx{pv: pv, depth: e.depth + 1}
	defer func() { e.p.curPanic = save }()
	st = st.clone()
	rkey := "G:recovered"
	flag := e.c.Obj(-77)
	ch := e.chain(st, rkey)
	e.layerID++
	st.heap[rkey] = &Layer{kind: lWrite, below: ch, addr: flag, val: e.c.False(), id: e.layerID}
	var outs []deferOutcome
	for _, o := range e.dispatch(d.call, d.fn, d.args, st, nil) {
		rec := e.readLeaf(e.chain(o.st, rkey), flag, SBool, nil)
		if o.panicked {
			outs = append(outs, deferOutcome{st: o.st, panicked: true, pv: o.pv})
			continue
		}
		switch {
		case rec.isTrue():
			outs = append(outs, deferOutcome{st: o.st, recovered: true})
		case rec.isFalse():
			outs = append(outs, deferOutcome{st: o.st})
		default:
			if e.feasible(o.st, rec) {
				s2 := o.st.clone()
				s2.branch(rec)
				outs = append(outs, deferOutcome{st: s2, recovered: true})
			}
			if e.feasible(o.st, e.c.Not(rec)) {
				s2 := o.st.clone()
				s2.branch(e.c.Not(rec))
				outs = append(outs, deferOutcome{st: s2})
			}
		}
	}
	return outs
}

func (s *State) branch(t *Term) {
	n := len(s.pc)
	s.assume(t)
	for i := n; i < len(s.pc); i++ {
		if s.br == nil {
			s.br = map[*Term]bool{}
		}
		s.br[s.pc[i]] = true
	}
}

func sameHeap(a, b *State) bool {
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok {
			if w != v {
				return false
			}
		} else if v.kind != lBase {
			return false
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok && w.kind != lBase {
			return false
		}
	}
	return true
}

// split returns the branch condition and the assumptions of st beyond the
// first n entries of its path condition.
func (e *Exec) split(st *State, n int) (*Term, []*Term) {
	var br []*Term
	var as []*Term
	for _, t := range st.pc[n:] {
		if st.br[t] {
			br = append(br, t)
		} else {
			as = append(as, t)
		}
	}
	return e.c.And(br...), as
}

func commonPrefix(sts []*State) int {
	n := len(sts[0].pc)
	for _, s := range sts[1:] {
		k := 0
		for k < n && k < len(s.pc) && s.pc[k] == sts[0].pc[k] {
			k++
		}
		n = k
	}
	return n
}

// joinStates merges states with the same heap.
func (e *Exec) joinStates(sts []*State) (*State, []*Term) {
	n := commonPrefix(sts)
	out := sts[0].clone()
	out.pc = sts[0].pc[:n:n]
	out.pcs = map[*Term]bool{}
	out.br = map[*Term]bool{}
	for _, t := range out.pc {
		out.pcs[t] = true
		if sts[0].br[t] {
			out.br[t] = true
		}
	}
	var conds []*Term
	var asm []*Term
	for _, s := range sts {
		c, as := e.split(s, n)
		conds = append(conds, c)
		for _, a := range as {
			asm = append(asm, e.c.Imp(c, a))
		}
	}
	out.branch(e.c.Or(conds...))
	out.assume(asm...)
	base := len(sts[0].joins)
	for _, s := range sts[1:] {
		base = min(base, len(s.joins))
	}
	out.joins = sts[0].joins[:0:0]
	for i := 0; i < base; i++ {
		for _, s := range sts[1:] {
			if len(s.joins[i]) == 0 || s.joins[i][0] != sts[0].joins[i][0] {
				base = i
			}
		}
		if i < base {
			out.joins = append(out.joins, sts[0].joins[i])
		}
	}
	for _, s := range sts[1:] {
		for k, v := range s.heap {
			if _, ok := out.heap[k]; !ok {
				out.heap[k] = v
			}
		}
	}
	joined := false
	defer func() {
		if joined {
			out.joins = append(out.joins, conds)
		}
	}()
	for k, v := range out.heap {
		same := true
		for _, s := range sts {
			if e.layerOf(s, k) != v {
				same = false
			}
		}
		if same {
			continue
		}
		joined = true
		var alts []*Layer
		for _, s := range sts {
			alts = append(alts, e.layerOf(s, k))
		}
		e.layerID++
		out.heap[k] = &Layer{kind: lJoin, id: e.layerID, conds: conds, alts: alts}
	}
	return out, conds
}

// nilSig is a signature of the interface results that are decidedly nil or not.
func nilSig(vals []Value) string {
	var b strings.Builder
	for _, v := range vals {
		if t, ok := v.(*Term); ok && t.sort == SAny {
			if t.op == "mkany" && t.args[0].op == "int" {
				fmt.Fprintf(&b, "%d;", t.args[0].val)
			} else {
				b.WriteString("?;")
			}
		}
	}
	return b.String()
}

func (e *Exec) mergeOutcomes(base *State, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []Outcome
	used := make([]bool, len(outs))
	for i := range outs {
		if used[i] {
			continue
		}
		grp := []int{i}
		if !outs[i].panicked {
			for j := i + 1; j < len(outs); j++ {
				if used[j] || outs[j].panicked || !sameHeap(outs[i].st, outs[j].st) {
					continue
				}
				ok := len(outs[i].vals) == len(outs[j].vals) && (e.spec.depth > 0 || e.lazy() || nilSig(outs[i].vals) == nilSig(outs[j].vals))
				if ok {
					for k := range outs[i].vals {
						if !e.mergeable(outs[i].vals[k], outs[j].vals[k]) {
							ok = false
						}
					}
				}
				if ok {
					grp = append(grp, j)
					used[j] = true
				}
			}
		}
		if len(grp) == 1 {
			res = append(res, outs[i])
			continue
		}
		var sts []*State
		for _, g := range grp {
			sts = append(sts, outs[g].st)
		}
		st, conds := e.joinStates(sts)
		vals := append([]Value(nil), outs[grp[len(grp)-1]].vals...)
		for k := range vals {
			for gi := len(grp) - 2; gi >= 0; gi-- {
				vals[k] = e.c.iteValue(conds[gi], outs[grp[gi]].vals[k], vals[k])
			}
		}
		res = append(res, Outcome{st: st, vals: vals})
	}
	return res
}

// mergeable: merge scalars freely, references only when equal; errors merge
// (nobody distinguishes them structurally).
func (e *Exec) mergeable(a, b Value) bool {
	if a == b {
		return true
	}
	if !sameShape(a, b) {
		return false
	}
	if e.lazy() {
		return true
	}
	fa, fb := flat(a), flat(b)
	for i := range fa {
		if fa[i] == fb[i] {
			continue
		}
		switch fa[i].sort {
		case SRef:
			return false
		case SAny:
			if e.spec.depth > 0 {
				continue
			}
			x, y := fa[i], fb[i]
			if e.isErrorAny(x) && e.isErrorAny(y) {
				continue
			}
			if x.op == "mkany" && y.op == "mkany" && x.args[0] == y.args[0] && x.args[2] == y.args[2] {
				continue
			}
			return false
		}
	}
	return true
}

func (e *Exec) isErrorAny(t *Term) bool {
	return t.op == "mkany" && t.args[0].op == "int" && t.args[0].val == uint64(e.p.reg.tag(e.p.errType))
}

// ---- blocks

// enter moves control from block prev to block b.
func (e *Exec) enter(fr *Frame, st *State, prev, b, stop *ssa.BasicBlock) []exit {
	if fr.trial != nil && !fr.trial.body[b] {
		return nil
	}
	if b == stop && prev != nil {
		e.phis(fr, prev, b)
		return []exit{{kind: xArrive, st: st, fr: fr, block: b}}
	}
	if lp := fr.info.loops[b]; lp != nil {
		inside := prev != nil && lp.body[prev]
		if inside {
			if fr.active[b] {
				e.phis(fr, prev, b)
				return []exit{{kind: xBack, st: st, fr: fr, block: b}}
			}
			if fr.visits == nil {
				fr.visits = map[*ssa.BasicBlock]int{}
			}
			fr.visits[b]++
			if fr.visits[b] > e.unrollLimit(fr) {
				panic(unrollExceeded{b, fr.fn})
			}
		} else {
			return e.execLoop(fr, st, prev, lp, stop)
		}
	}
	if prev != nil {
		e.phis(fr, prev, b)
	}
	return e.run(fr, st, b, e.firstNonPhi(b), stop)
}

func (e *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (e *Exec) phis(fr *Frame, prev, b *ssa.BasicBlock) {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, e.val(fr, ph.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func (e *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock) []exit {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in.Pos().IsValid() {
			e.curPos = in.Pos()
		}
		e.steps++
		if e.steps&255 == 0 && !e.proving && !e.stopAt.IsZero() && time.Now().After(e.stopAt) {
			unsup("time limit reached")
		}
		switch x := in.(type) {
		case *ssa.If:
			return e.branchIf(fr, st, b, x, stop)
		case *ssa.Jump:
			return e.enter(fr, st, b, b.Succs[0], stop)
		case *ssa.Return:
			var vals []Value
			for _, r := range x.Results {
				vals = append(vals, e.val(fr, r))
			}
			return []exit{{kind: xReturn, st: st, fr: fr, vals: vals}}
		case *ssa.Panic:
			return []exit{{kind: xPanic, st: st, fr: fr, pv: e.val(fr, x.X).(*Term)}}
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			var res []exit
			sts := []*State{st}
			for n := len(fr.defers) - 1; n >= 0; n-- {
				var next []*State
				for _, s := range sts {
					for _, o := range e.runDefer(fr.defers[n], s, nil) {
						if o.panicked {
							f2 := fr.clone()
							f2.defers = f2.defers[:n]
							res = append(res, exit{kind: xPanic, st: o.st, fr: f2, pv: o.pv})
							continue
						}
						next = append(next, o.st)
					}
				}
				sts = next
			}
			for _, s := range sts {
				f2 := fr.clone()
				f2.defers = nil
				res = append(res, e.run(f2, s, b, i+1, stop)...)
			}
			return res
		case *ssa.Call:
			outs := e.callInstr(fr, st, &x.Call, x)
			if len(outs) == 1 && !outs[0].panicked {
				st = outs[0].st
				e.setResult(fr, x, outs[0].vals)
				continue
			}
			var res []exit
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				if o.panicked {
					res = append(res, exit{kind: xPanic, st: o.st, fr: f2, pv: o.pv})
					continue
				}
				e.setResult(f2, x, o.vals)
				res = append(res, e.run(f2, o.st, b, i+1, stop)...)
			}
			return res
		case *ssa.Defer:
			fn, args := e.evalCall(fr, &x.Call)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferRec{&x.Call, fn, args})
		case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
			unsup("concurrency instruction %T", in)
		default:
			px := e.step(fr, st, in)
			if len(px) > 0 {
				// panic branches were split off; st continues
				rest := e.run(fr, st, b, i+1, stop)
				return append(px, rest...)
			}
			if st.dead {
				return nil
			}
		}
	}
	unsup("block without terminator")
	return nil
}

func (e *Exec) setResult(fr *Frame, x *ssa.Call, vals []Value) {
	sig := x.Call.Signature()
	switch sig.Results().Len() {
	case 0:
		fr.env[x] = &AggV{}
	case 1:
		fr.env[x] = vals[0]
	default:
		fr.env[x] = &AggV{vals}
	}
}

func (e *Exec) branchIf(fr *Frame, st *State, b *ssa.BasicBlock, x *ssa.If, stop *ssa.BasicBlock) []exit {
	cond := e.val(fr, x.Cond).(*Term)
	nc := e.c.Not(cond)
	tOK, fOK := true, true
	if cond.isTrue() {
		fOK = false
	} else if cond.isFalse() {
		tOK = false
	} else if (fr.info.plain || e.lazy() && e.p.near(fr.fn) || e.p.conditional(fr.info, b)) && !e.twice(fr.fn) {
		// both ways: asking costs more than evaluating
		tOK, fOK = !st.pcs[nc], !st.pcs[cond]
	} else {
		tOK = e.feasible(st, cond)
		if tOK {
			fOK = e.feasible(st, nc)
		}
	}
	if tOK && !fOK {
		return e.enter(fr, st, b, b.Succs[0], stop)
	}
	if fOK && !tOK {
		return e.enter(fr, st, b, b.Succs[1], stop)
	}
	j := fr.info.ipdom[b]
	inner := stop
	if j != nil && fr.info.loops[j] == nil && j != stop && fr.info.sameLoop(b, j) {
		inner = j
	}
	if lp := fr.info.loops[j]; e.lazy() && lp != nil && j != stop && !lp.body[b] && fr.info.outside(b, lp) {
		inner = j
	}
	st2 := st.clone()
	fr2 := fr.clone()
	st.branch(cond)
	st2.branch(nc)
	ex := e.enter(fr, st, b, b.Succs[0], inner)
	ex = append(ex, e.enter(fr2, st2, b, b.Succs[1], inner)...)
	if inner == nil {
		return ex
	}
	var res, arr []exit
	for _, y := range ex {
		if y.kind == xArrive && y.block == inner {
			arr = append(arr, y)
		} else {
			res = append(res, y)
		}
	}
	arr = e.mergeArrivals(arr, inner)
	if inner == stop {
		return append(res, arr...)
	}
	for _, y := range arr {
		if lp := fr.info.loops[inner]; lp != nil {
			res = append(res, e.execLoop(y.fr, y.st, nil, lp, stop)...)
			continue
		}
		res = append(res, e.run(y.fr, y.st, inner, e.firstNonPhi(inner), stop)...)
	}
	return res
}

// lazy: does the contract ask for both ways of every branch?
func (e *Exec) lazy() bool { return len(e.harness) > 0 && e.harness[0].ct.lazy }

// twice: is fn a caller of itself?
func (e *Exec) twice(fn *ssa.Function) bool {
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	return n > 1
}

func (e *Exec) mergeArrivals(arr []exit, j *ssa.BasicBlock) []exit {
	if len(arr) < 2 {
		return arr
	}
	var phis []*ssa.Phi
	for _, in := range j.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	// a loop ahead forgets what the join makes of the heap, and would
	// otherwise be gone through once for each way of reaching it
	joins := e.lazy() && arr[0].fr.info.loopAhead(j)
	var res []exit
	used := make([]bool, len(arr))
	for i := range arr {
		if used[i] {
			continue
		}
		grp := []int{i}
		for k := i + 1; k < len(arr); k++ {
			if used[k] || !joins && !sameHeap(arr[i].st, arr[k].st) || len(arr[i].fr.defers) != len(arr[k].fr.defers) {
				continue
			}
			ok := true
			for _, ph := range phis {
				if !e.mergeable(arr[i].fr.env[ph], arr[k].fr.env[ph]) {
					ok = false
					break
				}
			}
			if ok {
				grp = append(grp, k)
				used[k] = true
			}
		}
		if len(grp) == 1 {
			res = append(res, arr[i])
			continue
		}
		var sts []*State
		for _, g := range grp {
			sts = append(sts, arr[g].st)
		}
		st, conds := e.joinStates(sts)
		fr := arr[i].fr.clone()
		for _, ph := range phis {
			v := arr[grp[len(grp)-1]].fr.env[ph]
			for gi := len(grp) - 2; gi >= 0; gi-- {
				v = e.c.iteValue(conds[gi], arr[grp[gi]].fr.env[ph], v)
			}
			fr.env[ph] = v
		}
		res = append(res, exit{kind: xArrive, st: st, fr: fr, block: j})
	}
	return res
}

// ---- values

func (e *Exec) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return e.funcRef(x)
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("undefined SSA value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (e *Exec) funcRef(f *ssa.Function) *Term {
	id, ok := e.fnIDs[f]
	if !ok {
		id = -2000000 - int64(len(e.fnIDs))
		e.fnIDs[f] = id
		e.fnByID[id] = f
	}
	return e.c.Obj(id)
}

func (e *Exec) globalAddr(g *ssa.Global) *Term {
	a, ok := e.globals[g]
	if !ok {
		a = e.c.Obj(-1000 - int64(len(e.globals)))
		e.globals[g] = a
	}
	return a
}

func (e *Exec) constVal(x *ssa.Const) Value {
	c := e.c
	t := x.Type()
	if x.Value == nil {
		return c.zeroValue(t)
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("constant of %s", t)
	}
	switch {
	case s == SBool:
		return c.Bool(constant.BoolVal(x.Value))
	case s == SStr:
		if x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return c.Str(string(rune(n)))
		}
		return c.Str(constant.StringVal(x.Value))
	case isFloat(t):
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if s.width() == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(x.Value))
			return c.BVc(32, uint64(math.Float32bits(f32)))
		}
		return c.BVc(64, math.Float64bits(f))
	case s.width() > 0:
		iv := constant.ToInt(x.Value)
		if n, ok := constant.Int64Val(iv); ok {
			return c.BVc(s.width(), uint64(n))
		}
		n, _ := constant.Uint64Val(iv)
		return c.BVc(s.width(), n)
	}
	unsup("constant %s", x)
	return nil
}

// guard splits off a panic path when ok may fail.  Afterwards st assumes ok.
func (e *Exec) guard(fr *Frame, st *State, ok *Term, why string) []exit {
	if ok.isTrue() || st.pcs[ok] {
		return nil
	}
	if ok.isFalse() || e.feasible(st, e.c.Not(ok)) {
		bad := st.clone()
		bad.branch(e.c.Not(ok))
		pv := e.runtimePanic(why)
		st.branch(ok)
		if ok.isFalse() || !e.feasible(st, ok) {
			st.dead = true
		}
		return []exit{{kind: xPanic, st: bad, fr: fr.clone(), pv: pv}}
	}
	st.assume(ok)
	return nil
}

func (e *Exec) runtimePanic(why string) *Term {
	c := e.c
	where := ""
	if e.curPos.IsValid() {
		p := e.p.prog.Fset.Position(e.curPos)
		where = fmt.Sprintf(" at %s:%d", p.Filename, p.Line)
	}
	return c.MkAny(c.Intc(e.p.reg.tag(e.p.rtErrType)), c.BVc(64, 0), e.alloc(), c.Str(why+where))
}

func (e *Exec) step(fr *Frame, st *State, in ssa.Instruction) []exit {
	c := e.c
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		fr.env[x] = e.alloc()
	case *ssa.BinOp:
		return e.binop(fr, st, x)
	case *ssa.UnOp:
		return e.unop(fr, st, x)
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		v := e.val(fr, x.X)
		if t, ok := v.(*Term); ok && t.op != "mkany" {
			// the dynamic type implements the static one
			if it := under(x.X.Type()).(*types.Interface); it.NumMethods() > 0 {
				st.assume(e.c.Or(e.c.Eq(e.c.ATag(t), e.c.Intc(0)), e.implements(t, types.NewInterfaceType(nil, nil), x.X.Type())))
			}
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		fr.env[x] = e.box(st, e.val(fr, x.X), x.X.Type())
	case *ssa.MakeClosure:
		o := e.alloc()
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.free = append(cl.free, e.val(fr, b))
		}
		e.closures[e.nextObj] = cl
		fr.env[x] = o
	case *ssa.MakeMap:
		o := e.alloc()
		fr.env[x] = o
	case *ssa.MakeSlice:
		n := e.toInt64(e.val(fr, x.Len).(*Term), x.Len.Type())
		cp := e.toInt64(e.val(fr, x.Cap).(*Term), x.Cap.Type())
		px := e.guard(fr, st, c.And(c.Ule(n, c.BVc(64, 1<<40)), c.Ule(cp, c.BVc(64, 1<<40)), c.Ule(n, cp)), "makeslice: len out of range")
		fr.env[x] = &SliceV{e.alloc(), c.BVc(64, 0), n, cp}
		return px
	case *ssa.Slice:
		return e.sliceOp(fr, st, x)
	case *ssa.FieldAddr:
		base := e.val(fr, x.X).(*Term)
		px := e.guard(fr, st, c.Not(c.Eq(base, c.Nil())), "nil pointer dereference")
		pt := under(x.X.Type()).(*types.Pointer).Elem()
		fr.env[x] = e.fieldAddr(base, pt, x.Field)
		return px
	case *ssa.Field:
		fr.env[x] = e.val(fr, x.X).(*AggV).elems[x.Field]
	case *ssa.IndexAddr:
		idx := e.toInt64(e.val(fr, x.Index).(*Term), x.Index.Type())
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := e.val(fr, x.X).(*SliceV)
			px := e.guard(fr, st, c.Ult(idx, s.len), "index out of range")
			fr.env[x] = e.elAddr(s.arr, c.BVAdd(s.off, idx))
			return px
		case *types.Pointer:
			base := e.val(fr, x.X).(*Term)
			at := under(u.Elem()).(*types.Array)
			px := e.guard(fr, st, c.And(c.Ult(idx, c.BVc(64, uint64(at.Len()))), c.Not(c.Eq(base, c.Nil()))), "index out of range")
			fr.env[x] = e.elAddr(base, idx)
			return px
		}
		unsup("IndexAddr on %s", x.X.Type())
	case *ssa.Index:
		idx := e.toInt64(e.val(fr, x.Index).(*Term), x.Index.Type())
		if isString(x.X.Type()) {
			s := e.val(fr, x.X).(*Term)
			px := e.guard(fr, st, c.Ult(idx, c.SLen(s)), "index out of range")
			fr.env[x] = c.SAt(s, idx)
			return px
		}
		a := e.val(fr, x.X).(*AggV)
		px := e.guard(fr, st, c.Ult(idx, c.BVc(64, uint64(len(a.elems)))), "index out of range")
		if idx.op == "bv" && idx.val < uint64(len(a.elems)) {
			fr.env[x] = a.elems[idx.val]
			return px
		}
		if len(a.elems) == 0 {
			fr.env[x] = c.zeroValue(x.Type())
			return px
		}
		v := a.elems[len(a.elems)-1]
		for k := len(a.elems) - 2; k >= 0; k-- {
			v = c.iteValue(c.Eq(idx, c.BVc(64, uint64(k))), a.elems[k], v)
		}
		fr.env[x] = v
		return px
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			s := e.val(fr, x.X).(*Term)
			idx := e.toInt64(e.val(fr, x.Index).(*Term), x.Index.Type())
			px := e.guard(fr, st, c.Ult(idx, c.SLen(s)), "index out of range")
			fr.env[x] = c.SAt(s, idx)
			return px
		}
		mt := under(x.X.Type()).(*types.Map)
		m := e.val(fr, x.X).(*Term)
		k := e.mapKey(st, e.val(fr, x.Index), mt)
		has := e.mapHas(st, m, k)
		v := c.iteValue(has, e.mapVal(st, m, k, mt), c.zeroValue(mt.Elem()))
		if x.CommaOk {
			fr.env[x] = &AggV{[]Value{v, has}}
		} else {
			fr.env[x] = v
		}
	case *ssa.MapUpdate:
		mt := under(x.Map.Type()).(*types.Map)
		m := e.val(fr, x.Map).(*Term)
		px := e.guard(fr, st, c.Not(c.Eq(m, c.Nil())), "assignment to entry in nil map")
		k := e.mapKey(st, e.val(fr, x.Key), mt)
		e.mapSet(st, m, k, e.val(fr, x.Value), mt)
		return px
	case *ssa.Range:
		it := &IterV{cell: e.alloc()}
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			it.isMap = true
			it.mt = mt
			it.m = e.val(fr, x.X).(*Term)
			e.layerID++
			it.seq = fmt.Sprintf("mapseq%d", e.layerID)
		} else {
			it.s = e.val(fr, x.X).(*Term)
		}
		fr.env[x] = it
	case *ssa.Next:
		return e.next(fr, st, x)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, x)
	case *ssa.Extract:
		fr.env[x] = e.val(fr, x.Tuple).(*AggV).elems[x.Index]
	case *ssa.Store:
		addr := e.val(fr, x.Addr).(*Term)
		px := e.guard(fr, st, c.Not(c.Eq(addr, c.Nil())), "nil pointer dereference")
		e.store(st, addr, under(x.Addr.Type()).(*types.Pointer).Elem(), e.val(fr, x.Val))
		return px
	case *ssa.SliceToArrayPointer:
		s := e.val(fr, x.X).(*SliceV)
		at := under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array)
		px := e.guard(fr, st, c.Ule(c.BVc(64, uint64(at.Len())), s.len), "slice to array pointer")
		if !(s.off.op == "bv" && s.off.val == 0) {
			unsup("slice to array pointer at offset")
		}
		fr.env[x] = s.arr
		return px
	default:
		unsup("instruction %T", in)
	}
	return nil
}

func (e *Exec) elAddr(arr, idx *Term) *Term {
	if arr.op == "ite" {
		return e.c.Ite(arr.args[0], e.elAddr(arr.args[1], idx), e.elAddr(arr.args[2], idx))
	}
	return e.c.El(arr, idx)
}

func (e *Exec) toInt64(t *Term, typ types.Type) *Term {
	return e.c.Conv(t, isSigned(typ), 64)
}

func (e *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) []exit {
	c := e.c
	switch x.Op {
	case token.MUL:
		addr := e.val(fr, x.X).(*Term)
		px := e.guard(fr, st, c.Not(c.Eq(addr, c.Nil())), "nil pointer dereference")
		if g, ok := x.X.(*ssa.Global); ok && typeStr(x.Type()) == "error" {
			fr.env[x] = e.errorGlobal(g)
			return px
		}
		fr.env[x] = e.load(st, addr, x.Type())
		return px
	case token.NOT:
		fr.env[x] = c.Not(e.val(fr, x.X).(*Term))
	case token.SUB:
		v := e.val(fr, x.X).(*Term)
		if isFloat(x.Type()) {
			w := v.sort.width()
			fr.env[x] = c.BVXor(v, c.BVc(w, 1<<uint(w-1)))
		} else {
			fr.env[x] = c.BVNeg(v)
		}
	case token.XOR:
		fr.env[x] = c.BVNot(e.val(fr, x.X).(*Term))
	default:
		unsup("unary %s", x.Op)
	}
	return nil
}

func (e *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) []exit {
	c := e.c
	av, bv := e.val(fr, x.X), e.val(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch a := av.(type) {
		case *SliceV:
			b := bv.(*SliceV)
			if b.arr.op == "nil" {
				r = c.Eq(a.arr, c.Nil())
			} else {
				r = c.Eq(b.arr, c.Nil())
			}
		case *AggV:
			r = e.structEq(a, bv.(*AggV), t)
		case *Term:
			b := bv.(*Term)
			if isFloat(t) {
				r = c.FPOp("fp.eq", SBool, e.fp(a), e.fp(b))
			} else if a.sort == SRef {
				r = e.addrEq(a, b)
			} else {
				r = c.Eq(a, b)
			}
		}
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		fr.env[x] = r
		return nil
	}
	a, b := av.(*Term), bv.(*Term)
	if isString(t) {
		switch x.Op {
		case token.ADD:
			fr.env[x] = c.SCat(a, b)
			return nil
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			l, r := a, b
			if x.Op == token.GTR || x.Op == token.LEQ {
				l, r = b, a
			}
			v := c.App("strlt", SBool, l, r)
			if x.Op == token.LEQ || x.Op == token.GEQ {
				v = c.Not(v)
			}
			fr.env[x] = v
			return nil
		}
	}
	if isFloat(t) {
		return e.floatOp(fr, st, x, a, b)
	}
	signed := isSigned(t)
	w := a.sort.width()
	switch x.Op {
	case token.ADD:
		fr.env[x] = c.BVAdd(a, b)
	case token.SUB:
		fr.env[x] = c.BVSub(a, b)
	case token.MUL:
		fr.env[x] = c.BVMul(a, b)
	case token.QUO, token.REM:
		px := e.guard(fr, st, c.Not(c.Eq(b, c.BVc(w, 0))), "integer divide by zero")
		op := map[bool]string{true: "bvsdiv", false: "bvudiv"}[signed]
		if x.Op == token.REM {
			op = map[bool]string{true: "bvsrem", false: "bvurem"}[signed]
		}
		fr.env[x] = c.BVDivRem(op, a, b)
		return px
	case token.AND:
		fr.env[x] = c.BVAnd(a, b)
	case token.OR:
		fr.env[x] = c.BVOr(a, b)
	case token.XOR:
		fr.env[x] = c.BVXor(a, b)
	case token.AND_NOT:
		fr.env[x] = c.BVAnd(a, c.BVNot(b))
	case token.SHL, token.SHR:
		var px []exit
		ys := isSigned(x.Y.Type())
		if ys {
			px = e.guard(fr, st, c.Not(c.Slt(b, c.BVc(b.sort.width(), 0))), "negative shift amount")
		}
		bw := b.sort.width()
		var over *Term
		sh := b
		if bw > w {
			over = c.Ule(c.BVc(bw, uint64(w)), b)
			sh = c.Extract(w-1, 0, b)
		} else {
			sh = c.ZExt(w, b)
			over = c.False()
		}
		if x.Op == token.SHL {
			fr.env[x] = c.Ite(over, c.BVc(w, 0), c.BVShl(a, sh))
		} else if signed {
			fr.env[x] = c.Ite(over, c.BVAshr(a, c.BVc(w, uint64(w-1))), c.BVAshr(a, sh))
		} else {
			fr.env[x] = c.Ite(over, c.BVc(w, 0), c.BVLshr(a, sh))
		}
		return px
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		l, r := a, b
		neg := false
		switch x.Op {
		case token.GTR:
			l, r = b, a
		case token.LEQ:
			l, r = b, a
			neg = true
		case token.GEQ:
			neg = true
		}
		var v *Term
		if signed {
			v = c.Slt(l, r)
		} else {
			v = c.Ult(l, r)
		}
		if neg {
			v = c.Not(v)
		}
		fr.env[x] = v
	default:
		unsup("binary %s", x.Op)
	}
	return nil
}

func (e *Exec) structEq(a, b *AggV, t types.Type) *Term {
	c := e.c
	r := c.True()
	elem := func(i int) types.Type {
		switch u := under(t).(type) {
		case *types.Struct:
			return u.Field(i).Type()
		case *types.Array:
			return u.Elem()
		}
		return nil
	}
	for i := range a.elems {
		switch x := a.elems[i].(type) {
		case *AggV:
			r = c.And(r, e.structEq(x, b.elems[i].(*AggV), elem(i)))
		case *Term:
			y := b.elems[i].(*Term)
			if isFloat(elem(i)) {
				r = c.And(r, c.FPOp("fp.eq", SBool, e.fp(x), e.fp(y)))
			} else {
				r = c.And(r, c.Eq(x, y))
			}
		default:
			unsup("comparison of %s", t)
		}
	}
	return r
}

// ---- maps

func (e *Exec) mapKey(st *State, k Value, mt *types.Map) *Term {
	if isIface(mt.Key()) {
		return k.(*Term)
	}
	return e.box(st, k, mt.Key())
}

const mapHasKey, mapLenKey = "M:has", "M:len"

func (e *Exec) mapHas(st *State, m, k *Term) *Term {
	if m.op == "nil" {
		return e.c.False()
	}
	if m.op == "ite" {
		return e.c.Ite(m.args[0], e.mapHas(st, m.args[1], k), e.mapHas(st, m.args[2], k))
	}
	h := e.readLeaf(e.chain(st, mapHasKey), e.c.Me(m, k), SBool, nil)
	if m.op == "obj" {
		return h
	}
	return e.c.And(e.c.Not(e.c.Eq(m, e.c.Nil())), h)
}

func (e *Exec) mapVal(st *State, m, k *Term, mt *types.Map) Value {
	if m.op == "ite" {
		return e.c.iteValue(m.args[0], e.mapVal(st, m.args[1], k, mt), e.mapVal(st, m.args[2], k, mt))
	}
	return e.load(st, e.c.Me(m, k), mt.Elem())
}

func (e *Exec) mapLen(st *State, m *Term) *Term {
	c := e.c
	if m.op == "nil" {
		return c.BVc(64, 0)
	}
	if m.op == "ite" {
		return c.Ite(m.args[0], e.mapLen(st, m.args[1]), e.mapLen(st, m.args[2]))
	}
	n := e.readLeaf(e.chain(st, mapLenKey), m, SBV64, nil)
	if !n.open && n.op == "app" {
		c.addFact(n, c.Ule(n, c.BVc(64, 1<<40)))
	}
	if m.op == "obj" {
		return n
	}
	return c.Ite(c.Eq(m, c.Nil()), c.BVc(64, 0), n)
}

func (e *Exec) mapSet(st *State, m, k *Term, v Value, mt *types.Map) {
	c := e.c
	if m.op == "ite" {
		unsup("map update through merged reference")
	}
	has := e.mapHas(st, m, k)
	n := e.mapLen(st, m)
	e.writeLeaf(st, mapLenKey, m, c.Ite(has, n, c.BVAdd(n, c.BVc(64, 1))))
	e.writeLeaf(st, mapHasKey, c.Me(m, k), c.True())
	e.store(st, c.Me(m, k), mt.Elem(), v)
}

func (e *Exec) mapDelete(st *State, m, k *Term) {
	c := e.c
	has := e.mapHas(st, m, k)
	n := e.mapLen(st, m)
	e.writeLeaf(st, mapLenKey, m, c.Ite(has, c.BVSub(n, c.BVc(64, 1)), n))
	e.writeLeaf(st, mapHasKey, c.Me(m, k), c.False())
}

func (e *Exec) next(fr *Frame, st *State, x *ssa.Next) []exit {
	c := e.c
	it := e.val(fr, x.Iter).(*IterV)
	posKey := "G:iterpos"
	pos := e.readLeaf(e.chain(st, posKey), it.cell, SBV64, nil)
	if it.isMap {
		n := e.mapLen(st, it.m)
		ok := c.Ult(pos, n)
		tt := x.Type().(*types.Tuple)
		var kv Value
		kt := it.mt.Key()
		key := c.App(it.seq+".key", SAny, pos)
		if !key.open {
			e.typeFacts(key, nil, e.nextObj)
			if !isIface(kt) {
				e.boxFacts(key, kt)
			} else {
				e.ifaceFacts(key, kt)
			}
		}
		idx := c.App(it.seq+".idx", SBV64, key)
		st.assume(c.Eq(idx, pos))
		st.assume(c.Imp(ok, e.mapHas(st, it.m, key)))
		if isIface(kt) {
			kv = key
		} else {
			kv = e.unbox(st, key, kt)
		}
		vv := e.mapVal(st, it.m, key, it.mt)
		e.writeLeaf(st, posKey, it.cell, c.BVAdd(pos, c.BVc(64, 1)))
		var k2, v2 Value = kv, vv
		if b, isb := tt.At(1).Type().(*types.Basic); isb && b.Kind() == types.Invalid {
			k2 = c.False()
		}
		if b, isb := tt.At(2).Type().(*types.Basic); isb && b.Kind() == types.Invalid {
			v2 = c.False()
		}
		fr.env[x] = &AggV{[]Value{ok, k2, v2}}
		return nil
	}
	// string iteration
	ok := c.Ult(pos, c.SLen(it.s))
	r, n := e.decodeRune(it.s, pos)
	e.writeLeaf(st, posKey, it.cell, c.Ite(ok, c.BVAdd(pos, n), pos))
	fr.env[x] = &AggV{[]Value{ok, pos, r}}
	return nil
}

// decodeRune models utf8.DecodeRuneInString(s[i:]) for i < len(s).
func (e *Exec) decodeRune(s, i *Term) (*Term, *Term) {
	c := e.c
	b := c.SAt(s, i)
	if b.op == "bv" && b.val < 0x80 {
		return c.BVc(32, b.val), c.BVc(64, 1)
	}
	r := c.App("runeAt", SBV32, s, i)
	n := c.App("runeSize", SBV64, s, i)
	if !r.open {
		ascii := c.Ult(b, c.BVc(8, 0x80))
		inr := c.Ult(i, c.SLen(s))
		c.addFact(r, c.Imp(ascii, c.Eq(r, c.ZExt(32, b))))
		c.addFact(r, c.Imp(c.Not(ascii), c.And(c.Ule(c.BVc(32, 0x80), r), c.Ule(r, c.BVc(32, 0x10ffff)))))
		c.addFact(r, c.Not(c.And(c.Ule(c.BVc(32, 0xd800), r), c.Ule(r, c.BVc(32, 0xdfff)))))
		c.addFact(n, c.And(c.Ule(c.BVc(64, 1), n), c.Ule(n, c.BVc(64, 4))))
		c.addFact(n, c.Imp(ascii, c.Eq(n, c.BVc(64, 1))))
		c.addFact(n, c.Imp(inr, c.Ule(n, c.BVSub(c.SLen(s), i))))
		// multi-byte sequences are as long as the encoding of the rune
		re := c.BVc(32, 0xfffd)
		okr := c.Not(c.Eq(r, re))
		c.addFact(n, c.Imp(okr, c.Eq(n, e.runeLen(r))))
	}
	return r, n
}

func (e *Exec) runeLen(r *Term) *Term {
	c := e.c
	return c.Ite(c.Ult(r, c.BVc(32, 0x80)), c.BVc(64, 1), c.Ite(c.Ult(r, c.BVc(32, 0x800)), c.BVc(64, 2), c.Ite(c.Ult(r, c.BVc(32, 0x10000)), c.BVc(64, 3), c.BVc(64, 4))))
}

// ---- slices

func (e *Exec) sliceOp(fr *Frame, st *State, x *ssa.Slice) []exit {
	c := e.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.toInt64(e.val(fr, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.BVc(64, 0)
	}
	if isString(x.X.Type()) {
		s := e.val(fr, x.X).(*Term)
		n := c.SLen(s)
		if hi == nil {
			hi = n
		}
		px := e.guard(fr, st, c.And(c.Ule(lo, hi), c.Ule(hi, n)), "slice bounds out of range")
		fr.env[x] = c.SSub(s, lo, hi)
		return px
	}
	var s *SliceV
	var px []exit
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s = e.val(fr, x.X).(*SliceV)
	case *types.Pointer:
		base := e.val(fr, x.X).(*Term)
		n := c.BVc(64, uint64(under(u.Elem()).(*types.Array).Len()))
		px = e.guard(fr, st, c.Not(c.Eq(base, c.Nil())), "nil pointer dereference")
		s = &SliceV{base, c.BVc(64, 0), n, n}
	}
	if hi == nil {
		hi = s.len
	}
	lim := s.cap
	if mx != nil {
		lim = mx
		px = append(px, e.guard(fr, st, c.Ule(mx, s.cap), "slice bounds out of range")...)
	}
	px = append(px, e.guard(fr, st, c.And(c.Ule(lo, hi), c.Ule(hi, lim)), "slice bounds out of range")...)
	fr.env[x] = &SliceV{s.arr, c.BVAdd(s.off, lo), c.BVSub(hi, lo), c.BVSub(lim, lo)}
	return px
}

func (e *Exec) appendSlice(st *State, s *SliceV, t *SliceV, elem types.Type) *SliceV {
	c := e.c
	if t.len.op == "bv" && t.len.val == 0 {
		return s
	}
	arr := e.alloc()
	n := c.BVAdd(s.len, t.len)
	var cp *Term
	if n.op == "bv" {
		cp = n
	} else {
		cp = c.Fresh("cap", SBV64)
		c.addFact(cp, c.And(c.Ule(n, cp), c.Ule(cp, c.BVc(64, 1<<41))))
	}
	z := c.BVc(64, 0)
	// take both sources from the state before
	tmp := st.clone()
	e.copyRange(st, elem, arr, z, s.arr, s.off, s.len)
	if t.len.op == "bv" && t.len.val <= 8 {
		for i := uint64(0); i < t.len.val; i++ {
			v := e.load(tmp, c.El(t.arr, c.BVAdd(t.off, c.BVc(64, i))), elem)
			e.store(st, c.El(arr, c.BVAdd(s.len, c.BVc(64, i))), elem, v)
		}
	} else {
		e.copyRange(st, elem, arr, s.len, t.arr, t.off, t.len)
	}
	return &SliceV{arr, z, n, cp}
}

// ---- interfaces

// box converts a concrete value into its interface representation.
func (e *Exec) box(st *State, v Value, t types.Type) *Term {
	c := e.c
	tag := c.Intc(e.p.reg.tag(t))
	z := c.BVc(64, 0)
	if s, ok := scalarSort(t); ok {
		x := v.(*Term)
		switch {
		case s == SBool:
			return c.MkAny(tag, c.Ite(x, c.BVc(64, 1), z), c.Nil(), c.EmptyStr())
		case s == SStr:
			return c.MkAny(tag, z, c.Nil(), x)
		case s == SRef:
			return c.MkAny(tag, z, x, c.EmptyStr())
		case s == SAny:
			return x
		default:
			return c.MkAny(tag, c.ZExt(64, x), c.Nil(), c.EmptyStr())
		}
	}
	// composite: an immutable box whose identity is a function of its content,
	// so that equal contents give equal interface values
	ts := flat(v)
	name := "box." + typeStr(t)
	if len(ts) == 0 {
		return c.MkAny(tag, z, c.Nil(), c.EmptyStr())
	}
	ref := c.App(name, SRef, ts...)
	if !ref.open {
		for i, x := range ts {
			c.addFact(ref, c.mk("=", SBool, 0, "", c.App(fmt.Sprintf("unbox%d.%s", i, typeStr(t)), x.sort, ref), x))
		}
		c.addFact(ref, c.Not(c.Eq(ref, c.Nil())))
		e.ages[ref] = ageRange{ageMin, e.nextObj}
	}
	return c.MkAny(tag, z, ref, c.EmptyStr())
}

func (e *Exec) boxFacts(a *Term, t types.Type) {
	// canonical form of an interface value of dynamic type t
	c := e.c
	c.addFact(a, e.canonical(a, t))
}

// canonical states that if a has dynamic type t it is in canonical form.
func (e *Exec) canonical(a *Term, t types.Type) *Term {
	c := e.c
	if a.op == "mkany" {
		return c.True()
	}
	z := c.BVc(64, 0)
	s, ok := scalarSort(t)
	if !ok {
		return c.And(c.Eq(c.ABits(a), z), c.Eq(c.AStr(a), c.EmptyStr()))
	}
	switch {
	case s == SBool:
		return c.And(c.Ule(c.ABits(a), c.BVc(64, 1)), c.Eq(c.ARef(a), c.Nil()), c.Eq(c.AStr(a), c.EmptyStr()))
	case s == SStr:
		return c.And(c.Eq(c.ABits(a), z), c.Eq(c.ARef(a), c.Nil()))
	case s == SRef:
		return c.And(c.Eq(c.ABits(a), z), c.Eq(c.AStr(a), c.EmptyStr()))
	}
	w := s.width()
	r := c.And(c.Eq(c.ARef(a), c.Nil()), c.Eq(c.AStr(a), c.EmptyStr()))
	if w < 64 {
		r = c.And(r, c.Ult(c.ABits(a), c.BVc(64, 1<<uint(w))))
	}
	return r
}

// unbox extracts the payload of type t; the caller knows the dynamic type.
func (e *Exec) unbox(st *State, a *Term, t types.Type) Value {
	c := e.c
	if a.op == "ite" {
		x := e.unbox(st, a.args[1], t)
		y := e.unbox(st, a.args[2], t)
		return c.iteValue(a.args[0], x, y)
	}
	if s, ok := scalarSort(t); ok {
		switch {
		case s == SBool:
			b := c.ABits(a)
			if b.op == "ite" && b.args[1].op == "bv" && b.args[2].op == "bv" && b.args[1].val == 1 && b.args[2].val == 0 {
				return b.args[0]
			}
			return c.Not(c.Eq(b, c.BVc(64, 0)))
		case s == SStr:
			return c.AStr(a)
		case s == SRef:
			r := c.ARef(a)
			return r
		case s == SAny:
			return a
		default:
			return c.Extract(s.width()-1, 0, c.ABits(a))
		}
	}
	ref := c.ARef(a)
	if ref.op == "app" && ref.name == sanitize("box."+typeStr(t)) {
		v, _ := unflat(e.shape(t), ref.args)
		return v
	}
	var ts []*Term
	sh := e.shape(t)
	for i, x := range flat(sh) {
		n := len(c.terms)
		r := c.App(fmt.Sprintf("unbox%d.%s", i, typeStr(t)), x.sort, ref)
		if r.id >= n && !r.open {
			switch r.sort {
			case SRef:
				e.setAge(r, ageRange{ageMin, e.ageOf(ref).hi})
			case SAny:
				e.setAge(c.ARef(r), ageRange{ageMin, e.ageOf(ref).hi})
			}
		}
		ts = append(ts, r)
	}
	v, _ := unflat(sh, ts)
	if s, ok := v.(*SliceV); ok {
		e.sliceFacts(s)
	}
	return v
}

func (e *Exec) shape(t types.Type) Value { return e.c.zeroValue(t) }

func (e *Exec) tagIn(a *Term, ts []types.Type) *Term {
	c := e.c
	tag := c.ATag(a)
	r := c.False()
	for _, t := range ts {
		r = c.Or(r, c.Eq(tag, c.Intc(e.p.reg.tag(t))))
	}
	return r
}

func (e *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []exit {
	c := e.c
	a := e.val(fr, x.X).(*Term)
	var ok *Term
	var v Value
	t := x.AssertedType
	if isIface(t) {
		ok = e.implements(a, x.X.Type(), t)
		v = a
		if x.CommaOk {
			v = c.Ite(ok, a, c.NilAny())
		}
	} else {
		ok = c.Eq(c.ATag(a), c.Intc(e.p.reg.tag(t)))
		if !ok.isFalse() {
			st.assume(c.Imp(ok, e.canonical(a, t)))
			v = e.unbox(st, a, t)
		} else {
			v = c.zeroValue(t)
		}
		if x.CommaOk {
			v = c.iteValue(ok, v, c.zeroValue(t))
		}
	}
	if x.CommaOk {
		fr.env[x] = &AggV{[]Value{v, ok}}
		return nil
	}
	px := e.guard(fr, st, ok, "interface conversion")
	fr.env[x] = v
	return px
}

// implements: does the dynamic type of a implement interface t?
func (e *Exec) implements(a *Term, static types.Type, t types.Type) *Term {
	c := e.c
	it := under(t).(*types.Interface)
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(c.ATag(a), c.Intc(0)))
	}
	if a.op == "mkany" && a.args[0].op == "int" {
		id := a.args[0].val
		if id == 0 {
			return c.False()
		}
		return c.Bool(types.Implements(e.p.reg.tagTypes[id], it))
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], e.implements(a.args[1], static, t), e.implements(a.args[2], static, t))
	}
	if impl, closed := e.p.implementers(t); closed {
		if simpl, sclosed := e.p.implementers(static); sclosed {
			// only those that can occur
			set := map[string]bool{}
			for _, s := range simpl {
				set[typeStr(s)] = true
			}
			var f []types.Type
			for _, s := range impl {
				if set[typeStr(s)] {
					f = append(f, s)
				}
			}
			impl = f
			if len(f) == len(simpl) {
				return c.Not(c.Eq(c.ATag(a), c.Intc(0)))
			}
		}
		return e.tagIn(a, impl)
	}
	// open world: an uninterpreted predicate on tags, fixed for known types
	if simpl, closed := e.p.implementers(static); closed {
		var f []types.Type
		for _, s := range simpl {
			if types.Implements(s, it) {
				f = append(f, s)
			}
		}
		return e.tagIn(a, f)
	}
	r := c.App("impl."+typeStr(t), SBool, c.ATag(a))
	if !r.open {
		c.addFact(r, c.Imp(r, c.Not(c.Eq(c.ATag(a), c.Intc(0)))))
	}
	return r
}

// ---- conversions

func (e *Exec) fp(bits *Term) *Term {
	if n, k, ok := e.dyOf(bits); ok && bits.op == "app" {
		f := e.c.FPOp("fp.of.sbv", SF64, n)
		if k == 0 {
			return f
		}
		return e.c.FPOp("fp.div", SF64, f, e.c.FP(e.c.BVc(64, math.Float64bits(float64(uint64(1)<<k)))))
	}
	if isApp(bits, "log2") || isApp(bits, "log2div") {
		unsup("logarithm in a general float expression")
	}
	return e.c.FP(bits)
}

func (e *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	fu, tu := under(from), under(to)
	if types.Identical(fu, tu) {
		return v
	}
	switch {
	case isInteger(from) && isInteger(to):
		s, _ := scalarSort(to)
		return c.Conv(v.(*Term), isSigned(from), s.width())
	case isInteger(from) && isFloat(to):
		return e.intToFloat(st, v.(*Term), isSigned(from), to)
	case isFloat(from) && isInteger(to):
		return e.floatToInt(v.(*Term), isSigned(to), to)
	case isFloat(from) && isFloat(to):
		s, _ := scalarSort(to)
		x := v.(*Term)
		if x.sort == s {
			return x
		}
		return c.FPBits(c.FPOp("fp.cvt", fpSort(s.width()), e.fp(x)))
	case isString(to):
		if sl, ok := fu.(*types.Slice); ok {
			s, _ := scalarSort(sl.Elem())
			if s == SBV8 {
				return e.bytesToString(st, v.(*SliceV))
			}
			r := c.App("runes2str", SStr, append(flat(v), c.Intc(int64(e.chain(st, "C:int32").id)))...)
			return r
		}
		if isInteger(from) {
			x := c.Conv(v.(*Term), isSigned(from), 64)
			if x.op == "bv" {
				return c.Str(string(rune(int64(x.val))))
			}
			r := c.App("rune2str", SStr, x)
			if !r.open {
				ascii := c.Ult(x, c.BVc(64, 0x80))
				c.addFact(r, c.Imp(ascii, c.And(c.Eq(c.SLen(r), c.BVc(64, 1)), c.Eq(c.SAt(r, c.BVc(64, 0)), c.Extract(7, 0, x)))))
				valid := c.And(c.Ule(x, c.BVc(64, 0x10ffff)), c.Not(c.And(c.Ule(c.BVc(64, 0xd800), x), c.Ule(x, c.BVc(64, 0xdfff)))))
				c.addFact(r, c.Imp(valid, c.Eq(c.SLen(r), e.runeLen(c.Extract(31, 0, x)))))
				c.addFact(r, c.Imp(c.Not(valid), c.Eq(c.SLen(r), c.BVc(64, 3))))
			}
			return r
		}
	case isString(from):
		if sl, ok := tu.(*types.Slice); ok {
			s, _ := scalarSort(sl.Elem())
			x := v.(*Term)
			n := c.SLen(x)
			if s == SBV8 {
				arr := e.alloc()
				e.fillFn(st, sl.Elem(), arr, c.BVc(64, 0), n, func(i *Term) *Term { return c.SAt(x, i) })
				return &SliceV{arr, c.BVc(64, 0), n, n}
			}
			if x.op == "str" {
				arr := e.alloc()
				rs := []rune(x.name)
				for i, r := range rs {
					e.store(st, c.El(arr, c.BVc(64, uint64(i))), sl.Elem(), c.BVc(32, uint64(uint32(r))))
				}
				k := c.BVc(64, uint64(len(rs)))
				return &SliceV{arr, c.BVc(64, 0), k, k}
			}
			arr := e.alloc()
			rn := c.App("runeCount", SBV64, x)
			if !rn.open {
				c.addFact(rn, c.Ule(rn, n))
				c.addFact(rn, c.Imp(c.Ult(c.BVc(64, 0), n), c.Ult(c.BVc(64, 0), rn)))
			}
			e.fillFn(st, sl.Elem(), arr, c.BVc(64, 0), rn, func(i *Term) *Term { return c.App("runeIdx", SBV32, x, i) })
			return &SliceV{arr, c.BVc(64, 0), rn, rn}
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (e *Exec) bytesToString(st *State, s *SliceV) *Term {
	c := e.c
	if s.len.op == "bv" && s.len.val <= 64 {
		// constant content?
		all := true
		var bs []byte
		for i := uint64(0); i < s.len.val; i++ {
			v := e.load(st, c.El(s.arr, c.BVAdd(s.off, c.BVc(64, i))), types.Typ[types.Byte]).(*Term)
			if v.op != "bv" {
				all = false
				break
			}
			bs = append(bs, byte(v.val))
		}
		if all {
			return c.Str(string(bs))
		}
	}
	l := e.chain(st, "C:uint8")
	r := c.App("bytes2str", SStr, s.arr, s.off, s.len, c.Intc(int64(l.id)))
	e.strSrc[r] = func(i *Term) *Term {
		return e.readLeaf(l, c.El(s.arr, c.BVAdd(s.off, i)), SBV8, types.Typ[types.Byte])
	}
	if !r.open {
		c.addFact(r, c.mk("=", SBool, 0, "", c.App("slen", SBV64, r), s.len))
	}
	return r
}

// errorGlobal: package level error values are distinct non-nil constants.
func (e *Exec) errorGlobal(g *ssa.Global) *Term {
	a := e.globalAddr(g)
	e.note("package level error values are distinct and never reassigned")
	t := e.c.MkAny(e.c.Intc(e.p.reg.tag(e.p.errType)), e.c.BVc(64, 0), e.c.Obj(int64(a.args[0].val)-500000), e.c.EmptyStr())
	if !slices.Contains(e.errVals, t) {
		e.errVals = append(e.errVals, t)
	}
	return t
}

var traceOn = os.Getenv("GOVER_TRACE") != ""

var debugOn = os.Getenv("GOVER_DEBUG") != ""

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
