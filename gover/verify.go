package main

// Verification of one contract: run the harness symbolically, discharge the
// obligations.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblResult struct {
	Name    string  `json:"name"`
	Pos     string  `json:"pos,omitempty"`
	Status  string  `json:"status"` // proved, failed, unknown, unsupported
	Backend string  `json:"backend,omitempty"`
	Seconds float64 `json:"seconds,omitempty"`
	Detail  string  `json:"detail,omitempty"`
	Inputs  []Input `json:"inputs,omitempty"`
}

type Input struct {
	Name  string `json:"name"`
	Go    string `json:"go"` // Go expression of the counterexample value
	Known bool   `json:"known"`
}

type ContractResult struct {
	ct        *Contract
	Name      string      `json:"name"`
	Obls      []OblResult `json:"obligations"`
	Covers    int         `json:"covers"`
	CoverBad  []string    `json:"covers_failed,omitempty"`
	Used      []string    `json:"contracts_used"`
	Inlined   []string    `json:"inlined"`
	Notes     []string    `json:"notes"`
	NonTerm   []string    `json:"loops_without_measure,omitempty"`
	Invs      int         `json:"loop_invariants"`
	Wall      float64     `json:"wall_s"`
	SolverSec float64     `json:"solver_s"`
}

func (r *ContractResult) failed() []OblResult {
	var out []OblResult
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

type limits struct {
	obl      time.Duration
	fallback time.Duration
	contract time.Duration
	end      time.Time
}

func verifyContract(p *Program, ct *Contract, lim limits) (res *ContractResult) {
	t0 := time.Now()
	res = &ContractResult{ct: ct, Name: ct.name}
	e := newExec(p)
	e.stopAt = t0.Add(lim.contract)
	if !lim.end.IsZero() && e.stopAt.After(lim.end) {
		e.stopAt = lim.end
	}
	defer func() {
		e.s.Close()
		e.feas.Close()
		for k := range e.contractsUsed {
			res.Used = append(res.Used, k)
		}
		for k := range e.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		for k := range e.notes {
			res.Notes = append(res.Notes, k)
		}
		for k := range e.nonterm {
			res.NonTerm = append(res.NonTerm, k)
		}
		sort.Strings(res.Used)
		sort.Strings(res.Inlined)
		sort.Strings(res.Notes)
		sort.Strings(res.NonTerm)
		res.Invs = e.invCount
		res.Wall = time.Since(t0).Seconds()
		res.SolverSec = float64(e.s.nanos+e.feas.nanos) / 1e9
	}()
	err := e.runHarness(ct)
	if err != nil {
		res.Obls = append(res.Obls, OblResult{Name: ct.name + ": within reach of the verifier", Status: "unsupported", Detail: err.Error()})
	}
	for k := range e.spec.keys {
		if e.spec.dirty[k] {
			res.Obls = append(res.Obls, OblResult{Name: ct.name + ": state read by specification functions is not modified", Status: "unsupported", Detail: k})
		}
	}
	e.discharge(res, lim)
	for _, cv := range e.covers {
		st := &State{pc: cv.pc}
		pc, extra := e.prepQuery(st, e.c.True(), false)
		if e.s.Check(pc, extra, 3000) == "unsat" {
			res.CoverBad = append(res.CoverBad, cv.name)
		} else {
			res.Covers++
		}
	}
	if len(e.covers) > 0 && res.Covers == 0 {
		res.Obls = append(res.Obls, OblResult{Name: ct.name + ": precondition satisfiable", Status: "failed", Detail: "no state satisfies the precondition"})
	}
	if err == nil && len(e.obls) == 0 {
		res.Obls = append(res.Obls, OblResult{Name: ct.name + ": generates obligations", Status: "failed", Detail: "no obligations"})
	}
	return res
}

func (e *Exec) runHarness(ct *Contract) (err error) {
	var fr []string
	defer func() {
		if r := recover(); r != nil {
			for _, f := range e.stack {
				fr = append(fr, f.Name())
			}
			switch x := r.(type) {
			case unsupported:
				pos := ""
				if e.curPos.IsValid() {
					pos = e.p.prog.Fset.Position(e.curPos).String()
				}
				err = fmt.Errorf("%s (at %s in %s)", x.msg, pos, strings.Join(fr, ">"))
			case unrollExceeded:
				err = fmt.Errorf("loop in %s exceeds the unrolling bound", x.fn)
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v (in %s)", r, strings.Join(fr, ">"))
			}
			e.stack = nil
			e.frames = nil
			e.logs = nil
		}
	}()
	st := &State{pcs: map[*Term]bool{}, br: map[*Term]bool{}, heap: map[string]*Layer{}}
	st = e.runInits(ct.fn.Pkg, st)
	var args []Value
	e.nextObj = 1000
	for _, prm := range ct.fn.Params {
		v := e.freshValue(prm.Name(), prm.Type(), e.nextObj)
		args = append(args, v)
		e.harnessVals = append(e.harnessVals, typedVal{prm.Name(), prm.Type(), v})
	}
	for k, b := range e.bases {
		_ = k
		b.wm = e.nextObj
	}
	e.baseWM = e.nextObj
	h := &HarnessCtx{ct: ct, verify: true, entry: e.nextObj}
	e.harness = []*HarnessCtx{h}
	e.initState = st.clone()
	outs := e.call(ct.fn, args, nil, st, h)
	for _, o := range outs {
		if o.panicked {
			why := "panic"
			if o.pv.op == "mkany" && o.pv.args[3].op == "str" && o.pv.args[3].name != "" {
				why = o.pv.args[3].name
			}
			pos := ""
			if i := strings.Index(why, " at "); i >= 0 {
				pos = why[i+4:]
				why = why[:i]
			}
			e.obls = append(e.obls, &Obligation{name: ct.name + ": does not panic (" + why + ")", pos: pos, pc: o.st.pc, goal: e.c.False(), st: o.st})
		} else if ct.lemma {
			e.covers = append(e.covers, coverRec{ct.name + ": end reached", o.st.pc})
		}
	}
	if !h.called && ct.target != nil {
		return fmt.Errorf("target not reached by its contract")
	}
	return nil
}

// runInits executes the package initialisers of the module packages that pkg
// depends on, so that package level tables have their values.
func (e *Exec) runInits(pkg *ssa.Package, st *State) *State {
	fn := pkg.Func("init")
	if fn == nil {
		return st
	}
	e.inInit = true
	e.nextObj = 2 * initTop
	defer func() { e.inInit = false }()
	outs := e.call(fn, nil, nil, st, nil)
	e.inlined = map[string]bool{}
	for _, o := range outs {
		if !o.panicked {
			s := o.st
			s.pc = nil
			s.pcs = map[*Term]bool{}
			s.br = map[*Term]bool{}
			return s
		}
	}
	return st
}

func (e *Exec) discharge(res *ContractResult, lim limits) {
	e.proving = true
	type key struct {
		name string
		goal *Term
		n    int
	}
	seen := map[string]bool{}
	for _, o := range e.obls {
		k := fmt.Sprintf("%s|%d|%d", o.name, o.goal.id, len(o.pc))
		if len(o.pc) > 0 {
			k += fmt.Sprintf("|%d", o.pc[len(o.pc)-1].id)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		t0 := time.Now()
		r := OblResult{Name: o.name, Pos: e.relPos(o.pos)}
		done := prof("prove", func() string { return o.name + " " + r.Pos + " " + r.Backend })
		r.Status, r.Backend = e.prove(o, lim)
		done()
		r.Seconds = time.Since(t0).Seconds()
		if r.Status != "proved" {
			r.Inputs = e.counterexample(o)
			if debugOn {
				e.dumpObl(o)
			}
		}
		res.Obls = append(res.Obls, r)
	}
}

func (e *Exec) relPos(p string) string {
	return strings.TrimPrefix(p, e.p.repo+"/")
}

func (e *Exec) dumpObl(o *Obligation) {
	fmt.Fprintf(os.Stderr, "---- %s (%s)\n", o.name, o.pos)
	for _, t := range o.pc {
		s := t.String()
		if len(s) > 6000 {
			s = s[:6000] + "..."
		}
		fmt.Fprintf(os.Stderr, "  pc %s\n", s)
	}
	s := o.goal.String()
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	fmt.Fprintf(os.Stderr, "  goal %s\n", s)
}

// conjuncts splits a goal.
func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func (e *Exec) prove(o *Obligation, lim limits) (string, string) {
	if o.goal.isTrue() {
		return "proved", "simplifier"
	}
	st := o.st
	st = &State{pc: o.pc, pcs: map[*Term]bool{}, br: map[*Term]bool{}, heap: o.st.heap, joins: o.st.joins}
	backend := "simplifier"
	for _, g := range conjuncts(o.goal) {
		if g.isTrue() {
			continue
		}
		s, b := e.prove1(st, g, lim)
		if s != "proved" {
			return s, b
		}
		if b != "simplifier" {
			backend = b
		}
	}
	return "proved", backend
}

// mentions: does t contain one of the terms?
func mentions(t *Term, ts []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, x := range ts {
			if t == x {
				return true
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// oneWay is the state and goal with the way cond of the join taken; nil when
// the way is not open.
func (e *Exec) oneWay(st *State, g *Term, join int, cond *Term) (*State, *Term) {
	m := map[*Term]*Term{cond: e.c.True()}
	for _, x := range conjuncts(cond) {
		m[x] = e.c.True()
		m[e.c.Not(x)] = e.c.False()
	}
	out := &State{pcs: map[*Term]bool{}, br: map[*Term]bool{}, heap: st.heap, joins: st.joins[:join:join]}
	for _, x := range conjuncts(cond) {
		out.assume(x)
	}
	for _, t := range st.pc {
		t = e.c.Subst(t, m)
		if t.isFalse() {
			return nil, nil
		}
		for _, x := range conjuncts(t) {
			out.assume(x)
		}
	}
	return out, e.c.Subst(g, m)
}

func (e *Exec) prove1(st *State, g *Term, lim limits) (string, string) {
	for _, t := range st.pc {
		if t == g {
			return "proved", "simplifier"
		}
	}
	for i := len(st.joins) - 1; i >= 0; i-- {
		if !mentions(g, st.joins[i]) {
			continue
		}
		for _, cond := range st.joins[i] {
			sc, gc := e.oneWay(st, g, i, cond)
			if sc == nil || gc.isTrue() {
				continue
			}
			if s, b := e.prove1(sc, gc, lim); s != "proved" {
				return s, b
			}
		}
		return "proved", "z3-5.3.2"
	}
	neg := e.negGoal(g)
	if e.hasQuant(st) && !neg.quant {
		pc, extra := e.prepGround(st, neg)
		if e.s.Check(pc, extra, 2000) == "unsat" {
			return "proved", "z3-5.3.2"
		}
	}
	pc, extra := e.prepQuery(st, neg, false)
	r := e.s.Check(pc, extra, int(min(lim.obl, 3*time.Second)/time.Millisecond))
	if r == "unknown" {
		r = e.c.oneShot(append(append([]*Term{}, pc...), extra...), lim.obl)
	}
	if r == "unsat" {
		return "proved", "z3-5.3.2"
	}
	for round := 0; round < 3 && !time.Now().After(e.stopAt); round++ {
		if !e.deepen(st, append(append([]*Term{}, pc...), extra...)) {
			break
		}
		pc, extra = e.prepQuery(st, neg, false)
		r = e.s.Check(pc, extra, int(lim.obl/time.Millisecond))
		if r == "unsat" {
			return "proved", "z3-5.3.2"
		}
	}
	if d := os.Getenv("GOVER_DUMP"); d != "" && r == "sat" {
		os.WriteFile(fmt.Sprintf("%s/o%d.smt2", d, time.Now().UnixNano()), []byte(e.c.script(append(append([]*Term{}, pc...), extra...), nil)), 0o644)
	}
	q := e.hasQuant(st) || neg.quant
	if r == "sat" && !q {
		return "failed", "z3-5.3.2"
	}
	if time.Now().After(e.stopAt) {
		return "unknown", ""
	}
	if q {
		pc, extra = e.prepQuery(st, neg, true)
	}
	r, who := e.c.proveFallback(append(append([]*Term{}, pc...), extra...), lim.fallback)
	switch r {
	case "unsat":
		return "proved", who
	case "sat":
		return "failed", who
	}
	return "unknown", ""
}

// counterexample evaluates the harness parameters in a model of the failed
// obligation.
func (e *Exec) counterexample(o *Obligation) []Input {
	if os.Getenv("GOVER_NOCEX") != "" {
		return nil
	}
	st := &State{pc: o.pc, heap: o.st.heap}
	neg := e.negGoal(o.goal)
	pc, extra := e.prepQuery(st, neg, false)
	asserts := append(append([]*Term{}, pc...), extra...)
	var vals []*Term
	type slot struct{ first, n int }
	slots := make([]slot, len(e.harnessVals))
	// first get the lengths
	const maxLen = 96
	small := []*Term{}
	for i, hv := range e.harnessVals {
		slots[i].first = len(vals)
		switch v := hv.v.(type) {
		case *Term:
			if v.sort == SStr {
				vals = append(vals, e.c.SLen(v))
				small = append(small, e.c.Ult(e.c.SLen(v), e.c.BVc(64, 24)))
				for k := uint64(0); k < maxLen; k++ {
					vals = append(vals, e.c.SAt(v, e.c.BVc(64, k)))
				}
			} else if v.sort.width() > 0 || v.sort == SBool {
				vals = append(vals, v)
			}
		case *SliceV:
			elem := under(hv.typ).(*types.Slice).Elem()
			if s, ok := scalarSort(elem); ok && s.width() > 0 {
				vals = append(vals, v.len)
				small = append(small, e.c.Ult(v.len, e.c.BVc(64, 24)))
				for k := uint64(0); k < maxLen; k++ {
					vals = append(vals, e.load(e.initState.clone(), e.c.El(v.arr, e.c.BVAdd(v.off, e.c.BVc(64, k))), elem).(*Term))
				}
			}
		}
		slots[i].n = len(vals) - slots[i].first
	}
	if len(vals) == 0 {
		return nil
	}
	r, out := e.c.model(append(append([]*Term{}, asserts...), small...), vals, 5*time.Second)
	if r != "sat" || len(out) != len(vals) {
		r, out = e.c.model(asserts, vals, 5*time.Second)
	}
	if len(out) != len(vals) {
		return nil
	}
	var res []Input
	for i, hv := range e.harnessVals {
		s := slots[i]
		in := Input{Name: hv.name}
		if s.n > 0 {
			nums := make([]uint64, s.n)
			good := true
			for k := 0; k < s.n; k++ {
				n, ok := parseNum(out[s.first+k])
				if !ok {
					good = false
				}
				nums[k] = n
			}
			if good {
				in.Go, in.Known = goLit(hv.typ, nums)
			}
		}
		res = append(res, in)
	}
	return res
}

func parseNum(s string) (uint64, bool) {
	s = strings.TrimSpace(s)
	var n uint64
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		_, err := fmt.Sscanf(s[2:], "%x", &n)
		return n, err == nil
	case strings.HasPrefix(s, "#b"):
		for _, c := range s[2:] {
			n = n<<1 | uint64(c-'0')
		}
		return n, true
	}
	return 0, false
}

func goLit(t types.Type, nums []uint64) (string, bool) {
	b, ok := under(t).(*types.Basic)
	if ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return fmt.Sprint(nums[0] != 0), true
		case b.Info()&types.IsString != 0:
			if nums[0] > uint64(len(nums)-1) {
				return "", false
			}
			bs := make([]byte, nums[0])
			for i := range bs {
				bs[i] = byte(nums[1+i])
			}
			return fmt.Sprintf("%q", string(bs)), true
		case b.Kind() == types.Float32:
			return fmt.Sprintf("math.Float32frombits(%#x)", nums[0]), true
		case b.Kind() == types.Float64:
			return fmt.Sprintf("math.Float64frombits(%#x)", nums[0]), true
		case b.Info()&types.IsUnsigned != 0:
			return fmt.Sprintf("%#x", nums[0]), true
		case b.Info()&types.IsInteger != 0:
			s, _ := scalarSort(t)
			w := s.width()
			v := int64(nums[0]<<(64-w)) >> (64 - w)
			return fmt.Sprint(v), true
		}
	}
	if sl, ok := under(t).(*types.Slice); ok {
		if nums[0] > uint64(len(nums)-1) {
			return "", false
		}
		s, _ := scalarSort(sl.Elem())
		w := s.width()
		var parts []string
		for _, x := range nums[1 : 1+nums[0]] {
			if isSigned(sl.Elem()) {
				parts = append(parts, fmt.Sprint(int64(x<<(64-w))>>(64-w)))
			} else {
				parts = append(parts, fmt.Sprintf("%#x", x))
			}
		}
		if typeStr(t) == "[]uint8" || typeStr(t) == "[]byte" {
			return "[]byte{" + strings.Join(parts, ", ") + "}", true
		}
	}
	return "", false
}
