package main

// The engine side of package vspec, and specification functions.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specFrame struct {
	fn   *ssa.Function
	args []Value
}

type specState struct {
	stack    []specFrame
	depth    int
	unfolded map[*Term]bool
	fn       map[string]*ssa.Function
	like     map[string][]Value
	heap     map[string]*Layer
	pending  bool
	keys     map[string]bool // heap keys specification functions read
	skip     map[string]bool // keys whose version is an argument of the function
	dirty    map[string]bool // heap keys written on objects that existed before
}

func (s *specState) init() {
	s.unfolded = map[*Term]bool{}
	s.fn = map[string]*ssa.Function{}
	s.like = map[string][]Value{}
	s.keys = map[string]bool{}
	s.skip = map[string]bool{}
	s.dirty = map[string]bool{}
}

func (e *Exec) curHarness() *HarnessCtx {
	if len(e.harness) == 0 {
		unsup("vspec call outside a contract")
	}
	return e.harness[len(e.harness)-1]
}

func (e *Exec) vspecCall(fn *ssa.Function, name string, args []Value, st *State, fr *Frame) []Outcome {
	c := e.c
	switch name {
	case "init":
		return one(st)
	case "Requires":
		h := e.curHarness()
		t := args[0].(*Term)
		if !h.verify {
			if !t.isTrue() {
				caller := "?"
				for i := len(e.harness) - 2; i >= 0; i-- {
					if e.harness[i].verify {
						caller = e.harness[i].ct.name
						break
					}
				}
				e.oblige(st, caller+": precondition of "+h.ct.name, t)
			}
		}
		st.assume(t)
		if t.isFalse() || (h.verify && !e.feasible(st, c.True())) {
			return nil
		}
		return one(st)
	case "Assume":
		h := e.curHarness()
		t := args[1].(*Term)
		e.note("assumed in %s: %s", h.ct.name, args[0].(*Term).name)
		st.assume(t)
		return one(st)
	case "Ensures":
		h := e.curHarness()
		t := args[1].(*Term)
		label := args[0].(*Term).name
		if h.verify {
			e.oblige(st, h.ct.name+": "+label, t)
		}
		st.assume(t)
		if t.isFalse() && !h.verify {
			return nil
		}
		return one(st)
	case "Assert": // proof step: always proved, then assumed
		t := args[1].(*Term)
		h := e.curHarness()
		if h.verify {
			e.oblige(st, h.ct.name+": step "+args[0].(*Term).name, t)
		}
		st.assume(t)
		return one(st)
	case "Imp":
		return one(st, c.Imp(args[0].(*Term), args[1].(*Term)))
	case "Proof":
		h := e.curHarness()
		if !h.verify {
			return one(st)
		}
		return e.callRef(args[0].(*Term), fn.Params[0].Type(), nil, st, nil)
	case "Descends":
		// as Decreases, over a group of functions that call each other
		h := e.curHarness()
		m, rank := args[0].(*Term), args[1].(*Term)
		h.group = true
		h.rank = rank
		if h.verify {
			h.measure = m
			return one(st)
		}
		if o := e.harness[0]; o.verify && o.group {
			e.oblige(st, h.ct.name+": measure decreases", c.And(c.Sle(c.BVc(64, 0), o.measure), c.Or(c.Slt(m, o.measure), c.And(c.Eq(m, o.measure), c.Slt(rank, o.rank)))))
		}
		return one(st)
	case "Decreases":
		h := e.curHarness()
		m := args[0].(*Term)
		if h.verify {
			e.spec.heap = nil
			h.wm = 0
			h.measure = m
			return one(st)
		}
		for i := len(e.harness) - 2; i >= 0; i-- {
			if e.harness[i].ct == h.ct && e.harness[i].verify {
				o := e.harness[i].measure
				if o == nil {
					unsup("recursive use of %s without a measure", h.ct.name)
				}
				e.oblige(st, h.ct.name+": measure decreases", c.And(c.Sle(c.BVc(64, 0), o), c.Slt(m, o)))
				break
			}
		}
		return one(st)
	case "Modifies":
		h := e.curHarness()
		s := args[0].(*SliceV)
		if s.len.op != "bv" {
			unsup("Modifies with symbolic arguments")
		}
		for i := uint64(0); i < s.len.val; i++ {
			a := e.load(st, c.El(s.arr, c.BVAdd(s.off, c.BVc(64, i))), types.NewInterfaceType(nil, nil)).(*Term)
			tg := c.ATag(a)
			if tg.op != "int" {
				unsup("Modifies of an unknown type")
			}
			t := e.p.reg.tagTypes[tg.val]
			switch u := under(t).(type) {
			case *types.Pointer:
				h.regions = append(h.regions, region{kind: 0, obj: c.ARef(a), typ: u.Elem()})
			case *types.Slice:
				h.regions = append(h.regions, region{kind: 1, sl: e.unbox(st, a, t).(*SliceV), typ: t})
			case *types.Map:
				h.regions = append(h.regions, region{kind: 2, obj: c.ARef(a), typ: t, mt: u})
			default:
				unsup("Modifies of %s", t)
			}
		}
		return one(st)
	case "ModifiesKind":
		h := e.curHarness()
		s := args[0].(*SliceV)
		for i := uint64(0); i < s.len.val; i++ {
			a := e.load(st, c.El(s.arr, c.BVAdd(s.off, c.BVc(64, i))), types.NewInterfaceType(nil, nil)).(*Term)
			tg := c.ATag(a)
			if tg.op != "int" {
				unsup("ModifiesKind of an unknown type")
			}
			t := e.p.reg.tagTypes[tg.val]
			switch u := under(t).(type) {
			case *types.Pointer:
				h.regions = append(h.regions, region{kind: 3, keys: e.leafKeys(u.Elem())})
			case *types.Slice:
				h.regions = append(h.regions, region{kind: 3, keys: e.leafKeys(u.Elem())})
			default:
				unsup("ModifiesKind of %s", t)
			}
		}
		return one(st)
	case "ModifiesAny":
		e.curHarness().any = true
		return one(st)
	case "Unroll":
		e.curHarness().unroll = int(args[0].(*Term).val)
		return one(st)
	case "Forall":
		return one(st, e.forall(st, args[0].(*Term), args[1].(*Term), args[2].(*Term), false))
	case "Exists":
		return one(st, e.forall(st, args[0].(*Term), args[1].(*Term), args[2].(*Term), true))
	case "Fresh":
		// the reference was allocated by the call
		h := e.curHarness()
		a := args[0].(*Term)
		since := max(h.entry, h.since)
		if tg := c.ATag(a); tg.op == "int" {
			if t := e.p.reg.tagTypes[tg.val]; isSlice(t) {
				s := e.unbox(st, a, t).(*SliceV)
				return one(st, c.Or(c.Eq(s.cap, c.BVc(64, 0)), c.ILt(c.Intc(since), c.Age(s.arr))))
			}
		}
		return one(st, c.And(c.Not(c.Eq(c.ARef(a), c.Nil())), c.ILt(c.Intc(since), c.Age(c.ARef(a)))))
	case "Same": // reference identity of two slices' backing arrays etc.
		return one(st, c.Eq(args[0].(*Term), args[1].(*Term)))
	case "SameArray":
		x, y := args[0].(*SliceV), args[1].(*SliceV)
		return one(st, c.And(c.Eq(x.arr, y.arr), c.Eq(x.off, y.off)))
	case "Bind":
		a := args[0].(*Term)
		tg := c.ATag(a)
		if tg.op != "int" {
			unsup("Bind of an unknown type")
		}
		t := e.p.reg.tagTypes[tg.val]
		st.binds = append(st.binds[:len(st.binds):len(st.binds)], typedVal{"bind", t, e.unbox(st, a, t)})
		return one(st)
	case "Disjoint":
		var sl [2]*SliceV
		for i := range sl {
			a := args[i].(*Term)
			tg := c.ATag(a)
			if tg.op != "int" {
				unsup("Disjoint of an unknown type")
			}
			sl[i] = e.unbox(st, a, e.p.reg.tagTypes[tg.val]).(*SliceV)
		}
		x, y := sl[0], sl[1]
		return one(st, c.Or(c.Eq(x.cap, c.BVc(64, 0)), c.Eq(y.cap, c.BVc(64, 0)), c.Not(c.Eq(x.arr, y.arr))))
	case "Ghost":
		return one(st)
	}
	unsup("vspec.%s", name)
	return nil
}

// forall builds (forall k in [lo,hi). body(k)) (or exists).
func (e *Exec) forall(st *State, lo, hi, cl *Term, exists bool) *Term {
	c := e.c
	// constant small ranges expand
	if lo.op == "bv" && hi.op == "bv" && hi.sval()-lo.sval() <= 16 {
		r := c.True()
		if exists {
			r = c.False()
		}
		for k := lo.sval(); k < hi.sval(); k++ {
			b := e.evalPred(st, cl, []Value{c.BVc(64, uint64(k))})
			if exists {
				r = c.Or(r, b)
			} else {
				r = c.And(r, b)
			}
		}
		return r
	}
	k := c.Fresh("k", SBV64)
	rng := c.And(c.Sle(lo, k), c.Slt(k, hi))
	s2 := st.clone()
	s2.branch(rng)
	if !e.feasible(s2, c.True()) {
		return c.Bool(!exists)
	}
	body := e.evalPred(s2, cl, []Value{k})
	q := c.Var(SBV64)
	var b *Term
	if exists {
		b = c.And(rng, body)
		b = c.Not(b)
	} else {
		b = c.Imp(rng, body)
	}
	b = c.Subst(b, map[*Term]*Term{k: q})
	f := c.Forall([]*Term{q}, b)
	if exists {
		return c.Not(f)
	}
	return f
}

// evalPred evaluates a boolean closure to one term.
func (e *Exec) evalPred(st *State, cl *Term, args []Value) *Term {
	base := st.clone()
	outs := e.callRef(cl, nil, args, base.clone(), nil)
	return e.combine(base, outs)
}

func (e *Exec) combine(base *State, outs []Outcome) *Term {
	c := e.c
	r := c.True()
	n := len(base.pc)
	for _, o := range outs {
		cond, as := e.split(o.st, n)
		pre := c.And(append(as, cond)...)
		if o.panicked {
			r = c.And(r, c.Not(pre))
			continue
		}
		r = c.And(r, c.Imp(pre, o.vals[0].(*Term)))
	}
	return r
}

// ---- specification functions

func (e *Exec) specCall(fn *ssa.Function, args []Value, st *State) []Outcome {
	c := e.c
	name := "spec."
	if e.p.defs[fn] {
		name = "spec.def."
	}
	name += strings.TrimPrefix(fn.String(), modPath+"/")
	var ts []*Term
	for i, a := range args {
		switch x := a.(type) {
		case *SliceV:
			ts = append(ts, x.arr, x.off, x.len)
			elem := under(fn.Params[i].Type()).(*types.Slice).Elem()
			if _, ok := scalarSort(elem); ok {
				// mutable content: the version of the cells is an argument
				ts = append(ts, c.Intc(e.version(st, "C:"+typeStr(elem), x.arr)))
			}
		default:
			ts = append(ts, flat(a)...)
		}
	}
	var vals []Value
	res := fn.Signature.Results()
	e.spec.fn[sanitize(name)] = fn
	for i := 0; i < res.Len(); i++ {
		s, ok := scalarSort(res.At(i).Type())
		if !ok {
			unsup("specification function %s with composite result", fn)
		}
		n := len(c.terms)
		v := c.App(fmt.Sprintf("%s.%d", name, i), s, ts...)
		if v.id >= n && !v.open {
			e.typeFacts(v, res.At(i).Type(), e.nextObj)
		}
		vals = append(vals, v)
	}
	e.unfold(fn, name, args, vals, st)
	return one(st, vals...)
}

// version identifies the content of an array: the topmost layer that may
// affect it.
func (e *Exec) version(st *State, key string, arr *Term) int64 {
	l := e.chain(st, key)
	for {
		switch l.kind {
		case lWrite:
			r := rootOf(l.addr)
			if e.addrEq(r, rootOf(arr)).isFalse() {
				l = l.below
				continue
			}
		case lHavoc:
			if e.ageOf(arr).lo > l.wm {
				l = l.below
				continue
			}
			if l.pred(e.c.El(arr, e.c.Sym("anyidx", SBV64))).isFalse() {
				l = l.below
				continue
			}
		case lCopy:
			if l.pred(e.c.El(arr, e.c.Sym("anyidx", SBV64))).isFalse() {
				l = l.below
				continue
			}
		}
		e.verLayer[int64(l.id)] = l
		return int64(l.id)
	}
}

const maxConstUnfold = 40

func (e *Exec) unfold(fn *ssa.Function, name string, args, vals []Value, st *State) {
	c := e.c
	v0 := vals[0].(*Term)
	if e.p.opaque[fn] || e.spec.unfolded[v0] || v0.open {
		return
	}
	if len(e.harness) > 0 && e.harness[0].ct.hide[fn] {
		return
	}
	if e.spec.depth > 0 && !e.p.defs[fn] {
		// only follow recursion on decreasing constant counters
		down := false
		for _, f := range e.spec.stack {
			if f.fn != fn {
				continue
			}
			for i, a := range args {
				t, ok := a.(*Term)
				u, ok2 := f.args[i].(*Term)
				if ok && ok2 && t.op == "bv" && u.op == "bv" && int64(t.val) < int64(u.val) {
					down = true
				}
			}
		}
		if !down || e.spec.depth > maxConstUnfold {
			return
		}
	}
	e.spec.stack = append(e.spec.stack, specFrame{fn, args})
	defer func() { e.spec.stack = e.spec.stack[:len(e.spec.stack)-1] }()
	e.spec.unfolded[v0] = true
	s := &State{pcs: map[*Term]bool{}, br: map[*Term]bool{}, heap: st.heap}
	s = s.clone()
	saveH, saveF, saveL := e.harness, e.frames, e.logs
	e.frames, e.logs = nil, nil
	e.spec.depth++
	saveSkip := e.spec.skip
	e.spec.skip = map[string]bool{}
	for k := range saveSkip {
		e.spec.skip[k] = true
	}
	for _, p := range fn.Params {
		if sl, ok := under(p.Type()).(*types.Slice); ok {
			e.spec.skip["C:"+typeStr(sl.Elem())] = true
		}
	}
	defer func() { e.spec.skip = saveSkip }()
	outs := e.call(fn, args, nil, s, nil)
	e.spec.depth--
	e.harness, e.frames, e.logs = saveH, saveF, saveL
	for i := range vals {
		v := vals[i].(*Term)
		var r *Term
		for k := len(outs) - 1; k >= 0; k-- {
			o := outs[k]
			if o.panicked {
				continue // partial: unspecified there
			}
			cond, as := e.split(o.st, 0)
			for _, a := range as {
				c.addFact(v, c.Imp(cond, a))
			}
			x := o.vals[i].(*Term)
			if r == nil && len(outs) == 1 {
				r = x
				c.addFact(v, c.Eq(v, x))
			} else {
				c.addFact(v, c.Imp(cond, c.Eq(v, x)))
				r = x
			}
		}
	}
}

// reunfold makes sure that specification applications created by substitution
// have their defining facts.
func (e *Exec) reunfold(t *Term, st *State) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.open {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if b, ok := e.ufs[t.name]; ok && t.op == "app" && !e.factsDone[t] {
			e.factsDone[t] = true
			e.typeFacts(t, b.t, b.wm)
		}
		if t.op == "app" && strings.HasPrefix(t.name, "spec.") && !e.spec.unfolded[t] {
			i := strings.LastIndexByte(t.name, '.')
			fn := e.spec.fn[t.name[:i]]
			if fn == nil || t.name[i:] != ".0" {
				return
			}
			var args []Value
			vers := map[string]*Layer{}
			ts := t.args
			for _, p := range fn.Params {
				if sl, ok := under(p.Type()).(*types.Slice); ok {
					args = append(args, &SliceV{ts[0], ts[1], ts[2], ts[2]})
					ts = ts[3:]
					if _, ok := scalarSort(sl.Elem()); ok {
						// the content the application was made about
						l := e.verLayer[int64(ts[0].val)]
						key := "C:" + typeStr(sl.Elem())
						if ts[0].op != "int" || l == nil || vers[key] != nil && vers[key] != l {
							return
						}
						vers[key] = l
						ts = ts[1:]
					}
					continue
				}
				var v Value
				v, ts = unflat(e.c.zeroValue(p.Type()), ts)
				args = append(args, v)
			}
			var vals []Value
			res := fn.Signature.Results()
			for k := 0; k < res.Len(); k++ {
				s, _ := scalarSort(res.At(k).Type())
				vals = append(vals, e.c.App(fmt.Sprintf("%s.%d", t.name[:i], k), s, t.args...))
			}
			s2 := st
			if len(vers) > 0 {
				s2 = st.clone()
				for k, l := range vers {
					s2.heap[k] = l
				}
			}
			e.unfold(fn, t.name[:i], args, vals, s2)
		}
	}
	walk(t)
}

// deepen unfolds the specification applications in the facts of ts one more
// step; false if there are none.
func (e *Exec) deepen(st *State, ts []*Term) bool {
	var todo []*Term
	for _, f := range e.c.collectFacts(ts, func(*Term) bool { return false }, false) {
		todo = append(todo, f)
	}
	n := len(e.spec.unfolded)
	for _, f := range todo {
		if len(e.spec.unfolded)-n > 60 {
			break
		}
		e.reunfold(f, st)
	}
	return len(e.spec.unfolded) > n
}

func isSlice(t types.Type) bool {
	_, ok := under(t).(*types.Slice)
	return ok
}
