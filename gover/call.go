package main

// Calls: builtins, dynamic dispatch, inlining, contracts.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) evalCall(fr *Frame, call *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range call.Args {
		args = append(args, e.val(fr, a))
	}
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return e.val(fr, call.Value), args
}

func (e *Exec) callInstr(fr *Frame, st *State, call *ssa.CallCommon, in *ssa.Call) []Outcome {
	fn, args := e.evalCall(fr, call)
	return e.dispatch(call, fn, args, st, fr)
}

func one(st *State, vals ...Value) []Outcome { return []Outcome{{st: st, vals: vals}} }

func (e *Exec) dispatch(call *ssa.CallCommon, fnv Value, args []Value, st *State, fr *Frame) []Outcome {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return e.builtin(b, call, args, st)
	}
	if call.IsInvoke() {
		return e.invoke(call, fnv.(*Term), args, st, fr)
	}
	return e.callRef(fnv.(*Term), call.Value.Type(), args, st, fr)
}

// callRef calls a function value.
func (e *Exec) callRef(f *Term, typ types.Type, args []Value, st *State, fr *Frame) []Outcome {
	c := e.c
	switch f.op {
	case "obj":
		id := int64(f.args[0].val)
		if fn, ok := e.fnByID[id]; ok {
			return e.callFn(fn, args, nil, st, fr)
		}
		if cl, ok := e.closures[id]; ok {
			return e.callFn(cl.fn, args, cl.free, st, fr)
		}
	case "nil":
		return []Outcome{{st: st, panicked: true, pv: e.runtimePanic("nil function call")}}
	case "ite":
		var outs []Outcome
		for i, cond := range []*Term{f.args[0], c.Not(f.args[0])} {
			if e.feasible(st, cond) {
				s2 := st.clone()
				s2.branch(cond)
				outs = append(outs, e.callRef(f.args[1+i], typ, args, s2, fr)...)
			}
		}
		return outs
	}
	var outs []Outcome
	isNil := c.Eq(f, c.Nil())
	if e.feasible(st, isNil) {
		s2 := st.clone()
		s2.branch(isNil)
		outs = append(outs, Outcome{st: s2, panicked: true, pv: e.runtimePanic("nil function call")})
		st = st.clone()
		st.branch(c.Not(isNil))
		if !e.feasible(st, c.True()) {
			return outs
		}
	} else {
		st.assume(c.Not(isNil))
	}
	// inside the harness of a function type contract, the call of the function
	// itself
	if fr != nil && fr.harn != nil && fr.harn.ct.funcTyp != "" {
		return append(outs, e.abstractCall(fr.harn, typ, args, st)...)
	}
	ct := e.p.byType[typeStr(typ)]
	if ct == nil {
		ct = e.p.byType[typeStr(under(typ))]
	}
	if ct == nil {
		unsup("call of unknown function value of type %s", typ)
	}
	return append(outs, e.callContract(ct, append([]Value{f}, args...), st)...)
}

func (e *Exec) invoke(call *ssa.CallCommon, recv *Term, args []Value, st *State, fr *Frame) []Outcome {
	c := e.c
	if recv.op == "ite" {
		var outs []Outcome
		for i, cond := range []*Term{recv.args[0], c.Not(recv.args[0])} {
			if e.feasible(st, cond) {
				s2 := st.clone()
				s2.branch(cond)
				outs = append(outs, e.invoke(call, recv.args[1+i], args, s2, fr)...)
			}
		}
		return outs
	}
	it := call.Value.Type()
	m := call.Method
	name := typeStr(it) + "." + m.Name()
	if o := m.FullName(); o != "" {
		_ = o
	}
	tag := c.ATag(recv)
	if tag.op == "int" {
		id := int64(tag.val)
		if id == 0 {
			return []Outcome{{st: st, panicked: true, pv: e.runtimePanic("nil interface call " + name)}}
		}
		return e.invokeOn(e.p.reg.tagTypes[id], recv, call, args, st, fr)
	}
	short := strings.TrimPrefix(name, modPath+"/")
	if fr != nil && fr.harn != nil && fr.harn.ct.iface == short {
		return e.abstractCall(fr.harn, m.Type(), args, st)
	}
	var outs []Outcome
	isNil := c.Eq(tag, c.Intc(0))
	if e.feasible(st, isNil) {
		s2 := st.clone()
		s2.branch(isNil)
		outs = append(outs, Outcome{st: s2, panicked: true, pv: e.runtimePanic("nil interface call " + name)})
		st = st.clone()
		st.branch(c.Not(isNil))
		if !e.feasible(st, c.True()) {
			return outs
		}
	}
	if ct := e.p.byIface[short]; ct != nil {
		return append(outs, e.callContract(ct, append([]Value{recv}, args...), st)...)
	}
	if o, ok := e.invokeModel(name, recv, args, st, m); ok {
		return append(outs, o...)
	}
	impl, closed := e.p.implementers(it)
	if !closed {
		// the type may be known from the path
		t := e.knownType(st, tag)
		if t == nil {
			unsup("call of %s on an unknown implementation", name)
		}
		impl = []types.Type{t}
	}
	var res []Outcome
	for _, t := range impl {
		cond := c.Eq(tag, c.Intc(e.p.reg.tag(t)))
		if e.lazy() && closed && len(impl) <= 3 {
			if st.pcs[c.Not(cond)] {
				continue
			}
		} else if !e.feasible(st, cond) {
			continue
		}
		s2 := st.clone()
		s2.branch(cond)
		s2.assume(e.canonical(recv, t))
		res = append(res, e.invokeOn(t, recv, call, args, s2, fr)...)
	}
	res = e.mergeOutcomes(st, res)
	return append(outs, res...)
}

// knownType is the type that the path condition forces on an interface tag.
func (e *Exec) knownType(st *State, tag *Term) types.Type {
	c := e.c
	seen := map[*Term]bool{}
	var found types.Type
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t] || t.sort != SBool {
			return
		}
		seen[t] = true
		if t.op == "=" {
			for i, a := range t.args {
				k := t.args[1-i]
				if a == tag && k.op == "int" && k.val != 0 && e.valid(st, c.Eq(tag, k)) {
					found = e.p.reg.tagTypes[int64(k.val)]
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range st.pc {
		walk(t)
	}
	return found
}

func (e *Exec) invokeOn(t types.Type, recv *Term, call *ssa.CallCommon, args []Value, st *State, fr *Frame) []Outcome {
	if o, ok := e.invokeModel(typeStr(t)+"."+call.Method.Name(), recv, args, st, call.Method); ok {
		return o
	}
	fn := e.p.prog.LookupMethod(t, call.Method.Pkg(), call.Method.Name())
	if fn == nil {
		unsup("no method %s on %s", call.Method.Name(), t)
	}
	return e.callFn(fn, append([]Value{e.unbox(st, recv, t)}, args...), nil, st, fr)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Exec) callFn(fn *ssa.Function, args []Value, free []Value, st *State, fr *Frame) []Outcome {
	key := fnKey(fn)
	if strings.HasPrefix(key, modPath+"/internal/vspec.") {
		return e.vspecCall(fn, key[len(modPath+"/internal/vspec."):], args, st, fr)
	}
	if e.p.specs[fn] {
		return e.specCall(fn, args, st)
	}
	if outs, ok := e.intrinsic(fn, key, args, st); ok {
		return outs
	}
	if fr != nil && fr.harn != nil && fr.harn.ct.target == fn {
		if fr.harn.verify {
			return e.verifyBody(fr.harn, fn, args, st)
		}
		return e.abstractCall(fr.harn, fn.Signature, args, st)
	}
	ct := e.p.byTarget[fn]
	if ct == nil {
		ct = e.p.byHarness[fn]
	}
	if ct != nil && len(e.harness) > 0 && e.harness[0].ct.inline[fn] {
		ct = nil
	}
	if ct != nil {
		return e.callContract(ct, args, st)
	}
	return e.call(fn, args, free, st, nil)
}

// ---- builtins

func (e *Exec) builtin(b *ssa.Builtin, call *ssa.CallCommon, args []Value, st *State) []Outcome {
	c := e.c
	switch b.Name() {
	case "len":
		return one(st, e.lenOf(st, args[0], call.Args[0].Type()))
	case "cap":
		return one(st, args[0].(*SliceV).cap)
	case "append":
		elem := under(call.Args[0].Type()).(*types.Slice).Elem()
		s := args[0].(*SliceV)
		if t, ok := args[1].(*Term); ok { // append([]byte, string...)
			v := e.convert(st, t, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])).(*SliceV)
			return one(st, e.appendSlice(st, s, v, elem))
		}
		return one(st, e.appendSlice(st, s, args[1].(*SliceV), elem))
	case "copy":
		d := args[0].(*SliceV)
		elem := under(call.Args[0].Type()).(*types.Slice).Elem()
		if t, ok := args[1].(*Term); ok {
			n := c.Ite(c.Ult(d.len, c.SLen(t)), d.len, c.SLen(t))
			e.fillFn(st, elem, d.arr, d.off, n, func(i *Term) *Term { return c.SAt(t, i) })
			return one(st, n)
		}
		s := args[1].(*SliceV)
		lt := c.Ult(d.len, s.len)
		n := c.Ite(lt, d.len, s.len)
		if lt.op != "true" && lt.op != "false" {
			if e.valid(st, lt) {
				n = d.len
			} else if e.valid(st, c.Not(lt)) {
				n = s.len
			}
		}
		e.copyRange(st, elem, d.arr, d.off, s.arr, s.off, n)
		return one(st, n)
	case "delete":
		mt := under(call.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		if m.op != "nil" {
			e.mapDelete(st, m, e.mapKey(st, args[1], mt))
		}
		return one(st)
	case "recover":
		pc := e.p.curPanic
		if pc == nil || pc.pv == nil || pc.depth != e.depth {
			return one(st, c.NilAny())
		}
		flag := c.Obj(-77)
		ch := e.chain(st, "G:recovered")
		e.layerID++
		st.heap["G:recovered"] = &Layer{kind: lWrite, below: ch, addr: flag, val: c.True(), id: e.layerID}
		return one(st, pc.pv)
	case "min", "max":
		r := args[0].(*Term)
		t := call.Args[0].Type()
		if isFloat(t) || isString(t) {
			unsup("builtin %s on %s", b.Name(), t)
		}
		for _, a := range args[1:] {
			y := a.(*Term)
			var lt *Term
			if isSigned(t) {
				lt = c.Slt(r, y)
			} else {
				lt = c.Ult(r, y)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, r, y)
			} else {
				r = c.Ite(lt, y, r)
			}
		}
		return one(st, r)
	case "ssa:wrapnilchk":
		p := args[0].(*Term)
		nn := c.Not(c.Eq(p, c.Nil()))
		if e.valid(st, nn) {
			return one(st, p)
		}
		s2 := st.clone()
		s2.branch(c.Not(nn))
		st.branch(nn)
		return []Outcome{{st: s2, panicked: true, pv: e.runtimePanic("nil receiver")}, {st: st, vals: []Value{p}}}
	case "clear":
		unsup("clear")
	case "print", "println":
		return one(st)
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (e *Exec) lenOf(st *State, v Value, t types.Type) *Term {
	switch x := v.(type) {
	case *SliceV:
		return x.len
	case *AggV:
		return e.c.BVc(64, uint64(len(x.elems)))
	case *Term:
		if isString(t) {
			return e.c.SLen(x)
		}
		switch u := under(t).(type) {
		case *types.Map:
			return e.mapLen(st, x)
		case *types.Pointer:
			return e.c.BVc(64, uint64(under(u.Elem()).(*types.Array).Len()))
		}
	}
	unsup("len of %s", t)
	return nil
}

// ---- contracts

type region struct {
	kind int // 0 object, 1 slice elements, 2 map entries, 3 all cells of some kinds
	keys []string
	obj  *Term
	typ  types.Type
	sl   *SliceV
	mt   *types.Map
}

type FrameSpec struct {
	ct      *Contract
	wm      int64
	regions []region
	any     bool
}

type HarnessCtx struct {
	ct      *Contract
	verify  bool
	regions []region
	any     bool
	entry   int64
	since   int64 // when the function under contract was entered
	unroll  int
	wm      int64
	called  bool
	measure *Term
	rank    *Term
	group   bool // the measure is shared by functions that call each other
}

// callContract applies a contract at a call site.
func (e *Exec) callContract(ct *Contract, args []Value, st *State) []Outcome {
	e.contractsUsed[ct.name] = true
	h := &HarnessCtx{ct: ct, entry: e.nextObj}
	if e.spec.depth > 3 {
		unsup("contract nesting")
	}
	if len(e.harness) > 12 {
		unsup("contract nesting too deep at %s", ct.name)
	}
	e.harness = append(e.harness, h)
	defer func() { e.harness = e.harness[:len(e.harness)-1] }()
	outs := e.call(ct.fn, args, nil, st, h)
	var res []Outcome
	for _, o := range outs {
		if o.panicked {
			if e.isSkip(o.pv) {
				continue
			}
			unsup("contract of %s panics at a call site", ct.name)
		}
		res = append(res, o)
	}
	return res
}

func (e *Exec) isSkip(pv *Term) bool { return false }

// abstractCall is the target call of a harness in call mode: havoc the declared
// locations, return arbitrary results.
func (e *Exec) abstractCall(h *HarnessCtx, sig types.Type, args []Value, st *State) []Outcome {
	h.called = true
	_, hi := e.gap()
	e.checkRegions(h, st)
	for _, r := range h.regions {
		e.havocRegion(st, r, hi)
	}
	if h.any {
		for k := range e.bases {
			if !strings.HasPrefix(k, "G:") {
				e.chain(st, k)
			}
		}
		for k := range st.heap {
			if !strings.HasPrefix(k, "G:") {
				e.spec.dirty[k] = true
				e.havocKey(st, k, hi, func(*Term) *Term { return e.c.True() })
			}
		}
		e.note("contract %s havocs all memory", h.ct.name)
	}
	var vals []Value
	res := under(sig).(*types.Signature).Results()
	short := h.ct.name
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	if h.ct.pure {
		var ts []*Term
		for _, a := range args {
			if s, ok := a.(*SliceV); ok {
				ts = append(ts, s.arr, s.off, s.len)
			} else {
				ts = append(ts, flat(a)...)
			}
		}
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			s, ok := scalarSort(t)
			if !ok {
				unsup("pure contract with composite result")
			}
			n := len(e.c.terms)
			v := e.c.App(fmt.Sprintf("pure.%s.%d", h.ct.name, i), s, ts...)
			if v.id >= n && !v.open {
				e.typeFacts(v, t, hi)
			}
			vals = append(vals, v)
		}
		return one(st, vals...)
	}
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, e.freshValue(fmt.Sprintf("%s.r%d", short, i), res.At(i).Type(), hi))
	}
	return one(st, vals...)
}

func (e *Exec) havocRegion(st *State, r region, wm int64) {
	c := e.c
	switch r.kind {
	case 3:
		for _, k := range r.keys {
			e.chain(st, k)
			e.spec.dirty[k] = true
			for _, l := range e.logs {
				*l = append(*l, writeRec{key: k, whole: true})
			}
			e.havocKey(st, k, wm, func(*Term) *Term { return c.True() })
		}
	case 0:
		e.storeRaw(st, r.obj, r.typ, e.freshValue("mod", r.typ, wm))
	case 1:
		elem := under(r.typ).(*types.Slice).Elem()
		for _, lp := range e.leaves(elem) {
			lp := lp
			e.logRange(lp, r.sl.arr, r.sl.off, r.sl.len)
			e.havocKey(st, lp.key, wm, func(a *Term) *Term {
				cond, arr, idx := e.matchEl(a, lp.tags)
				if cond.isFalse() {
					return cond
				}
				return c.And(cond, e.addrEq(arr, r.sl.arr), c.Ule(r.sl.off, idx), c.Ult(c.BVSub(idx, r.sl.off), r.sl.len))
			})
		}
	case 2:
		pred := func(tags []int64) func(a *Term) *Term {
			return func(a *Term) *Term {
				cond, m, _ := e.matchMe(a, tags)
				if cond.isFalse() {
					return cond
				}
				return c.And(cond, e.addrEq(m, r.obj))
			}
		}
		e.logMap(mapHasKey, nil, r.obj)
		e.havocKey(st, mapHasKey, wm, pred(nil))
		e.logMap(mapLenKey, nil, r.obj)
		e.havocKey(st, mapLenKey, wm, func(a *Term) *Term { return e.addrEq(a, r.obj) })
		for _, lp := range e.leaves(r.mt.Elem()) {
			lp := lp
			e.logMap(lp.key, &lp, r.obj)
			e.havocKey(st, lp.key, wm, pred(lp.tags))
		}
	}
}

// storeRaw stores without a frame check (the region was checked as a whole).
func (e *Exec) storeRaw(st *State, addr *Term, t types.Type, v Value) {
	f := e.frames
	e.frames = nil
	defer func() { e.frames = f }()
	e.store(st, addr, t, v)
}

// checkRegions: what the callee may modify must be allowed in the caller.
func (e *Exec) checkRegions(h *HarnessCtx, st *State) {
	if len(e.frames) == 0 {
		return
	}
	f := e.frames[len(e.frames)-1]
	if f.any {
		return
	}
	if h.any {
		e.oblige(st, f.ct.name+": frame: callee "+h.ct.name+" may modify anything", e.c.False())
		return
	}
	for _, r := range h.regions {
		g := e.regionAllowed(f, r)
		if !g.isTrue() {
			e.oblige(st, f.ct.name+": frame: locations modified by "+h.ct.name, g)
		}
	}
}

// kindAllowed: may the current function write every cell of these kinds?
func (f *FrameSpec) kindAllowed(keys ...string) bool {
	for _, k := range keys {
		ok := false
		for _, q := range f.regions {
			for _, x := range q.keys {
				ok = ok || x == k
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (e *Exec) leafKeys(t types.Type) []string {
	var ks []string
	for _, lp := range e.leaves(t) {
		ks = append(ks, lp.key)
	}
	return ks
}

func (f *FrameSpec) hasKinds() bool {
	for _, q := range f.regions {
		if q.kind == 3 {
			return true
		}
	}
	return false
}

func (e *Exec) regionAllowed(f *FrameSpec, r region) *Term {
	c := e.c
	if f.hasKinds() && (r.kind == 0 && r.typ != nil && f.kindAllowed(e.leafKeys(r.typ)...) ||
		r.kind == 1 && r.typ != nil && f.kindAllowed(e.leafKeys(under(r.typ).(*types.Slice).Elem())...)) {
		return c.True()
	}
	switch r.kind {
	case 3:
		if f.kindAllowed(r.keys...) {
			return c.True()
		}
	case 0:
		return e.addrAllowed(f, r.obj)
	case 1:
		ok := c.Eq(r.sl.len, c.BVc(64, 0))
		if e.ageOf(r.sl.arr).lo > f.wm {
			return c.True()
		}
		ok = c.Or(ok, c.ILt(c.Intc(f.wm), c.Age(r.sl.arr)))
		for _, q := range f.regions {
			if q.kind == 1 {
				ok = c.Or(ok, c.And(e.addrEq(q.sl.arr, r.sl.arr), c.Ule(q.sl.off, r.sl.off), c.Ule(c.BVAdd(r.sl.off, r.sl.len), c.BVAdd(q.sl.off, q.sl.len))))
			}
		}
		return ok
	case 2:
		if e.ageOf(r.obj).lo > f.wm {
			return c.True()
		}
		ok := c.Or(c.Eq(r.obj, c.Nil()), c.ILt(c.Intc(f.wm), c.Age(r.obj)))
		for _, q := range f.regions {
			if q.kind == 2 {
				ok = c.Or(ok, e.addrEq(q.obj, r.obj))
			}
		}
		return ok
	}
	return c.False()
}

// addrAllowed: may the current function write addr?
func (e *Exec) addrAllowed(f *FrameSpec, addr *Term) *Term {
	c := e.c
	if e.ageOf(addr).lo > f.wm {
		return c.True()
	}
	ok := c.ILt(c.Intc(f.wm), c.Age(addr))
	for a := addr; ; {
		for _, q := range f.regions {
			switch q.kind {
			case 0:
				ok = c.Or(ok, e.addrEq(a, q.obj))
			case 1:
				cond, arr, idx := e.matchEl(a, nil)
				if !cond.isFalse() {
					ok = c.Or(ok, c.And(cond, e.addrEq(arr, q.sl.arr), c.Ule(q.sl.off, idx), c.Ult(c.BVSub(idx, q.sl.off), q.sl.len)))
				}
			case 2:
				cond, m, _ := e.matchMe(a, nil)
				if !cond.isFalse() {
					ok = c.Or(ok, c.And(cond, e.addrEq(m, q.obj)))
				}
				ok = c.Or(ok, e.addrEq(a, q.obj)) // the length cell
			}
		}
		if a.op != "sub" {
			break
		}
		a = a.args[0]
	}
	return ok
}

// dirty records a write to an object that may have existed at the start.
func (e *Exec) dirty(key string, addr *Term) {
	if e.spec.depth == 0 && !e.inInit && e.ageOf(addr).lo <= e.baseWM {
		e.spec.dirty[key] = true
	}
}

func (e *Exec) noteWrite(st *State, key string, addr *Term) {
	e.dirty(key, addr)
	for _, l := range e.logs {
		*l = append(*l, writeRec{key: key, addr: addr})
	}
	if len(e.frames) == 0 || strings.HasPrefix(key, "G:") {
		return
	}
	f := e.frames[len(e.frames)-1]
	if f.any || f.kindAllowed(key) {
		return
	}
	g := e.addrAllowed(f, addr)
	if !g.isTrue() {
		e.oblige(st, f.ct.name+": frame: write to "+shortKey(key), g)
	}
}

func shortKey(k string) string {
	k = strings.TrimPrefix(k, "F:")
	k = strings.TrimPrefix(k, modPath+"/")
	if i := strings.IndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	return k
}

func (e *Exec) logRange(lp leafPath, arr, off, n *Term) {
	e.dirty(lp.key, arr)
	for _, l := range e.logs {
		*l = append(*l, writeRec{key: lp.key, lp: &lp, arr: arr, off: off, n: n})
	}
}

func (e *Exec) logMap(key string, lp *leafPath, m *Term) {
	e.dirty(key, m)
	for _, l := range e.logs {
		*l = append(*l, writeRec{key: key, lp: lp, m: m})
	}
}

func (e *Exec) noteRangeWrite(st *State, lp leafPath, dst, dOff, n *Term) {
	e.logRange(lp, dst, dOff, n)
	if len(e.frames) == 0 {
		return
	}
	f := e.frames[len(e.frames)-1]
	if f.any || f.kindAllowed(lp.key) {
		return
	}
	g := e.regionAllowed(f, region{kind: 1, sl: &SliceV{dst, dOff, n, n}})
	if !g.isTrue() {
		e.oblige(st, f.ct.name+": frame: write to a range of "+shortKey(lp.key), g)
	}
}

// verifyBody runs the real body of the target under the declared frame.
func (e *Exec) verifyBody(h *HarnessCtx, fn *ssa.Function, args []Value, st *State) []Outcome {
	if h.called {
		e.note("target called more than once in %s", h.ct.name)
	}
	h.called = true
	e.covers = append(e.covers, coverRec{h.ct.name + ": precondition satisfiable", st.pc})
	h.since = e.nextObj
	e.frames = append(e.frames, &FrameSpec{ct: h.ct, wm: e.nextObj, regions: h.regions, any: h.any})
	defer func() { e.frames = e.frames[:len(e.frames)-1] }()
	saveUnroll := e.unrollN
	if h.unroll > 0 {
		e.unrollN = h.unroll
	}
	defer func() { e.unrollN = saveUnroll }()
	return e.call(fn, args, nil, st, nil)
}
