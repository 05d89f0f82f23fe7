package main

// The heap: one chain of layers per leaf key.

import (
	"fmt"
	"go/types"
)

type layerKind int

const (
	lBase layerKind = iota
	lWrite
	lHavoc
	lCopy
	lJoin
)

type Layer struct {
	kind      layerKind
	below     *Layer
	addr, val *Term
	pred      func(*Term) *Term // havoc, copy: does the layer cover addr
	src       func(*Term) *Term // copy: the value at addr
	uf        string
	wm        int64
	id        int
	conds     []*Term // join: the layers of the states that were joined
	alts      []*Layer
}

type State struct {
	pc   []*Term
	pcs  map[*Term]bool
	br   map[*Term]bool // entries of pc that are branch conditions
	dead bool
	heap map[string]*Layer
	// values named by Bind, for loop templates
	binds []typedVal
	// conditions of the ways that met in this state with differing heaps
	joins [][]*Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Layer, len(s.heap)+4), pcs: make(map[*Term]bool, len(s.pcs)+4), binds: s.binds, joins: s.joins[:len(s.joins):len(s.joins)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k := range s.pcs {
		n.pcs[k] = true
	}
	n.br = make(map[*Term]bool, len(s.br)+4)
	for k := range s.br {
		n.br[k] = true
	}
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.isTrue() || s.pcs[t] {
			continue
		}
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
		s.pcs[t] = true
	}
}

// ---- ages

type ageRange struct{ lo, hi int64 }

// Ages: objects of package initialisation are below initTop, functions and
// globals between, nil is 0, everything else positive.
const ageMin, ageMax, initTop = -1 << 50, 1 << 50, -100_000_000

func rootOf(t *Term) *Term {
	for t.op == "sub" || t.op == "el" || t.op == "me" {
		t = t.args[0]
	}
	return t
}

func (e *Exec) ageOf(t *Term) ageRange {
	t = rootOf(t)
	switch t.op {
	case "obj":
		if t.args[0].op == "int" {
			v := int64(t.args[0].val)
			return ageRange{v, v}
		}
	case "nil":
		return ageRange{0, 0}
	case "ite":
		a, b := e.ageOf(t.args[1]), e.ageOf(t.args[2])
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		return a
	}
	if r, ok := e.ages[t]; ok {
		return r
	}
	return ageRange{ageMin, ageMax}
}

func (e *Exec) setAge(t *Term, r ageRange) {
	if old, ok := e.ages[t]; ok {
		if old.lo > r.lo {
			r.lo = old.lo
		}
		if old.hi < r.hi {
			r.hi = old.hi
		}
	}
	e.ages[t] = r
	c := e.c
	if !t.open {
		if r.hi < ageMax {
			c.addFact(t, c.ILe(c.Age(t), c.Intc(r.hi)))
		}
		if r.lo > ageMin {
			c.addFact(t, c.ILe(c.Intc(r.lo), c.Age(t)))
		}
	}
}

// refDistinct reports addresses that cannot be equal because of their ages.
func (e *Exec) addrEq(a, b *Term) *Term {
	if a != b {
		ra, rb := e.ageOf(a), e.ageOf(b)
		if ra.hi < rb.lo || rb.hi < ra.lo {
			return e.c.False()
		}
	}
	t := e.c.Eq(a, b)
	return t
}

func (e *Exec) alloc() *Term {
	e.nextObj++
	return e.c.Obj(e.nextObj)
}

// gap reserves a range of object numbers for objects allocated by a callee or
// by earlier loop iterations; it returns the bounds (lo, hi].
func (e *Exec) gap() (int64, int64) {
	lo := e.nextObj
	e.nextObj += 1 << 20
	return lo, e.nextObj
}

// ---- reads and writes of leaves

func (e *Exec) chain(st *State, key string) *Layer {
	if e.spec.depth > 0 && !e.spec.skip[key] {
		e.spec.keys[key] = true
	}
	return e.layerOf(st, key)
}

func (e *Exec) layerOf(st *State, key string) *Layer {
	if l, ok := st.heap[key]; ok {
		return l
	}
	l, ok := e.bases[key]
	if !ok {
		e.layerID++
		l = &Layer{kind: lBase, uf: "H0." + key, wm: e.baseWM, id: e.layerID}
		e.bases[key] = l
	}
	st.heap[key] = l
	return l
}

func (e *Exec) readLeaf(l *Layer, addr *Term, s Sort, t types.Type) *Term {
	if addr.op == "ite" {
		return e.c.Ite(addr.args[0], e.readLeaf(l, addr.args[1], s, t), e.readLeaf(l, addr.args[2], s, t))
	}
	m := e.readMemo[l]
	if m == nil {
		m = map[*Term]*Term{}
		e.readMemo[l] = m
	}
	if r, ok := m[addr]; ok {
		return r
	}
	r := e.readLeaf1(l, addr, s, t)
	m[addr] = r
	return r
}

func (e *Exec) readLeaf1(l *Layer, addr *Term, s Sort, t types.Type) *Term {
	c := e.c
	for {
		switch l.kind {
		case lWrite:
			q := e.addrEq(addr, l.addr)
			if q.isTrue() {
				return l.val
			}
			if q.isFalse() {
				l = l.below
				continue
			}
			return c.Ite(q, l.val, e.readLeaf(l.below, addr, s, t))
		case lHavoc:
			if e.ageOf(addr).lo > l.wm {
				l = l.below
				continue
			}
			q := l.pred(addr)
			if q.isFalse() {
				l = l.below
				continue
			}
			v := e.baseApp(l, addr, s, t)
			if q.isTrue() {
				return v
			}
			return c.Ite(q, v, e.readLeaf(l.below, addr, s, t))
		case lCopy:
			q := l.pred(addr)
			if q.isFalse() {
				l = l.below
				continue
			}
			v := l.src(addr)
			if q.isTrue() {
				return v
			}
			return c.Ite(q, v, e.readLeaf(l.below, addr, s, t))
		case lJoin:
			n := len(l.alts) - 1
			v := e.readLeaf(l.alts[n], addr, s, t)
			for i := n - 1; i >= 0; i-- {
				v = c.Ite(l.conds[i], e.readLeaf(l.alts[i], addr, s, t), v)
			}
			return v
		case lBase:
			r := e.ageOf(addr)
			if r.lo > l.wm || r.hi < initTop {
				return c.zeroTerm(s)
			}
			v := e.baseApp(l, addr, s, t)
			if r.hi <= l.wm {
				return v
			}
			return c.Ite(c.ILt(c.Intc(l.wm), c.Age(addr)), c.zeroTerm(s), v)
		}
	}
}

func (e *Exec) baseApp(l *Layer, addr *Term, s Sort, t types.Type) *Term {
	v := e.c.App(l.uf, s, addr)
	if t != nil {
		e.ufs[v.name] = baseInfo{t, l.wm}
	}
	if !v.open && !e.factsDone[v] {
		e.factsDone[v] = true
		e.typeFacts(v, t, l.wm)
	}
	return v
}

type baseInfo struct {
	t  types.Type
	wm int64
}

// typeFacts attaches what the type alone guarantees about a symbolic leaf that
// existed when the watermark was wm.
func (e *Exec) typeFacts(v *Term, t types.Type, wm int64) {
	switch v.sort {
	case SRef:
		e.setAge(v, ageRange{-1, wm})
	case SAny:
		r := e.c.ARef(v)
		e.setAge(r, ageRange{ageMin, wm})
		if t != nil {
			e.ifaceFacts(v, t)
		}
	}
}

func (e *Exec) ifaceFacts(v *Term, t types.Type) {
	c := e.c
	tag := c.ATag(v)
	if impl, closed := e.p.implementers(t); closed {
		alts := []*Term{c.Eq(tag, c.Intc(0))}
		for _, it := range impl {
			alts = append(alts, c.Eq(tag, c.Intc(e.p.reg.tag(it))))
		}
		c.addFact(tag, c.Or(alts...))
		allPtr := len(impl) > 0
		for _, it := range impl {
			if _, ok := under(it).(*types.Pointer); !ok {
				allPtr = false
			}
		}
		if allPtr {
			c.addFact(tag, c.Or(c.Eq(tag, c.Intc(0)), c.Not(c.Eq(c.ARef(v), c.Nil()))))
		}
	} else {
		c.addFact(tag, c.ILe(c.Intc(0), tag))
	}
	// the nil interface has one representation
	c.addFact(tag, c.Or(c.Not(c.Eq(tag, c.Intc(0))), c.mk("=", SBool, 0, "", v, c.NilAny())))
}

func (e *Exec) sliceFacts(s *SliceV) {
	c := e.c
	if s.len.isConst() || s.len.open {
		return
	}
	lim := c.BVc(64, 1<<34)
	f := c.And(c.Ule(s.len, s.cap), c.Ule(s.cap, lim), c.Ule(s.off, lim), c.Or(c.Not(c.Eq(s.arr, c.Nil())), c.Eq(s.cap, c.BVc(64, 0))))
	c.addFact(s.len, f)
}

// load reads a value of type t at addr.
func (e *Exec) load(st *State, addr *Term, t types.Type) Value {
	if addr.op == "ite" {
		return e.c.iteValue(addr.args[0], e.load(st, addr.args[1], t), e.load(st, addr.args[2], t))
	}
	if s, ok := scalarSort(t); ok {
		key := e.p.reg.keyFor(addr, t)
		e.keySorts[key] = s
		e.keyTypes[key] = t
		return e.readLeaf(e.chain(st, key), addr, s, t)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		key := e.p.reg.keyFor(addr, t)
		arr := e.readLeaf(e.chain(st, key+"#arr"), addr, SRef, nil)
		off := e.readLeaf(e.chain(st, key+"#off"), addr, SBV64, nil)
		ln := e.readLeaf(e.chain(st, key+"#len"), addr, SBV64, nil)
		cp := e.readLeaf(e.chain(st, key+"#cap"), addr, SBV64, nil)
		s := &SliceV{arr, off, ln, cp}
		e.sliceFactsDeep(s)
		return s
	case *types.Struct:
		a := &AggV{}
		for i := 0; i < u.NumFields(); i++ {
			a.elems = append(a.elems, e.load(st, e.fieldAddr(addr, t, i), u.Field(i).Type()))
		}
		return a
	case *types.Array:
		if u.Len() > 4096 {
			unsup("load of large array %s", t)
		}
		a := &AggV{}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, e.load(st, e.c.El(addr, e.c.BVc(64, uint64(i))), u.Elem()))
		}
		return a
	}
	unsup("load of %s", t)
	return nil
}

// sliceFactsDeep adds validity facts to slice headers read from symbolic
// memory, descending through ite so that each symbolic header gets its facts.
func (e *Exec) sliceFactsDeep(s *SliceV) {
	if s.len.op == "ite" {
		if e.deepDone[*s] {
			return
		}
		if e.deepDone == nil {
			e.deepDone = map[SliceV]bool{}
		}
		e.deepDone[*s] = true
	}
	if s.len.op == "ite" && s.arr.op == "ite" && s.cap.op == "ite" && s.arr.args[0] == s.len.args[0] && s.cap.args[0] == s.len.args[0] {
		off := func(i int) *Term {
			if s.off.op == "ite" && s.off.args[0] == s.len.args[0] {
				return s.off.args[i]
			}
			return s.off
		}
		e.sliceFactsDeep(&SliceV{s.arr.args[1], off(1), s.len.args[1], s.cap.args[1]})
		e.sliceFactsDeep(&SliceV{s.arr.args[2], off(2), s.len.args[2], s.cap.args[2]})
		return
	}
	if s.len.op == "app" || s.len.op == "sym" || s.len.op == "ite" {
		e.sliceFacts(s)
	}
}

func (e *Exec) fieldAddr(addr *Term, st types.Type, i int) *Term {
	if addr.op == "ite" {
		return e.c.Ite(addr.args[0], e.fieldAddr(addr.args[1], st, i), e.fieldAddr(addr.args[2], st, i))
	}
	return e.c.Sub(e.p.reg.ftag(st, i), addr)
}

func (e *Exec) writeLeaf(st *State, key string, addr, val *Term) {
	e.noteWrite(st, key, addr)
	l := e.chain(st, key)
	if l.kind == lWrite && l.addr == addr {
		l = l.below
	}
	e.layerID++
	st.heap[key] = &Layer{kind: lWrite, below: l, addr: addr, val: val, id: e.layerID}
}

// store writes a value of type t at addr.
func (e *Exec) store(st *State, addr *Term, t types.Type, v Value) {
	if addr.op == "ite" {
		// conditional write: write the merged value on both addresses
		a, b := addr.args[1], addr.args[2]
		old := e.load(st, a, t)
		e.store(st, a, t, e.c.iteValue(addr.args[0], v, old))
		old = e.load(st, b, t)
		e.store(st, b, t, e.c.iteValue(addr.args[0], old, v))
		return
	}
	if s, ok := scalarSort(t); ok {
		key := e.p.reg.keyFor(addr, t)
		e.keySorts[key] = s
		e.keyTypes[key] = t
		e.writeLeaf(st, key, addr, v.(*Term))
		return
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s := v.(*SliceV)
		key := e.p.reg.keyFor(addr, t)
		e.writeLeaf(st, key+"#arr", addr, s.arr)
		e.writeLeaf(st, key+"#off", addr, s.off)
		e.writeLeaf(st, key+"#len", addr, s.len)
		e.writeLeaf(st, key+"#cap", addr, s.cap)
		return
	case *types.Struct:
		a := v.(*AggV)
		for i := 0; i < u.NumFields(); i++ {
			e.store(st, e.fieldAddr(addr, t, i), u.Field(i).Type(), a.elems[i])
		}
		return
	case *types.Array:
		a := v.(*AggV)
		for i := int64(0); i < u.Len(); i++ {
			e.store(st, e.c.El(addr, e.c.BVc(64, uint64(i))), u.Elem(), a.elems[i])
		}
		return
	}
	unsup("store of %s", t)
}

// leafPath describes one scalar leaf of a type: the field tags from the base
// address, the heap key and the sort.
type leafPath struct {
	tags []int64
	idx  []int64 // constant array indices, parallel encoding: -1 for tag steps
	key  string
	sort Sort
	typ  types.Type
}

func (e *Exec) leaves(t types.Type) []leafPath {
	var out []leafPath
	var walk func(t types.Type, tags []int64, key string)
	walk = func(t types.Type, tags []int64, key string) {
		if key == "" {
			key = "C:" + typeStr(t)
		}
		if s, ok := scalarSort(t); ok {
			out = append(out, leafPath{tags: append([]int64(nil), tags...), key: key, sort: s, typ: t})
			return
		}
		switch u := under(t).(type) {
		case *types.Slice:
			for _, p := range []struct {
				n string
				s Sort
			}{{"#arr", SRef}, {"#off", SBV64}, {"#len", SBV64}, {"#cap", SBV64}} {
				out = append(out, leafPath{tags: append([]int64(nil), tags...), key: key + p.n, sort: p.s})
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ft := e.p.reg.ftag(t, i)
				walk(u.Field(i).Type(), append(append([]int64(nil), tags...), ft), e.p.reg.fkeys[ft])
			}
		default:
			unsup("leaves of %s", t)
		}
	}
	walk(t, nil, "")
	return out
}

func (lp leafPath) at(e *Exec, base *Term) *Term {
	for _, tg := range lp.tags {
		base = e.c.Sub(tg, base)
	}
	return base
}

// matchEl decomposes addr as path(el(arr, i)); cond says when it has that shape.
func (e *Exec) matchEl(addr *Term, tags []int64) (cond, arr, idx *Term) {
	c := e.c
	cond = c.True()
	for i := len(tags) - 1; i >= 0; i-- {
		if addr.op == "sub" {
			if int64(addr.val) != tags[i] {
				return c.False(), nil, nil
			}
			addr = addr.args[0]
			continue
		}
		if addr.op == "nil" || addr.op == "obj" || addr.op == "el" || addr.op == "me" {
			return c.False(), nil, nil
		}
		cond = c.And(cond, c.mk("is-sub", SBool, 0, "", addr), c.Eq(c.mk("stag", SInt, 0, "", addr), c.Intc(tags[i])))
		addr = c.mk("sbase", SRef, 0, "", addr)
	}
	switch addr.op {
	case "el":
		return cond, addr.args[0], addr.args[1]
	case "nil", "obj", "sub", "me":
		return c.False(), nil, nil
	}
	return c.And(cond, c.mk("is-el", SBool, 0, "", addr)), c.mk("ebase", SRef, 0, "", addr), c.mk("eidx", SBV64, 0, "", addr)
}

func (e *Exec) matchMe(addr *Term, tags []int64) (cond, m, key *Term) {
	c := e.c
	cond = c.True()
	for i := len(tags) - 1; i >= 0; i-- {
		if addr.op == "sub" && int64(addr.val) == tags[i] {
			addr = addr.args[0]
			continue
		}
		return c.False(), nil, nil
	}
	switch addr.op {
	case "me":
		return cond, addr.args[0], addr.args[1]
	case "nil", "obj", "sub", "el":
		return c.False(), nil, nil
	}
	return c.And(cond, c.mk("is-me", SBool, 0, "", addr)), c.mk("mbase", SRef, 0, "", addr), c.mk("mkey", SAny, 0, "", addr)
}

// copyRange makes dst[dOff..dOff+n) of element type t read as src (a snapshot
// of the current heap) at sOff.  dst and src are array bases.
func (e *Exec) copyRange(st *State, t types.Type, dst, dOff, src, sOff, n *Term) {
	c := e.c
	if n.isConst() && n.val == 0 {
		return
	}
	if n.isConst() && n.val <= 8 {
		var vals []Value
		for i := uint64(0); i < n.val; i++ {
			vals = append(vals, e.load(st, c.El(src, c.BVAdd(sOff, c.BVc(64, i))), t))
		}
		for i := uint64(0); i < n.val; i++ {
			e.store(st, c.El(dst, c.BVAdd(dOff, c.BVc(64, i))), t, vals[i])
		}
		return
	}
	for _, lp := range e.leaves(t) {
		lp := lp
		old := e.chain(st, lp.key)
		e.noteRangeWrite(st, lp, dst, dOff, n)
		e.layerID++
		st.heap[lp.key] = &Layer{kind: lCopy, below: old, id: e.layerID,
			pred: func(a *Term) *Term {
				cond, arr, idx := e.matchEl(a, lp.tags)
				if cond.isFalse() {
					return cond
				}
				return c.And(cond, e.addrEq(arr, dst), c.Ule(dOff, idx), c.Ult(c.BVSub(idx, dOff), n))
			},
			src: func(a *Term) *Term {
				_, _, idx := e.matchEl(a, lp.tags)
				return e.readLeaf(old, lp.at(e, c.El(src, c.BVAdd(sOff, c.BVSub(idx, dOff)))), lp.sort, lp.typ)
			}}
	}
}

// fillFn makes dst[dOff..+n) of a scalar element type read as f(index).
func (e *Exec) fillFn(st *State, t types.Type, dst, dOff, n *Term, f func(i *Term) *Term) {
	c := e.c
	lps := e.leaves(t)
	if len(lps) != 1 {
		unsup("fill of %s", t)
	}
	lp := lps[0]
	old := e.chain(st, lp.key)
	e.noteRangeWrite(st, lp, dst, dOff, n)
	e.layerID++
	st.heap[lp.key] = &Layer{kind: lCopy, below: old, id: e.layerID,
		pred: func(a *Term) *Term {
			cond, arr, idx := e.matchEl(a, lp.tags)
			if cond.isFalse() {
				return cond
			}
			return c.And(cond, e.addrEq(arr, dst), c.Ule(dOff, idx), c.Ult(c.BVSub(idx, dOff), n))
		},
		src: func(a *Term) *Term {
			_, _, idx := e.matchEl(a, lp.tags)
			return f(c.BVSub(idx, dOff))
		}}
}

// havocKey replaces every leaf of key that satisfies pred (and existed at wm).
func (e *Exec) havocKey(st *State, key string, wm int64, pred func(*Term) *Term) {
	l := e.chain(st, key)
	e.layerID++
	st.heap[key] = &Layer{kind: lHavoc, below: l, pred: pred, uf: fmt.Sprintf("H%d.%s", e.layerID, key), wm: wm, id: e.layerID}
}

// freshValue makes a symbolic value of type t whose references exist at wm.
func (e *Exec) freshValue(name string, t types.Type, wm int64) Value {
	c := e.c
	if s, ok := scalarSort(t); ok {
		v := c.Fresh(name, s)
		e.typeFacts(v, t, wm)
		return v
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s := &SliceV{c.Fresh(name+".arr", SRef), c.Fresh(name+".off", SBV64), c.Fresh(name+".len", SBV64), c.Fresh(name+".cap", SBV64)}
		e.setAge(s.arr, ageRange{-1, wm})
		e.sliceFacts(s)
		return s
	case *types.Struct:
		a := &AggV{}
		for i := 0; i < u.NumFields(); i++ {
			a.elems = append(a.elems, e.freshValue(name+"."+u.Field(i).Name(), u.Field(i).Type(), wm))
		}
		return a
	case *types.Tuple:
		a := &AggV{}
		for i := 0; i < u.Len(); i++ {
			a.elems = append(a.elems, e.freshValue(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), wm))
		}
		return a
	case *types.Array:
		a := &AggV{}
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, e.freshValue(fmt.Sprintf("%s.%d", name, i), u.Elem(), wm))
		}
		return a
	}
	unsup("symbolic value of %s", t)
	return nil
}
