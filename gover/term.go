package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str"
	SRef  Sort = "Ref"
	SAny  Sort = "Any"
	SBV1  Sort = "BV1"
	SBV8  Sort = "BV8"
	SBV16 Sort = "BV16"
	SBV32 Sort = "BV32"
	SBV64 Sort = "BV64"
	SF32  Sort = "F32"
	SF64  Sort = "F64"
)

func BV(n int) Sort { return Sort("BV" + strconv.Itoa(n)) }

func (s Sort) width() int {
	if strings.HasPrefix(string(s), "BV") {
		n, _ := strconv.Atoi(string(s)[2:])
		return n
	}
	return 0
}

func (s Sort) smt() string {
	if w := s.width(); w > 0 {
		return fmt.Sprintf("(_ BitVec %d)", w)
	}
	switch s {
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return string(s)
}

type Term struct {
	op    string
	sort  Sort
	args  []*Term
	val   uint64 // bv constants, int constants (as int64), extract hi<<32|lo
	name  string // symbols, uf names, string literals, bound variables
	id    int
	open  bool // contains a bound variable that is not bound inside
	size  int
	used  bool // has been sent to a solver
	quant bool // contains a quantifier
}

type Ctx struct {
	table   map[string]*Term
	terms   []*Term
	facts   map[*Term][]*Term
	fresh   int
	factSeq int // bumped when a fact is attached to an existing, already used term
	onApp   map[string]func(*Term)
	satHook func(s, i *Term) *Term
	ufs     map[string]string // name -> declaration
	tagIDs  map[string]int64
	tagNm   []string
}

func newCtx() *Ctx {
	return &Ctx{table: map[string]*Term{}, facts: map[*Term][]*Term{}, ufs: map[string]string{}, tagIDs: map[string]int64{}, onApp: map[string]func(*Term){}}
}

func (c *Ctx) mk(op string, s Sort, val uint64, name string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	b.WriteByte('|')
	b.WriteString(strconv.FormatUint(val, 16))
	b.WriteByte('|')
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, args: append([]*Term(nil), args...), id: len(c.terms)}
	t.size = 1
	for _, a := range args {
		if a.open {
			t.open = true
		}
		if a.quant {
			t.quant = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if op == "var" {
		t.open = true
	}
	if op == "forall" {
		t.quant = true
		// args: vars..., body ; open iff body has other variables
		t.open = c.freeVars(t)
	}
	c.terms = append(c.terms, t)
	c.table[k] = t
	return t
}

func (c *Ctx) freeVars(q *Term) bool {
	bound := map[*Term]bool{}
	for _, v := range q.args[:len(q.args)-1] {
		bound[v] = true
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if !t.open || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" {
			return !bound[t]
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(q.args[len(q.args)-1])
}

func (c *Ctx) addFact(t, f *Term) {
	if f.op == "true" {
		return
	}
	for _, g := range c.facts[t] {
		if g == f {
			return
		}
	}
	c.facts[t] = append(c.facts[t], f)
	if t.used {
		c.factSeq++
	}
}

// ---- leaves

func (c *Ctx) True() *Term  { return c.mk("true", SBool, 0, "") }
func (c *Ctx) False() *Term { return c.mk("false", SBool, 0, "") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func (c *Ctx) BVc(w int, v uint64) *Term { return c.mk("bv", BV(w), v&mask(w), "") }
func (c *Ctx) Intc(v int64) *Term        { return c.mk("int", SInt, uint64(v), "") }
func (c *Ctx) Sym(name string, s Sort) *Term {
	return c.mk("sym", s, 0, name)
}
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	hint = sanitize(hint)
	return c.Sym(fmt.Sprintf("%s!%d", hint, c.fresh), s)
}
func (c *Ctx) Var(s Sort) *Term {
	c.fresh++
	return c.mk("var", s, 0, fmt.Sprintf("q!%d", c.fresh))
}
func (c *Ctx) Str(lit string) *Term { return c.mk("str", SStr, 0, lit) }

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Sym(name, s)
	}
	name = sanitize(name)
	if _, ok := c.ufs[name]; !ok {
		var b strings.Builder
		b.WriteString("(declare-fun |" + name + "| (")
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.sort.smt())
		}
		b.WriteString(") " + s.smt() + ")")
		c.ufs[name] = b.String()
	}
	n := len(c.terms)
	t := c.mk("app", s, 0, name, args...)
	if h := c.onApp[name]; h != nil && t.id >= n && !t.open {
		h(t)
	}
	return t
}

func (t *Term) isConst() bool {
	return t.op == "bv" || t.op == "int" || t.op == "true" || t.op == "false" || t.op == "str"
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func (t *Term) sval() int64 {
	w := t.sort.width()
	if w == 0 || w == 64 {
		return int64(t.val)
	}
	return int64(t.val<<(64-uint(w))) >> (64 - uint(w))
}

// ---- boolean

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", SBool, 0, "", a)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() {
			return true
		}
		if t.isFalse() {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("and", SBool, 0, "", out...)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = c.Not(t)
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return true
		}
		if t.isTrue() {
			return false
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.True()
		}
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("or", SBool, 0, "", out...)
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == "not" {
		return c.Ite(cond.args[0], b, a)
	}
	if b.op == "ite" && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	if a.op == "ite" && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	if a.op == "mkany" && b.op == "mkany" {
		return c.MkAny(c.Ite(cond, a.args[0], b.args[0]), c.Ite(cond, a.args[1], b.args[1]), c.Ite(cond, a.args[2], b.args[2]), c.Ite(cond, a.args[3], b.args[3]))
	}
	return c.mk("ite", a.sort, 0, "", cond, a, b)
}

// iteMap pushes f through ite with limited depth when it pays off.
func (c *Ctx) pushIte(t *Term, depth int, f func(*Term) *Term) *Term {
	if t.op == "ite" && depth > 0 {
		return c.Ite(t.args[0], c.pushIte(t.args[1], depth-1, f), c.pushIte(t.args[2], depth-1, f))
	}
	return f(t)
}

func allConstLeaves(t *Term, depth int) bool {
	if t.op == "ite" {
		if depth == 0 {
			return false
		}
		return allConstLeaves(t.args[1], depth-1) && allConstLeaves(t.args[2], depth-1)
	}
	return t.isConst() || t.op == "nil" || (t.op == "obj" && t.args[0].isConst())
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s(%s) %s(%s)", a.sort, a.op, b.sort, b.op))
	}
	if a.isConst() && b.isConst() {
		return c.False() // hash-consed, distinct constants
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.sort == SRef {
		if r := c.refEq(a, b); r != nil {
			return r
		}
	}
	if a.sort == SAny && a.op == "mkany" && b.op == "mkany" {
		r := c.Eq(a.args[0], b.args[0])
		for i := 1; i < 4 && !r.isFalse(); i++ {
			r = c.And(r, c.Eq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.sort == SAny && (a.op == "mkany" || b.op == "mkany") {
		m, o := a, b
		if o.op == "mkany" {
			m, o = o, m
		}
		if m.args[0].op == "int" && m.args[0].val == 0 {
			return c.Eq(c.ATag(o), c.Intc(0))
		}
	}
	// push through ite with constant leaves
	if (a.op == "ite" && (b.isConst() || b.op == "nil") && allConstLeaves(a, 64)) || (a.op == "ite" && a.sort == SRef && allConstLeaves(a, 64) && allConstLeaves(b, 64)) {
		return c.pushIte(a, 64, func(x *Term) *Term { return c.Eq(x, b) })
	}
	if b.op == "ite" && (a.isConst() || a.op == "nil") && allConstLeaves(b, 64) {
		return c.pushIte(b, 64, func(x *Term) *Term { return c.Eq(a, x) })
	}
	// x + c1 = x + c2
	if a.sort.width() > 0 {
		xa, ca := splitAdd(a)
		xb, cb := splitAdd(b)
		if xa == xb {
			return c.Bool((ca-cb)&mask(a.sort.width()) == 0)
		}
		if xa != nil && b.op == "bv" && ca != 0 {
			return c.Eq(xa, c.BVc(a.sort.width(), b.val-ca))
		}
		if xb != nil && a.op == "bv" && cb != 0 {
			return c.Eq(xb, c.BVc(a.sort.width(), a.val-cb))
		}
		// zext(x) = const
		if a.op == "zext" && b.op == "bv" {
			w := a.args[0].sort.width()
			if b.val&^mask(w) != 0 {
				return c.False()
			}
			return c.Eq(a.args[0], c.BVc(w, b.val))
		}
		if b.op == "zext" && a.op == "bv" {
			return c.Eq(b, a)
		}
		if a.op == "zext" && b.op == "zext" && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := c.mk("=", SBool, 0, "", a, b)
	if a.sort == SStr && !t.open {
		lit, o := a, b
		if lit.op != "str" {
			lit, o = o, lit
		}
		if lit.op == "str" {
			c.litEqFact(t, o, lit.name)
		}
	}
	return t
}

func (c *Ctx) litEqFact(t, o *Term, lit string) {
	if _, done := c.facts[t]; done {
		return
	}
	cs := []*Term{c.Eq(c.SLen(o), c.BVc(64, uint64(len(lit))))}
	for i := 0; i < len(lit); i++ {
		cs = append(cs, c.Eq(c.SAt(o, c.BVc(64, uint64(i))), c.BVc(8, uint64(lit[i]))))
	}
	all := c.And(cs...)
	c.addFact(t, c.Or(c.And(t, all), c.And(c.Not(t), c.Not(all))))
}

func splitAdd(t *Term) (*Term, uint64) {
	if t.op == "bvadd" && t.args[1].op == "bv" {
		return t.args[0], t.args[1].val
	}
	if t.op == "bv" {
		return nil, t.val
	}
	return t, 0
}

func (c *Ctx) refEq(a, b *Term) *Term {
	ctor := func(t *Term) bool {
		switch t.op {
		case "nil", "obj", "sub", "el", "me":
			return true
		}
		return false
	}
	if !ctor(a) || !ctor(b) {
		return nil
	}
	if a.op != b.op {
		return c.False()
	}
	switch a.op {
	case "nil":
		return c.True()
	case "obj":
		return c.Eq(a.args[0], b.args[0])
	case "sub":
		if a.val != b.val {
			return c.False()
		}
		return c.Eq(a.args[0], b.args[0])
	case "el", "me":
		e1 := c.Eq(a.args[0], b.args[0])
		if e1.isFalse() {
			return e1
		}
		return c.And(e1, c.Eq(a.args[1], b.args[1]))
	}
	return nil
}

// ---- Ref

func (c *Ctx) Nil() *Term         { return c.mk("nil", SRef, 0, "") }
func (c *Ctx) Obj(id int64) *Term { return c.mk("obj", SRef, 0, "", c.Intc(id)) }
func (c *Ctx) Sub(tag int64, r *Term) *Term {
	return c.mk("sub", SRef, uint64(tag), "", r)
}
func (c *Ctx) El(r, i *Term) *Term { return c.mk("el", SRef, 0, "", r, i) }
func (c *Ctx) Me(r, k *Term) *Term { return c.mk("me", SRef, 0, "", r, k) }

// Age is the allocation number of the root object of an address.
func (c *Ctx) Age(r *Term) *Term {
	switch r.op {
	case "nil":
		return c.Intc(0)
	case "obj":
		return r.args[0]
	case "sub", "el", "me":
		return c.Age(r.args[0])
	case "ite":
		return c.Ite(r.args[0], c.Age(r.args[1]), c.Age(r.args[2]))
	}
	return c.App("age", SInt, r)
}

func (c *Ctx) ILt(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return c.Bool(int64(a.val) < int64(b.val))
	}
	if a == b {
		return c.False()
	}
	if a.op == "ite" && allConstLeaves(a, 64) && b.op == "int" {
		return c.pushIte(a, 64, func(x *Term) *Term { return c.ILt(x, b) })
	}
	return c.mk("<", SBool, 0, "", a, b)
}
func (c *Ctx) ILe(a, b *Term) *Term { return c.Not(c.ILt(b, a)) }

// ---- Any

func (c *Ctx) EmptyStr() *Term { return c.Str("") }
func (c *Ctx) MkAny(tag, bits, ref, str *Term) *Term {
	// re-fold a decomposed term
	if tag.op == "atag" && bits.op == "abits" && ref.op == "aref" && str.op == "astr" && tag.args[0] == bits.args[0] && tag.args[0] == ref.args[0] && tag.args[0] == str.args[0] {
		return tag.args[0]
	}
	return c.mk("mkany", SAny, 0, "", tag, bits, ref, str)
}
func (c *Ctx) NilAny() *Term {
	return c.MkAny(c.Intc(0), c.BVc(64, 0), c.Nil(), c.EmptyStr())
}
func (c *Ctx) acc(op string, s Sort, a *Term, idx int) *Term {
	if a.op == "mkany" {
		return a.args[idx]
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.acc(op, s, a.args[1], idx), c.acc(op, s, a.args[2], idx))
	}
	return c.mk(op, s, 0, "", a)
}
func (c *Ctx) ATag(a *Term) *Term  { return c.acc("atag", SInt, a, 0) }
func (c *Ctx) ABits(a *Term) *Term { return c.acc("abits", SBV64, a, 1) }
func (c *Ctx) ARef(a *Term) *Term  { return c.acc("aref", SRef, a, 2) }
func (c *Ctx) AStr(a *Term) *Term  { return c.acc("astr", SStr, a, 3) }

// ---- strings

func (c *Ctx) SLen(s *Term) *Term {
	switch s.op {
	case "str":
		return c.BVc(64, uint64(len(s.name)))
	case "ite":
		return c.Ite(s.args[0], c.SLen(s.args[1]), c.SLen(s.args[2]))
	case "ssub":
		return c.BVSub(s.args[2], s.args[1])
	case "scat":
		return c.BVAdd(c.SLen(s.args[0]), c.SLen(s.args[1]))
	}
	t := c.App("slen", SBV64, s)
	if !t.open {
		c.addFact(t, c.Ule(t, c.BVc(64, 1<<40)))
	}
	return t
}
func (c *Ctx) SAt(s, i *Term) *Term {
	switch s.op {
	case "str":
		if i.op == "bv" {
			if i.val < uint64(len(s.name)) {
				return c.BVc(8, uint64(s.name[i.val]))
			}
		} else if len(s.name) <= 64 && len(s.name) > 0 {
			r := c.BVc(8, uint64(s.name[len(s.name)-1]))
			for k := len(s.name) - 2; k >= 0; k-- {
				r = c.Ite(c.Eq(i, c.BVc(64, uint64(k))), c.BVc(8, uint64(s.name[k])), r)
			}
			return r
		}
	case "ssub":
		return c.SAt(s.args[0], c.BVAdd(s.args[1], i))
	case "scat":
		n := c.SLen(s.args[0])
		return c.Ite(c.Ult(i, n), c.SAt(s.args[0], i), c.SAt(s.args[1], c.BVSub(i, n)))
	case "ite":
		return c.Ite(s.args[0], c.SAt(s.args[1], i), c.SAt(s.args[2], i))
	}
	if c.satHook != nil {
		if r := c.satHook(s, i); r != nil {
			return r
		}
	}
	return c.App("sat", SBV8, s, i)
}
func (c *Ctx) SSub(s, lo, hi *Term) *Term {
	if lo.op == "bv" && lo.val == 0 && hi == c.SLen(s) {
		return s
	}
	if lo == hi {
		return c.EmptyStr()
	}
	if s.op == "str" && lo.op == "bv" && hi.op == "bv" && lo.val <= hi.val && hi.val <= uint64(len(s.name)) {
		return c.Str(s.name[lo.val:hi.val])
	}
	if s.op == "ssub" {
		return c.SSub(s.args[0], c.BVAdd(s.args[1], lo), c.BVAdd(s.args[1], hi))
	}
	t := c.mk("ssub", SStr, 0, "", s, lo, hi)
	if !t.open {
		raw := c.mk("app", SBV64, 0, "slen", t)
		c.ufs["slen"] = ""
		c.addFact(t, c.Imp(c.And(c.Ule(lo, hi), c.Ule(hi, c.SLen(s))), c.mk("=", SBool, 0, "", raw, c.BVSub(hi, lo))))
	}
	return t
}
func (c *Ctx) SCat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return c.Str(a.name + b.name)
	}
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	return c.mk("scat", SStr, 0, "", a, b)
}

// ---- bit-vectors

func (c *Ctx) bvbin(op string, a, b *Term, f func(x, y uint64) uint64) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("%s sorts %s %s", op, a.sort, b.sort))
	}
	if a.op == "bv" && b.op == "bv" {
		return c.BVc(a.sort.width(), f(a.val, b.val))
	}
	return c.mk(op, a.sort, 0, "", a, b)
}
func (c *Ctx) BVAdd(a, b *Term) *Term {
	w := a.sort.width()
	if a.op == "bv" && b.op != "bv" {
		a, b = b, a
	}
	if b.op == "bv" {
		if b.val == 0 {
			return a
		}
		if x, k := splitAdd(a); x != nil && k != 0 {
			return c.BVAdd(x, c.BVc(w, k+b.val))
		}
		if a.op == "ite" && allConstLeaves(a, 8) {
			return c.pushIte(a, 8, func(x *Term) *Term { return c.BVAdd(x, b) })
		}
	} else {
		// float constants outward
		if x, k := splitAdd(a); k != 0 && x != nil {
			return c.BVAdd(c.BVAdd(x, b), c.BVc(w, k))
		}
		if y, k := splitAdd(b); k != 0 && y != nil {
			return c.BVAdd(c.BVAdd(a, y), c.BVc(w, k))
		}
		// x + (y - x) = y
		if b.op == "bvsub" && b.args[1] == a {
			return b.args[0]
		}
		if a.op == "bvsub" && a.args[1] == b {
			return a.args[0]
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.bvbin("bvadd", a, b, func(x, y uint64) uint64 { return x + y })
}
func (c *Ctx) BVSub(a, b *Term) *Term {
	w := a.sort.width()
	if a == b {
		return c.BVc(w, 0)
	}
	if b.op == "bv" {
		return c.BVAdd(a, c.BVc(w, -b.val))
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return c.BVc(w, ca-cb)
	}
	if xa != nil && xb != nil && (ca != 0 || cb != 0) {
		return c.BVAdd(c.BVSub(xa, xb), c.BVc(w, ca-cb))
	}
	// (x + y) - x
	if a.op == "bvadd" {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return c.bvbin("bvsub", a, b, func(x, y uint64) uint64 { return x - y })
}
func (c *Ctx) BVMul(a, b *Term) *Term {
	if a.op == "bv" && b.op != "bv" {
		a, b = b, a
	}
	if b.op == "bv" {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return c.BVShl(a, c.BVc(a.sort.width(), uint64(bits.TrailingZeros64(b.val))))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.bvbin("bvmul", a, b, func(x, y uint64) uint64 { return x * y })
}
func (c *Ctx) BVAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == "bv" {
		a, b = b, a
	}
	if b.op == "bv" {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.sort.width()) {
			return a
		}
	}
	return c.bvbin("bvand", a, b, func(x, y uint64) uint64 { return x & y })
}
func (c *Ctx) BVOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == "bv" {
		a, b = b, a
	}
	if b.op == "bv" {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.sort.width()) {
			return b
		}
	}
	return c.bvbin("bvor", a, b, func(x, y uint64) uint64 { return x | y })
}
func (c *Ctx) BVXor(a, b *Term) *Term {
	if a == b {
		return c.BVc(a.sort.width(), 0)
	}
	if a.op == "bv" {
		a, b = b, a
	}
	if b.op == "bv" && b.val == 0 {
		return a
	}
	return c.bvbin("bvxor", a, b, func(x, y uint64) uint64 { return x ^ y })
}

// shifts: the shift amount has the same width; amounts >= width give 0 / sign.
func (c *Ctx) BVShl(a, b *Term) *Term {
	w := a.sort.width()
	if b.op == "bv" {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.BVc(w, 0)
		}
	}
	return c.bvbin("bvshl", a, b, func(x, y uint64) uint64 {
		if y >= uint64(w) {
			return 0
		}
		return x << y
	})
}
func (c *Ctx) BVLshr(a, b *Term) *Term {
	w := a.sort.width()
	if b.op == "bv" {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.BVc(w, 0)
		}
	}
	return c.bvbin("bvlshr", a, b, func(x, y uint64) uint64 {
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	})
}
func (c *Ctx) BVAshr(a, b *Term) *Term {
	w := a.sort.width()
	if a.op == "bv" && b.op == "bv" {
		s := b.val
		if s > 63 {
			s = 63
		}
		return c.BVc(w, uint64(a.sval()>>s))
	}
	return c.mk("bvashr", a.sort, 0, "", a, b)
}
func (c *Ctx) BVNeg(a *Term) *Term { return c.BVSub(c.BVc(a.sort.width(), 0), a) }
func (c *Ctx) BVNot(a *Term) *Term {
	if a.op == "bv" {
		return c.BVc(a.sort.width(), ^a.val)
	}
	return c.mk("bvnot", a.sort, 0, "", a)
}
func (c *Ctx) BVDivRem(op string, a, b *Term) *Term {
	w := a.sort.width()
	if a.op == "bv" && b.op == "bv" && b.val != 0 {
		switch op {
		case "bvudiv":
			return c.BVc(w, a.val/b.val)
		case "bvurem":
			return c.BVc(w, a.val%b.val)
		case "bvsdiv":
			return c.BVc(w, uint64(a.sval()/b.sval()))
		case "bvsrem":
			return c.BVc(w, uint64(a.sval()%b.sval()))
		}
	}
	if b.op == "bv" && bits.OnesCount64(b.val) == 1 {
		switch op {
		case "bvudiv":
			return c.BVLshr(a, c.BVc(w, uint64(bits.TrailingZeros64(b.val))))
		case "bvurem":
			return c.BVAnd(a, c.BVc(w, b.val-1))
		}
	}
	return c.mk(op, a.sort, 0, "", a, b)
}

func (c *Ctx) cmp(op string, a, b *Term, f func(x, y *Term) bool) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("%s sorts %s %s", op, a.sort, b.sort))
	}
	if a.op == "bv" && b.op == "bv" {
		return c.Bool(f(a, b))
	}
	if a.op == "ite" && b.op == "bv" && allConstLeaves(a, 64) {
		return c.pushIte(a, 64, func(x *Term) *Term { return c.cmp(op, x, b, f) })
	}
	if b.op == "ite" && a.op == "bv" && allConstLeaves(b, 64) {
		return c.pushIte(b, 64, func(x *Term) *Term { return c.cmp(op, a, x, f) })
	}
	return c.mk(op, SBool, 0, "", a, b)
}
func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b || (b.op == "bv" && b.val == 0) {
		return c.False()
	}
	w := a.sort.width()
	if a.op == "bv" && a.val == mask(w) {
		return c.False()
	}
	if a.op == "zext" && b.op == "bv" && b.val > mask(a.args[0].sort.width()) {
		return c.True()
	}
	if a.op == "bv" && b.op == "zext" && a.val >= mask(b.args[0].sort.width()) {
		return c.False()
	}
	if b.op == "bv" && b.val == 1 {
		return c.Eq(a, c.BVc(w, 0))
	}
	if a.op == "bv" && a.val == 0 {
		return c.Not(c.Eq(b, a))
	}
	return c.cmp("bvult", a, b, func(x, y *Term) bool { return x.val < y.val })
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	w := a.sort.width()
	if w == 64 {
		// zext against non-negative constants behaves like unsigned
		if a.op == "zext" && b.op == "bv" {
			if b.sval() <= 0 {
				return c.False()
			}
			return c.Ult(a, b)
		}
		if b.op == "zext" && a.op == "bv" {
			if a.sval() < 0 {
				return c.True()
			}
			return c.Ult(a, b)
		}
		if a.op == "zext" && b.op == "zext" {
			return c.Ult(a, b)
		}
	}
	return c.cmp("bvslt", a, b, func(x, y *Term) bool { return x.sval() < y.sval() })
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	aw := a.sort.width()
	if lo == 0 && w == aw {
		return a
	}
	switch a.op {
	case "bv":
		return c.BVc(w, a.val>>uint(lo))
	case "extract":
		l0 := int(a.val & 0xffffffff)
		return c.Extract(hi+l0, lo+l0, a.args[0])
	case "zext":
		iw := a.args[0].sort.width()
		if hi < iw {
			return c.Extract(hi, lo, a.args[0])
		}
		if lo >= iw {
			return c.BVc(w, 0)
		}
		if lo == 0 {
			return c.ZExt(w, a.args[0])
		}
	case "sext":
		iw := a.args[0].sort.width()
		if hi < iw {
			return c.Extract(hi, lo, a.args[0])
		}
	case "concat":
		lw := a.args[1].sort.width()
		if hi < lw {
			return c.Extract(hi, lo, a.args[1])
		}
		if lo >= lw {
			return c.Extract(hi-lw, lo-lw, a.args[0])
		}
	case "ite":
		if allConstLeaves(a, 8) || a.size < 60 {
			return c.Ite(a.args[0], c.Extract(hi, lo, a.args[1]), c.Extract(hi, lo, a.args[2]))
		}
	}
	return c.mk("extract", BV(w), uint64(hi)<<32|uint64(lo), "", a)
}
func (c *Ctx) ZExt(w int, a *Term) *Term {
	aw := a.sort.width()
	if aw == w {
		return a
	}
	if a.op == "bv" {
		return c.BVc(w, a.val)
	}
	if a.op == "zext" {
		return c.ZExt(w, a.args[0])
	}
	if a.op == "ite" && (allConstLeaves(a, 8) || a.size < 60) {
		return c.Ite(a.args[0], c.ZExt(w, a.args[1]), c.ZExt(w, a.args[2]))
	}
	return c.mk("zext", BV(w), 0, "", a)
}
func (c *Ctx) SExt(w int, a *Term) *Term {
	aw := a.sort.width()
	if aw == w {
		return a
	}
	if a.op == "bv" {
		return c.BVc(w, uint64(a.sval()))
	}
	if a.op == "sext" {
		return c.SExt(w, a.args[0])
	}
	if a.op == "zext" {
		return c.ZExt(w, a.args[0])
	}
	return c.mk("sext", BV(w), 0, "", a)
}
func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.sort.width() + b.sort.width()
	if a.op == "bv" && b.op == "bv" && w <= 64 {
		return c.BVc(w, a.val<<uint(b.sort.width())|b.val)
	}
	if a.op == "bv" && a.val == 0 {
		return c.ZExt(w, b)
	}
	// adjacent extracts
	if a.op == "extract" && b.op == "extract" && a.args[0] == b.args[0] && int(a.val&0xffffffff) == int(b.val>>32)+1 {
		return c.Extract(int(a.val>>32), int(b.val&0xffffffff), a.args[0])
	}
	return c.mk("concat", BV(w), 0, "", a, b)
}

// Conv converts a bit-vector integer to width w with the source signedness.
func (c *Ctx) Conv(a *Term, srcSigned bool, w int) *Term {
	aw := a.sort.width()
	if w == aw {
		return a
	}
	if w < aw {
		return c.Extract(w-1, 0, a)
	}
	if srcSigned {
		return c.SExt(w, a)
	}
	return c.ZExt(w, a)
}

// ---- floats (values are carried as bits)

func fpSort(w int) Sort {
	if w == 32 {
		return SF32
	}
	return SF64
}
func (c *Ctx) FP(bits *Term) *Term {
	if bits.op == "fpbits" {
		return bits.args[0]
	}
	return c.mk("tofp", fpSort(bits.sort.width()), 0, "", bits)
}

// FPBits names the bit pattern of a float-sorted term.
func (c *Ctx) FPBits(f *Term) *Term {
	if f.op == "tofp" {
		return f.args[0]
	}
	w := 64
	if f.sort == SF32 {
		w = 32
	}
	t := c.App("fpbits"+strconv.Itoa(w), BV(w), f)
	if !t.open {
		c.addFact(t, c.mk("=", SBool, 0, "", c.mk("tofp", f.sort, 0, "", t), f))
	}
	return t
}
func (c *Ctx) FPOp(op string, s Sort, args ...*Term) *Term { return c.mk(op, s, 0, "", args...) }

// ---- quantifiers

func (c *Ctx) Forall(vars []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if !body.open {
		return body
	}
	return c.mk("forall", SBool, 0, "", append(append([]*Term(nil), vars...), body)...)
}

// Subst replaces bound variables / terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = walk(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "sub":
		return c.Sub(int64(t.val), a[0])
	case "<":
		return c.ILt(a[0], a[1])
	case "mkany":
		return c.MkAny(a[0], a[1], a[2], a[3])
	case "atag":
		return c.ATag(a[0])
	case "abits":
		return c.ABits(a[0])
	case "aref":
		return c.ARef(a[0])
	case "astr":
		return c.AStr(a[0])
	case "ssub":
		return c.SSub(a[0], a[1], a[2])
	case "scat":
		return c.SCat(a[0], a[1])
	case "bvadd":
		return c.BVAdd(a[0], a[1])
	case "bvsub":
		return c.BVSub(a[0], a[1])
	case "bvmul":
		return c.BVMul(a[0], a[1])
	case "bvand":
		return c.BVAnd(a[0], a[1])
	case "bvor":
		return c.BVOr(a[0], a[1])
	case "bvshl":
		return c.BVShl(a[0], a[1])
	case "bvlshr":
		return c.BVLshr(a[0], a[1])
	case "bvult":
		return c.Ult(a[0], a[1])
	case "bvslt":
		return c.Slt(a[0], a[1])
	case "extract":
		return c.Extract(int(t.val>>32), int(t.val&0xffffffff), a[0])
	case "zext":
		return c.ZExt(t.sort.width(), a[0])
	case "sext":
		return c.SExt(t.sort.width(), a[0])
	case "concat":
		return c.Concat(a[0], a[1])
	case "app":
		switch t.name {
		case "slen":
			return c.SLen(a[0])
		case "sat":
			return c.SAt(a[0], a[1])
		case "age":
			return c.Age(a[0])
		}
		return c.App(t.name, t.sort, a...)
	}
	return c.mk(t.op, t.sort, t.val, t.name, a...)
}

// ---- printing

func litName(s string) string { return fmt.Sprintf("|lit:%x|", s) }

// head prints the operator application given already printed arguments.
func (t *Term) print(args []string) string {
	ap := func(op string) string { return "(" + op + " " + strings.Join(args, " ") + ")" }
	switch t.op {
	case "true", "false", "nil":
		if t.op == "nil" {
			return "rnil"
		}
		return t.op
	case "bv":
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.width())
	case "int":
		v := int64(t.val)
		if v < 0 {
			return fmt.Sprintf("(- %d)", -v)
		}
		return strconv.FormatInt(v, 10)
	case "str":
		return litName(t.name)
	case "sym", "var":
		return "|" + t.name + "|"
	case "app":
		return ap("|" + t.name + "|")
	case "sub":
		return fmt.Sprintf("(rsub %d %s)", int64(t.val), args[0])
	case "obj":
		return ap("robj")
	case "el":
		return ap("rel")
	case "me":
		return ap("rme")
	case "extract":
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>32, t.val&0xffffffff, args[0])
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.width()-t.args[0].sort.width(), args[0])
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.width()-t.args[0].sort.width(), args[0])
	case "tofp":
		if t.sort == SF32 {
			return fmt.Sprintf("((_ to_fp 8 24) %s)", args[0])
		}
		return fmt.Sprintf("((_ to_fp 11 53) %s)", args[0])
	case "fp.of.ubv", "fp.of.sbv":
		nm := "to_fp_unsigned"
		if t.op == "fp.of.sbv" {
			nm = "to_fp"
		}
		if t.sort == SF32 {
			return fmt.Sprintf("((_ %s 8 24) RNE %s)", nm, args[0])
		}
		return fmt.Sprintf("((_ %s 11 53) RNE %s)", nm, args[0])
	case "fp.cvt":
		if t.sort == SF32 {
			return fmt.Sprintf("((_ to_fp 8 24) RNE %s)", args[0])
		}
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", args[0])
	case "fp.add", "fp.sub", "fp.mul", "fp.div":
		return "(" + t.op + " RNE " + strings.Join(args, " ") + ")"
	case "fp.ceil":
		return "(fp.roundToIntegral RTP " + args[0] + ")"
	case "fp.floor":
		return "(fp.roundToIntegral RTN " + args[0] + ")"
	case "fp.to_ubv", "fp.to_sbv":
		return fmt.Sprintf("((_ %s %d) RTZ %s)", t.op, t.sort.width(), args[0])
	case "is-sub":
		return "((_ is rsub) " + args[0] + ")"
	case "is-el":
		return "((_ is rel) " + args[0] + ")"
	case "is-me":
		return "((_ is rme) " + args[0] + ")"
	case "is-obj":
		return "((_ is robj) " + args[0] + ")"
	case "forall":
		n := len(args) - 1
		var b strings.Builder
		b.WriteString("(forall (")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "(%s %s)", args[i], t.args[i].sort.smt())
		}
		b.WriteString(") " + args[n] + ")")
		return b.String()
	}
	return ap(t.op)
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 && len(t.args) > 0 {
		return "…"
	}
	if t.op == "str" {
		return strconv.Quote(t.name)
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = a.str(d - 1)
	}
	if t.op == "bv" {
		return fmt.Sprintf("%d", t.val)
	}
	return t.print(as)
}
