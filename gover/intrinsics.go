package main

// Models of functions outside the module.  Every model used in a run is listed
// in the evidence as an unchecked assumption.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) model(key string) {
	e.note("model of %s", key)
}

func (e *Exec) newError(wrapped ...*Term) *Term {
	c := e.c
	o := e.alloc()
	if len(wrapped) > 0 {
		e.wraps[o] = wrapped
	}
	return c.MkAny(c.Intc(e.p.reg.tag(e.p.errType)), c.BVc(64, 0), o, c.EmptyStr())
}

func (e *Exec) variadic(st *State, v Value) []*Term {
	s := v.(*SliceV)
	if s.len.op != "bv" {
		return nil
	}
	var out []*Term
	for i := uint64(0); i < s.len.val; i++ {
		out = append(out, e.load(st, e.c.El(s.arr, e.c.BVAdd(s.off, e.c.BVc(64, i))), types.NewInterfaceType(nil, nil)).(*Term))
	}
	return out
}

func (e *Exec) intrinsic(fn *ssa.Function, key string, args []Value, st *State) ([]Outcome, bool) {
	c := e.c
	b64 := func(v uint64) *Term { return c.BVc(64, v) }
	switch key {
	case "fmt.Errorf":
		e.model(key)
		var w []*Term
		if f, ok := args[0].(*Term); ok && f.op == "str" && strings.Contains(f.name, "%w") {
			for _, a := range e.variadic(st, args[1]) {
				w = append(w, a)
			}
		} else if ok && f.op != "str" {
			e.note("fmt.Errorf with a computed format is taken not to wrap")
		}
		return one(st, e.newError(w...)), true
	case "errors.New":
		e.model(key)
		return one(st, e.newError()), true
	case "errors.Is":
		e.model(key)
		return one(st, e.errIs(args[0].(*Term), args[1].(*Term), 0)), true
	case "fmt.Sprintf", "fmt.Sprint":
		e.model(key)
		ts := []*Term{args[0].(*Term)}
		if key == "fmt.Sprintf" {
			ts = append(ts, e.variadic(st, args[1])...)
		}
		return one(st, c.App(fmt.Sprintf("sprintf%d", len(ts)), SStr, ts...)), true
	case "fmt.Println", "fmt.Printf":
		return one(st, b64(0), c.NilAny()), true
	case "strconv.Itoa", "strconv.FormatInt":
		e.model(key)
		r := c.App("itoa", SStr, args[0].(*Term))
		if !r.open {
			c.addFact(r, c.mk("=", SBool, 0, "", c.App("itoa.inv", SBV64, r), args[0].(*Term)))
			c.addFact(r, c.Ult(b64(0), c.SLen(r)))
			x := args[0].(*Term)
			if x.op == "bv" && key == "strconv.Itoa" {
				return one(st, c.Str(fmt.Sprint(x.sval()))), true
			}
		}
		return one(st, r), true
	case "strconv.Atoi":
		e.model(key)
		s := args[0].(*Term)
		ok := c.App("atoi.ok", SBool, s)
		v := c.App("atoi.val", SBV64, s)
		return e.okOrErr(st, ok, []Value{v}, []Value{c.App("atoi.err", SBV64, s)}), true
	case "strconv.ParseInt", "strconv.ParseUint":
		e.model(key)
		ts := []*Term{args[0].(*Term), args[1].(*Term), args[2].(*Term)}
		nm := strings.ToLower(key[len("strconv."):])
		ok := c.App(nm+".ok", SBool, ts...)
		v := c.App(nm+".val", SBV64, ts...)
		if !v.open && ts[2].op == "bv" && ts[2].val > 0 && ts[2].val < 64 {
			w := uint(ts[2].val)
			if nm == "parseint" {
				c.addFact(v, c.And(c.Sle(b64(-(uint64(1)<<(w-1))), v), c.Sle(v, b64(uint64(1)<<(w-1)-1))))
			} else {
				c.addFact(v, c.Ult(v, b64(uint64(1)<<w)))
			}
		}
		return e.okOrErr(st, ok, []Value{v}, []Value{v}), true
	case "strconv.ParseFloat":
		e.model(key)
		ts := []*Term{args[0].(*Term), args[1].(*Term)}
		ok := c.App("parsefloat.ok", SBool, ts...)
		v := c.App("parsefloat.val", SBV64, ts...)
		return e.okOrErr(st, ok, []Value{v}, []Value{v}), true
	case "strings.Trim", "strings.ToLower", "strings.ReplaceAll", "strings.TrimLeft", "strings.TrimRight":
		e.model(key)
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		return one(st, c.App(strings.ToLower(key), SStr, ts...)), true
	case "strings.Split":
		e.model(key)
		s, sep := args[0].(*Term), args[1].(*Term)
		n := c.App("split.n", SBV64, s, sep)
		if !n.open {
			c.addFact(n, c.And(c.Ult(b64(0), n), c.Ule(n, c.BVAdd(c.SLen(s), b64(1)))))
		}
		arr := e.alloc()
		e.fillFn(st, types.Typ[types.String], arr, b64(0), n, func(i *Term) *Term { return c.App("split.at", SStr, s, sep, i) })
		return one(st, &SliceV{arr, b64(0), n, n}), true
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits":
		return one(st, args[0]), true
	case "math.IsNaN":
		return one(st, e.isNaNBits(args[0].(*Term))), true
	case "math.Ceil", "math.Floor":
		e.model(key)
		return one(st, e.roundFloat(args[0].(*Term), key == "math.Ceil")), true
	case "math.Log2":
		e.model(key)
		return one(st, c.App("log2", SBV64, args[0].(*Term))), true
	case "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace", "unicode.IsNumber", "unicode.IsUpper", "unicode.IsLower":
		e.model(key)
		r := args[0].(*Term)
		p := c.App(key, SBool, r)
		if !p.open {
			rng := func(a, b uint64) *Term { return c.And(c.Ule(c.BVc(32, a), r), c.Ule(r, c.BVc(32, b))) }
			var ascii *Term
			switch key {
			case "unicode.IsDigit", "unicode.IsNumber":
				ascii = rng('0', '9')
			case "unicode.IsLetter":
				ascii = c.Or(rng('a', 'z'), rng('A', 'Z'))
			case "unicode.IsUpper":
				ascii = rng('A', 'Z')
			case "unicode.IsLower":
				ascii = rng('a', 'z')
			case "unicode.IsSpace":
				ascii = c.Or(rng(9, 13), c.Eq(r, c.BVc(32, ' ')))
			}
			c.addFact(p, c.Imp(c.Ult(r, c.BVc(32, 0x80)), c.Eq(p, ascii)))
		}
		return one(st, p), true
	case "unicode/utf8.DecodeRuneInString":
		e.model(key)
		s := args[0].(*Term)
		empty := c.Eq(c.SLen(s), b64(0))
		r, n := e.decodeRuneBase(s)
		return one(st, c.Ite(empty, c.BVc(32, 0xfffd), r), c.Ite(empty, b64(0), n)), true
	case "unicode/utf8.ValidString":
		e.model(key)
		return one(st, c.App("utf8.valid", SBool, args[0].(*Term))), true
	case "unicode/utf8.RuneLen":
		r := args[0].(*Term)
		ok := e.validRune(r)
		return one(st, c.Ite(ok, e.runeLen(r), b64(^uint64(0)))), true
	case "unicode/utf8.ValidRune":
		return one(st, e.validRune(args[0].(*Term))), true
	case "unicode/utf8.RuneCountInString":
		e.model(key)
		s := args[0].(*Term)
		rn := c.App("runeCount", SBV64, s)
		if !rn.open {
			c.addFact(rn, c.Ule(rn, c.SLen(s)))
		}
		return one(st, rn), true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len":
		e.model(key)
		b := args[0].(*Term)
		bt := under(fn.Params[0].Type()).(*types.Pointer).Elem()
		buf := e.load(st, e.fieldAddr(b, bt, 0), types.NewSlice(types.Typ[types.Byte])).(*SliceV)
		off := e.load(st, e.fieldAddr(b, bt, 1), types.Typ[types.Int]).(*Term)
		st.assume(c.Ule(off, buf.len))
		nn := c.Not(c.Eq(b, c.Nil()))
		var outs []Outcome
		if !e.valid(st, nn) {
			s2 := st.clone()
			s2.branch(c.Not(nn))
			outs = append(outs, Outcome{st: s2, panicked: true, pv: e.runtimePanic("nil buffer")})
			st.branch(nn)
			if !e.feasible(st, c.True()) {
				return outs, true
			}
		}
		ln := c.BVSub(buf.len, off)
		if key == "(*bytes.Buffer).Len" {
			return append(outs, Outcome{st: st, vals: []Value{ln}}), true
		}
		return append(outs, Outcome{st: st, vals: []Value{&SliceV{buf.arr, c.BVAdd(buf.off, off), ln, c.BVSub(buf.cap, off)}}}), true
	case "(*golang.org/x/text/encoding/charmap.Charmap).EncodeRune":
		e.model(key + " (as ISO 8859-1)")
		r := args[1].(*Term)
		in := c.Ult(r, c.BVc(32, 0x100))
		return one(st, c.Ite(in, c.Extract(7, 0, r), c.BVc(8, 0x1a)), in), true
	case "io.init", "fmt.init", "errors.init":
		return one(st), true
	case "maps.Clone":
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		return one(st, e.cloneMap(st, args[0].(*Term), mt)), true
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && !e.p.isRepo(fn) {
		return one(st), true
	}
	return nil, false
}

func (e *Exec) cloneMap(st *State, m *Term, mt *types.Map) *Term {
	c := e.c
	o := e.alloc()
	n := e.mapLen(st, m)
	e.writeLeaf(st, mapLenKey, o, n)
	cp := func(key string, tags []int64, s Sort, t types.Type) {
		old := e.chain(st, key)
		lp := leafPath{tags: tags}
		e.layerID++
		st.heap[key] = &Layer{kind: lCopy, below: old, id: e.layerID,
			pred: func(a *Term) *Term {
				cond, b, _ := e.matchMe(a, tags)
				if cond.isFalse() {
					return cond
				}
				return c.And(cond, e.addrEq(b, o))
			},
			src: func(a *Term) *Term {
				_, _, k := e.matchMe(a, tags)
				v := e.readLeaf(old, lp.at(e, c.Me(m, k)), s, t)
				if key == mapHasKey {
					return c.And(c.Not(c.Eq(m, c.Nil())), v)
				}
				return v
			}}
	}
	cp(mapHasKey, nil, SBool, nil)
	for _, lp := range e.leaves(mt.Elem()) {
		cp(lp.key, lp.tags, lp.sort, lp.typ)
	}
	return o
}

func (e *Exec) validRune(r *Term) *Term {
	c := e.c
	return c.Or(c.Ult(r, c.BVc(32, 0xd800)), c.And(c.Ult(c.BVc(32, 0xdfff), r), c.Ule(r, c.BVc(32, 0x10ffff))))
}

// decodeRuneBase decodes the first rune of s, expressed on the underlying
// string when s is a suffix of it.
func (e *Exec) decodeRuneBase(s *Term) (*Term, *Term) {
	c := e.c
	if s.op == "ssub" && s.args[2] == c.SLen(s.args[0]) {
		return e.decodeRune(s.args[0], s.args[1])
	}
	return e.decodeRune(s, c.BVc(64, 0))
}

func (e *Exec) okOrErr(st *State, ok *Term, vals, bad []Value) []Outcome {
	c := e.c
	var outs []Outcome
	if e.feasible(st, ok) {
		s2 := st.clone()
		s2.branch(ok)
		outs = append(outs, Outcome{st: s2, vals: append(append([]Value{}, vals...), c.NilAny())})
	}
	if e.feasible(st, c.Not(ok)) {
		s2 := st.clone()
		s2.branch(c.Not(ok))
		outs = append(outs, Outcome{st: s2, vals: append(append([]Value{}, bad...), e.newError())})
	}
	return outs
}

func (e *Exec) errIs(err, target *Term, d int) *Term {
	c := e.c
	if err.op == "ite" {
		return c.Ite(err.args[0], e.errIs(err.args[1], target, d), e.errIs(err.args[2], target, d))
	}
	eq := c.Eq(err, target)
	if eq.isTrue() {
		return eq
	}
	if err.op == "mkany" && err.args[0].op == "int" {
		if err.args[0].val == 0 {
			return c.Eq(target, c.NilAny())
		}
		r := eq
		if ws, ok := e.wraps[err.args[2]]; ok && d < 8 {
			for _, w := range ws {
				r = c.Or(r, e.errIs(w, target, d+1))
			}
			return r
		}
		if err.args[2].op == "obj" {
			return r
		}
	}
	u := c.App("errIs", SBool, err, target)
	if !u.open {
		c.addFact(u, c.Imp(c.Eq(c.ATag(err), c.Intc(0)), c.Not(u)))
		c.addFact(u, c.Imp(eq, u))
		for _, g := range e.errVals {
			if g != target {
				// plain values, they wrap nothing
				c.addFact(u, c.Imp(c.Eq(err, g), c.Eq(u, c.Eq(g, target))))
			}
		}
	}
	return u
}

// invokeModel models interface methods of types outside the module.
func (e *Exec) invokeModel(name string, recv *Term, args []Value, st *State, m *types.Func) ([]Outcome, bool) {
	c := e.c
	if strings.HasSuffix(name, ".Error") && m.Type().(*types.Signature).Params().Len() == 0 {
		// message texts are not modelled
		if name == "error.Error" || name == typeStr(e.p.errType)+".Error" || name == typeStr(e.p.rtErrType)+".Error" {
			return one(st, c.App("errmsg", SStr, recv)), true
		}
	}
	return nil, false
}

// ---- floating point

func (e *Exec) isNaNBits(b *Term) *Term {
	c := e.c
	if b.sort == SBV32 {
		return c.Ult(c.BVc(32, 0x7f800000), c.BVAnd(b, c.BVc(32, 0x7fffffff)))
	}
	return c.Ult(c.BVc(64, 0x7ff0000000000000), c.BVAnd(b, c.BVc(64, 0x7fffffffffffffff)))
}

// Exact small rationals n/2^k carried symbolically: op "dy", val k, arg n (BV64,
// signed, |n| <= 2^52).
func (e *Exec) dyOf(t *Term) (*Term, uint64, bool) {
	if t.op == "app" && strings.HasPrefix(t.name, "dy.") {
		k, _ := strconv.Atoi(t.name[3:])
		return t.args[0], uint64(k), true
	}
	if t.op == "bv" && t.sort == SBV64 {
		f := math.Float64frombits(t.val)
		if f == math.Trunc(f) && math.Abs(f) < 1<<52 {
			return e.c.BVc(64, uint64(int64(f))), 0, true
		}
	}
	return nil, 0, false
}

func (e *Exec) dy(k uint64, n *Term) *Term {
	return e.c.App(fmt.Sprintf("dy.%d", k), SBV64, n)
}

func isApp(t *Term, name string) bool { return t.op == "app" && t.name == name }

func (e *Exec) intToFloat(st *State, x *Term, signed bool, to types.Type) *Term {
	c := e.c
	s, _ := scalarSort(to)
	if x.op == "bv" {
		var f float64
		if signed {
			f = float64(x.sval())
		} else {
			f = float64(x.val)
		}
		if s == SBV32 {
			return c.BVc(32, uint64(math.Float32bits(float32(f))))
		}
		return c.BVc(64, math.Float64bits(f))
	}
	if s == SBV64 {
		w := c.Conv(x, signed, 64)
		lim := c.BVc(64, 1<<52)
		if e.valid(st, c.And(c.Sle(c.BVNeg(lim), w), c.Sle(w, lim))) {
			return e.dy(0, w)
		}
	}
	op := "fp.of.ubv"
	if signed {
		op = "fp.of.sbv"
	}
	return c.FPBits(c.FPOp(op, fpSort(s.width()), x))
}

func (e *Exec) floatToInt(f *Term, signed bool, to types.Type) Value {
	c := e.c
	s, _ := scalarSort(to)
	if n, k, ok := e.dyOf(f); ok {
		// truncation towards zero
		v := n
		if k > 0 {
			adj := c.Ite(c.Slt(n, c.BVc(64, 0)), c.BVAdd(n, c.BVc(64, (1<<k)-1)), n)
			v = c.BVAshr(adj, c.BVc(64, k))
		}
		return c.Conv(v, true, s.width())
	}
	if f.op == "bv" && f.sort == SBV64 {
		return c.BVc(s.width(), uint64(int64(math.Float64frombits(f.val))))
	}
	if f.op == "ite" {
		return c.iteValue(f.args[0], e.floatToInt(f.args[1], signed, to), e.floatToInt(f.args[2], signed, to))
	}
	op := "fp.to_ubv"
	if signed {
		op = "fp.to_sbv"
	}
	e.note("float to integer conversion out of range is unspecified")
	return c.FPOp(op, s, e.fp(f))
}

func (e *Exec) roundFloat(f *Term, ceil bool) *Term {
	c := e.c
	if n, k, ok := e.dyOf(f); ok {
		if k == 0 {
			return f
		}
		if ceil {
			n = c.BVAdd(n, c.BVc(64, (1<<k)-1))
		}
		return e.dy(0, c.BVAshr(n, c.BVc(64, k)))
	}
	if isApp(f, "log2div") && ceil {
		// ceil(log2(n)/8) by thresholds
		n := f.args[0]
		r := c.App("log2.big", SBV64, n)
		if !r.open {
			c.addFact(r, c.And(c.Ule(c.BVc(64, 5), r), c.Ule(r, c.BVc(64, 8))))
		}
		v := c.Ite(c.Sle(n, c.BVc(64, 1)), c.BVc(64, 0), c.Ite(c.Sle(n, c.BVc(64, 1<<8)), c.BVc(64, 1), c.Ite(c.Sle(n, c.BVc(64, 1<<16)), c.BVc(64, 2), c.Ite(c.Sle(n, c.BVc(64, 1<<24)), c.BVc(64, 3), c.Ite(c.Sle(n, c.BVc(64, 1<<32)), c.BVc(64, 4), r)))))
		return c.Ite(c.Sle(n, c.BVc(64, 0)), c.BVc(64, math.Float64bits(math.Inf(-1))), e.dy(0, v))
	}
	if f.op == "ite" {
		return c.Ite(f.args[0], e.roundFloat(f.args[1], ceil), e.roundFloat(f.args[2], ceil))
	}
	op := "fp.floor"
	if ceil {
		op = "fp.ceil"
	}
	return c.FPBits(c.FPOp(op, fpSort(f.sort.width()), e.fp(f)))
}

func (e *Exec) floatOp(fr *Frame, st *State, x *ssa.BinOp, a, b *Term) []exit {
	c := e.c
	na, ka, oka := e.dyOf(a)
	nb, kb, okb := e.dyOf(b)
	if isApp(a, "log2") && okb && x.Op == token.QUO && nb.op == "bv" && nb.val == 8 && kb == 0 {
		if n, k, ok := e.dyOf(a.args[0]); ok && k == 0 {
			fr.env[x] = c.App("log2div", SBV64, n)
			return nil
		}
	}
	if oka && okb {
		switch x.Op {
		case token.QUO:
			if nb.op == "bv" && kb == 0 && nb.val != 0 && nb.val&(nb.val-1) == 0 && ka == 0 {
				sh := uint64(0)
				for v := nb.val; v > 1; v >>= 1 {
					sh++
				}
				fr.env[x] = e.dy(sh, na)
				return nil
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if ka == 0 && kb == 0 {
				l, r := na, nb
				if x.Op == token.GTR || x.Op == token.LEQ {
					l, r = nb, na
				}
				v := c.Slt(l, r)
				if x.Op == token.LEQ || x.Op == token.GEQ {
					v = c.Not(v)
				}
				fr.env[x] = v
				return nil
			}
		}
	}
	fa, fb := e.fp(a), e.fp(b)
	switch x.Op {
	case token.ADD:
		fr.env[x] = c.FPBits(c.FPOp("fp.add", fa.sort, fa, fb))
	case token.SUB:
		fr.env[x] = c.FPBits(c.FPOp("fp.sub", fa.sort, fa, fb))
	case token.MUL:
		fr.env[x] = c.FPBits(c.FPOp("fp.mul", fa.sort, fa, fb))
	case token.QUO:
		fr.env[x] = c.FPBits(c.FPOp("fp.div", fa.sort, fa, fb))
	case token.LSS:
		fr.env[x] = c.FPOp("fp.lt", SBool, fa, fb)
	case token.GTR:
		fr.env[x] = c.FPOp("fp.gt", SBool, fa, fb)
	case token.LEQ:
		fr.env[x] = c.FPOp("fp.leq", SBool, fa, fb)
	case token.GEQ:
		fr.env[x] = c.FPOp("fp.geq", SBool, fa, fb)
	default:
		unsup("float op %s", x.Op)
	}
	return nil
}
