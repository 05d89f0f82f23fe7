package values

import (
	"errors"
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// zzSame is identity of two host values, bit for bit for floats.
func zzSame(a, b any) bool {
	switch x := a.(type) {
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case nil:
		return b == nil
	}
	return false
}

// zzHost is the host value of a core value, zzKind its kind.
func zzHost(v Value) any {
	switch x := v.(type) {
	case U32:
		return uint32(x)
	case U64:
		return uint64(x)
	case Float32:
		return float32(x)
	case Float64:
		return float64(x)
	}
	return nil
}

func zzKind(v Value) kind.Kind {
	switch v.(type) {
	case U32:
		return kind.U32
	case U64:
		return kind.U64
	case Float32:
		return kind.Float32
	case Float64:
		return kind.Float64
	}
	return kind.Kind(-1)
}

func zzIsValue(v Value) bool { return zzKind(v) >= 0 }

func gen_Value(g *vspec.Gen) Value {
	switch g.Int(4) {
	case 0:
		return U32(g.Bits(32))
	case 1:
		return U64(g.Bits(64))
	case 2:
		return Float32(math.Float32frombits(uint32(g.Bits(32))))
	}
	return Float64(math.Float64frombits(g.Bits(64)))
}

func gens_Value(g *vspec.Gen) []Value {
	var vs []Value
	for n := g.Int(6); n > 0; n-- {
		vs = append(vs, gen_Value(g))
	}
	return vs
}

func gen_Kind(g *vspec.Gen) kind.Kind { return kind.Kind(g.Int(4)) }

func gens_Kind(g *vspec.Gen) []kind.Kind {
	var ks []kind.Kind
	for n := g.Int(5); n > 0; n-- {
		ks = append(ks, gen_Kind(g))
	}
	return ks
}

//verif:loop lemma_Iterate
func loop_Iterate(it ValueIterator, i int) bool { return it.Index() == i && i >= 0 }

//verif:lemma
//verif:props C14
func lemma_Iterate(vs []Value, n int, k kind.Kind) {
	vspec.Requires(0 <= n && n <= len(vs))
	vspec.Requires(vspec.Forall(0, len(vs), func(i int) bool { return zzIsValue(vs[i]) }))
	it := NewIterator(vs...)
	vspec.Ensures("starts at the first value", it.Index() == 0)
	vspec.Ensures("length", it.Length() == len(vs))
	for i := 0; i < n; i++ {
		v, err := it.Next(zzKind(vs[i]))
		vspec.Ensures("a value of the requested kind is delivered", err == nil && zzSame(v, zzHost(vs[i])))
	}
	vspec.Ensures("one value per request", it.Index() == n && it.Length() == len(vs))
	v, err := it.Next(k)
	switch {
	case n == len(vs):
		vspec.Ensures("reading past the end is an error", err != nil)
		_, err = it.Next(k)
		vspec.Ensures("and stays one", err != nil)
	case zzKind(vs[n]) != k:
		vspec.Ensures("another kind is an error", err != nil)
	default:
		vspec.Ensures("the next value", err == nil && zzSame(v, zzHost(vs[n])) && it.Index() == n+1)
	}
}

//verif:lemma
//verif:props C14
func lemma_Values(v Value) {
	vspec.Requires(zzIsValue(v))
	vspec.Ensures("kind", v.Kind() == zzKind(v))
	vspec.Ensures("host value", zzSame(v.Value(), zzHost(v)))
	z, err := Zero(v.Kind())
	vspec.Ensures("zero has the kind", err == nil && zzKind(z) == zzKind(v))
	switch x := z.(type) {
	case U32:
		vspec.Ensures("zero", x == 0)
	case U64:
		vspec.Ensures("zero", x == 0)
	case Float32:
		vspec.Ensures("zero", math.Float32bits(float32(x)) == 0)
	case Float64:
		vspec.Ensures("zero", math.Float64bits(float64(x)) == 0)
	}
}

// zzOne is an arbitrary iterator: it answers one request.
type zzOne struct {
	asked int
	kind  kind.Kind
	x     any
	err   error
}

func (o *zzOne) Next(k kind.Kind) (any, error) {
	o.asked++
	o.kind = k
	return o.x, o.err
}

func (o *zzOne) Index() int  { return 3 }
func (o *zzOne) Length() int { return 7 }

// spCoerce is the reinterpretation of a core value for a request.
func spCoerce(have, want kind.Kind, x any) (any, bool) {
	if have == want {
		return x, true
	}
	if have == kind.U32 && want == kind.Float32 {
		return math.Float32frombits(x.(uint32)), true
	}
	if have == kind.U64 {
		w := x.(uint64)
		switch want {
		case kind.U32:
			return uint32(w), true
		case kind.Float32:
			return math.Float32frombits(uint32(w)), true
		case kind.Float64:
			return math.Float64frombits(w), true
		}
	}
	return nil, false
}

//verif:lemma
//verif:props C14 C07
func lemma_Coerce(v Value, flat []kind.Kind, want kind.Kind, fail bool) {
	vspec.Requires(zzIsValue(v) && 0 <= want && want <= kind.Float64)
	inner := &zzOne{x: zzHost(v)}
	if fail {
		inner.err = errors.New("inner failure")
	}
	if len(flat) > 0 {
		vspec.Requires(zzKind(v) == flat[0])
	}
	it := NewCoerceValueIterator(inner, flat)
	x, err := it.Next(want)
	if len(flat) == 0 {
		vspec.Ensures("no declared kind left is an error", err != nil && inner.asked == 0)
		return
	}
	vspec.Ensures("one core value of the declared kind is consumed", inner.asked == 1 && inner.kind == flat[0])
	rest := it.FlatTypes()
	vspec.Ensures("one declared kind is consumed", len(rest) == len(flat)-1)
	vspec.Ensures("the rest is in order", vspec.Forall(0, len(rest), func(i int) bool { return rest[i] == flat[i+1] }))
	if fail {
		vspec.Ensures("an inner error is reported", err != nil)
		return
	}
	y, ok := spCoerce(flat[0], want, zzHost(v))
	vspec.Ensures("allowed reinterpretations only", (err == nil) == ok)
	vspec.Ensures("bits are kept", vspec.Imp(ok, zzSame(x, y)))
	vspec.Ensures("the underlying iterator is kept", it.ValueIterator() == ValueIterator(inner) && it.Index() == 3 && it.Length() == 7)
}
