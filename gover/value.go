package main

// Go types, their leaf decomposition, and symbolic values.

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

type Value interface{}

type SliceV struct{ arr, off, len, cap *Term }
type AggV struct{ elems []Value } // struct, array, tuple
type IterV struct {
	isMap bool
	m     *Term      // map ref
	mt    *types.Map // map type
	s     *Term      // string
	cell  *Term      // address of the position counter cell
	seq   string
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// typeStr names a type; byte and rune are the types they stand for.
func typeStr(t types.Type) string {
	s := types.TypeString(types.Unalias(t), nil)
	if strings.Contains(s, "byte") {
		s = byteWord.ReplaceAllString(s, "${1}uint8${2}")
	}
	if strings.Contains(s, "rune") {
		s = runeWord.ReplaceAllString(s, "${1}int32${2}")
	}
	return s
}

var (
	byteWord = regexp.MustCompile(`(^|[^\w./])byte($|[^\w./])`)
	runeWord = regexp.MustCompile(`(^|[^\w./])rune($|[^\w./])`)
)

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func basicSort(b *types.Basic) Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int8, types.Uint8:
		return SBV8
	case types.Int16, types.Uint16:
		return SBV16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return SBV32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return SBV64
	case types.String, types.UntypedString:
		return SStr
	case types.UnsafePointer, types.UntypedNil:
		return SRef
	}
	unsup("basic type %s", b)
	return ""
}

func scalarSort(t types.Type) (Sort, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		return basicSort(u), true
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SRef, true
	case *types.Interface:
		return SAny, true
	}
	return "", false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

func (c *Ctx) zeroTerm(s Sort) *Term {
	switch s {
	case SBool:
		return c.False()
	case SStr:
		return c.EmptyStr()
	case SRef:
		return c.Nil()
	case SAny:
		return c.NilAny()
	case SInt:
		return c.Intc(0)
	}
	return c.BVc(s.width(), 0)
}

func (c *Ctx) zeroValue(t types.Type) Value {
	if s, ok := scalarSort(t); ok {
		return c.zeroTerm(s)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return &SliceV{c.Nil(), c.BVc(64, 0), c.BVc(64, 0), c.BVc(64, 0)}
	case *types.Struct:
		a := &AggV{}
		for i := 0; i < u.NumFields(); i++ {
			a.elems = append(a.elems, c.zeroValue(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		if u.Len() > 4096 {
			unsup("large array value %s", t)
		}
		a := &AggV{}
		z := c.zeroValue(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a.elems = append(a.elems, z)
		}
		return a
	case *types.Tuple:
		a := &AggV{}
		for i := 0; i < u.Len(); i++ {
			a.elems = append(a.elems, c.zeroValue(u.At(i).Type()))
		}
		return a
	}
	unsup("zero of %s", t)
	return nil
}

// flat lists the scalar terms of a value.
func flat(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *AggV:
		var out []*Term
		for _, e := range x.elems {
			out = append(out, flat(e)...)
		}
		return out
	}
	unsup("flat of %T", v)
	return nil
}

// unflat rebuilds a value of the same shape as like from terms.
func unflat(like Value, ts []*Term) (Value, []*Term) {
	switch x := like.(type) {
	case *Term:
		return ts[0], ts[1:]
	case *SliceV:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *AggV:
		a := &AggV{}
		for _, e := range x.elems {
			var v Value
			v, ts = unflat(e, ts)
			a.elems = append(a.elems, v)
		}
		return a, ts
	}
	unsup("unflat of %T", like)
	return nil, nil
}

func sameShape(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.sort == y.sort
	case *SliceV:
		_, ok := b.(*SliceV)
		return ok
	case *AggV:
		y, ok := b.(*AggV)
		if !ok || len(x.elems) != len(y.elems) {
			return false
		}
		for i := range x.elems {
			if !sameShape(x.elems[i], y.elems[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *Ctx) iteValue(cond *Term, a, b Value) Value {
	if a == b {
		return a
	}
	fa, fb := flat(a), flat(b)
	out := make([]*Term, len(fa))
	for i := range fa {
		out[i] = c.Ite(cond, fa[i], fb[i])
	}
	v, _ := unflat(a, out)
	return v
}

func (c *Ctx) eqValue(a, b Value) *Term {
	fa, fb := flat(a), flat(b)
	r := c.True()
	for i := range fa {
		r = c.And(r, c.Eq(fa[i], fb[i]))
	}
	return r
}

// ---- registries shared by all workers

type Registry struct {
	tags     map[string]int64
	tagTypes []types.Type // index tag
	ftags    map[string]int64
	fkeys    []string // field tag -> key "pkg.T.f"
	fowner   []string
}

func newRegistry() *Registry {
	return &Registry{tags: map[string]int64{}, tagTypes: []types.Type{nil}, ftags: map[string]int64{}, fkeys: []string{""}, fowner: []string{""}}
}

func (r *Registry) tag(t types.Type) int64 {
	t = types.Unalias(t)
	k := typeStr(t)
	if id, ok := r.tags[k]; ok {
		return id
	}
	id := int64(len(r.tagTypes))
	r.tags[k] = id
	r.tagTypes = append(r.tagTypes, t)
	return id
}

func (r *Registry) ftag(st types.Type, i int) int64 {
	k := typeStr(st) + "." + strconv.Itoa(i)
	if id, ok := r.ftags[k]; ok {
		return id
	}
	id := int64(len(r.fkeys))
	r.ftags[k] = id
	s := under(st).(*types.Struct)
	r.fkeys = append(r.fkeys, "F:"+typeStr(st)+"."+s.Field(i).Name())
	r.fowner = append(r.fowner, typeStr(st))
	return id
}

func (r *Registry) keyFor(addr *Term, t types.Type) string {
	if addr.op == "sub" {
		return r.fkeys[addr.val]
	}
	if addr.op == "app" && strings.HasPrefix(addr.name, "ghostaddr") {
		return "G:" + addr.name
	}
	return "C:" + typeStr(t)
}
