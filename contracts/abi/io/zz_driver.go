package io

import (
	"bytes"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// A reference reading of the canonical ABI, used by the bounded drivers.

// zzFlat lists the core kinds of t.
func zzFlat(t types.ValType) []kind.Kind {
	n := zzKids(t)
	switch zzClass(t) {
	case zzS1, zzS2, zzS4:
		return []kind.Kind{kind.U32}
	case zzS8:
		return []kind.Kind{kind.U64}
	case zzF4:
		return []kind.Kind{kind.Float32}
	case zzF8:
		return []kind.Kind{kind.Float64}
	case zzPair:
		return []kind.Kind{kind.U32, kind.U32}
	case zzRec:
		var ks []kind.Kind
		for i := 0; i < n; i++ {
			ks = append(ks, zzFlat(zzKid(t, i))...)
		}
		return ks
	case zzVar:
		ks := []kind.Kind{kind.U32}
		for i := 0; i < n; i++ {
			if zzKid(t, i) == nil {
				continue
			}
			for j, k := range zzFlat(zzKid(t, i)) {
				if j+1 < len(ks) {
					ks[j+1] = zzJoin(ks[j+1], k)
				} else {
					ks = append(ks, k)
				}
			}
		}
		return ks
	case zzFlag:
		var ks []kind.Kind
		for i := 0; i < (n+31)/32; i++ {
			ks = append(ks, kind.U32)
		}
		return ks
	}
	return nil
}

// zzJoin is the narrowest core kind that holds both.
func zzJoin(a, b kind.Kind) kind.Kind {
	if a == b {
		return a
	}
	if (a == kind.U32 || a == kind.Float32) && (b == kind.U32 || b == kind.Float32) {
		return kind.U32
	}
	return kind.U64
}

// zzLabel is the label of field, case or flag i.
func zzLabel(t types.ValType, i int) string {
	switch vt := t.(type) {
	case types.Record:
		return vt.Fields()[i].Label
	case types.Variant:
		return vt.Cases()[i].Label
	case types.Enum:
		return vt.Labels()[i]
	case types.Flags:
		return vt.Labels()[i]
	case types.Option:
		return []string{"none", "some"}[i]
	case types.Result:
		return []string{"ok", "error"}[i]
	}
	return strconv.Itoa(i)
}

// zzEnv is a guest memory with its allocator.
type zzEnv struct {
	cx     *types.CallContext
	grants [][2]uint64
	calls  int
	evil   bool
}

func zzNewEnv(g *vspec.Gen, size int, evil bool) *zzEnv {
	e := &zzEnv{evil: evil}
	mem := &bytes.Buffer{}
	for i := 0; i < size; i++ {
		b := byte(g.Next())
		if g.Chance(1, 2) {
			b = byte(g.Int(4)) * 8
		}
		if g.Chance(1, 3) {
			b = 0
		}
		mem.WriteByte(b)
	}
	next := uint32(size)
	enc := []encoding.Encoding{encoding.UTF8, encoding.UTF16, encoding.Latin1Utf16}[g.Int(3)]
	inst := &types.ComponentInstance{MayEnter: true, MayLeave: true}
	opts := &types.CanonicalOptions{Memory: mem, StringEncoding: enc}
	opts.Realloc = func(_, _, align, n uint32) (uint32, error) {
		e.calls++
		if e.evil && g.Chance(1, 3) {
			if g.Chance(1, 3) {
				return 0, types.TrapWith("no memory")
			}
			p := uint32(g.Bits(32))
			if g.Bool() {
				p = uint32(g.Int(mem.Len() + 8))
			}
			if align != 0 && p%align == 0 && uint64(p)+uint64(n) <= uint64(mem.Len()) {
				e.grants = append(e.grants, [2]uint64{uint64(p), uint64(p) + uint64(n)})
			}
			return p, nil
		}
		if align == 0 {
			align = 1
		}
		p := (next + align - 1) / align * align
		next = p + n
		for mem.Len() < int(next) {
			mem.WriteByte(0xa5)
		}
		e.grants = append(e.grants, [2]uint64{uint64(p), uint64(p) + uint64(n)})
		return p, nil
	}
	e.cx = &types.CallContext{Options: opts, Instance: inst}
	return e
}

func (e *zzEnv) mem() []byte { return e.cx.Options.Memory.Bytes() }

func (e *zzEnv) snapshot() []byte { return append([]byte(nil), e.mem()...) }

// untouched: no byte of the earlier memory changed outside [lo,hi) and the
// granted ranges.
func (e *zzEnv) untouched(old []byte, lo, hi uint64) bool {
	now := e.mem()
	for i := range old {
		if old[i] == now[i] {
			continue
		}
		a := uint64(i)
		ok := lo <= a && a < hi
		for _, r := range e.grants {
			ok = ok || r[0] <= a && a < r[1]
		}
		if !ok {
			return false
		}
	}
	return true
}

func zzWord(mem []byte, ptr uint64, n uint64) (uint64, bool) {
	if ptr+n > uint64(len(mem)) {
		return 0, false
	}
	var v uint64
	for i := uint64(0); i < n; i++ {
		v |= uint64(mem[ptr+i]) << (8 * i)
	}
	return v, true
}

// zzScalar is the host value of a scalar with the given bits.
func zzScalar(t types.ValType, w uint64) (any, bool) {
	switch t.(type) {
	case types.Bool:
		return uint32(w) != 0, true
	case types.U8:
		return uint8(w), true
	case types.U16:
		return uint16(w), true
	case types.U32:
		return uint32(w), true
	case types.U64:
		return w, true
	case types.S8:
		return int8(w), true
	case types.S16:
		return int16(w), true
	case types.S32:
		return int32(w), true
	case types.S64:
		return int64(w), true
	case types.F32:
		return math.Float32frombits(uint32(w)), true
	case types.F64:
		return math.Float64frombits(w), true
	case types.Char:
		u := uint32(w)
		return rune(u), u < 0xd800 || u > 0xdfff && u < 0x110000
	}
	return nil, false
}

// zzOdd marks host values the reference does not determine.
type zzOdd struct{}

// zzString reads a string of a guest.
func zzString(enc encoding.Encoding, mem []byte, ptr, tagged uint64) (any, bool) {
	units := tagged &^ (1 << 31)
	size := uint64(1)
	wide := enc == encoding.UTF16 || enc == encoding.Latin1Utf16 && tagged>>31 != 0
	if wide {
		size = 2
	}
	if enc != encoding.UTF8 && ptr%2 != 0 {
		return nil, false
	}
	if ptr+units*size > uint64(len(mem)) {
		return nil, false
	}
	b := mem[ptr : ptr+units*size]
	switch {
	case wide:
		var us []uint16
		for i := 0; i+1 < len(b); i += 2 {
			us = append(us, uint16(b[i])|uint16(b[i+1])<<8)
		}
		rs := utf16.Decode(us)
		for _, r := range rs {
			if r == utf8.RuneError {
				return zzOdd{}, true
			}
		}
		return string(rs), true
	case enc == encoding.UTF8:
		if !utf8.Valid(b) {
			return zzOdd{}, true
		}
		return string(b), true
	}
	var sb strings.Builder
	for _, c := range b {
		sb.WriteRune(rune(c))
	}
	return sb.String(), true
}

func zzArray(enc encoding.Encoding, mem []byte, ptr, n uint64, t types.ValType) (any, bool) {
	z, a := spSize(t), spAlign(t)
	if a == 0 || z >= zzTop || ptr%uint64(a) != 0 || ptr+n*z > uint64(len(mem)) {
		return nil, false
	}
	l := []any{}
	for i := uint64(0); i < n; i++ {
		v, ok := zzLoad(enc, mem, t, ptr+i*z)
		if !ok {
			return nil, false
		}
		l = append(l, v)
	}
	return l, true
}

// zzLoad reads a value of type t at ptr.
func zzLoad(enc encoding.Encoding, mem []byte, t types.ValType, ptr uint64) (any, bool) {
	n := zzKids(t)
	switch zzClass(t) {
	case zzPair:
		p, ok := zzWord(mem, ptr, 4)
		if !ok {
			return nil, false
		}
		c, ok := zzWord(mem, ptr+4, 4)
		if !ok {
			return nil, false
		}
		if lt, ok := t.(types.List); ok {
			return zzArray(enc, mem, p, c, lt.Type())
		}
		return zzString(enc, mem, p, c)
	case zzRec:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			k := zzKid(t, i)
			ptr = spUp(ptr, spAlign(k))
			v, ok := zzLoad(enc, mem, k, ptr)
			if !ok {
				return nil, false
			}
			m[zzLabel(t, i)] = v
			ptr += spSize(k)
		}
		return m, true
	case zzVar:
		d := uint64(spDisc(n))
		i, ok := zzWord(mem, ptr, d)
		if !ok || i >= uint64(n) {
			return nil, false
		}
		k := zzKid(t, int(i))
		if k == nil {
			return map[string]any{zzLabel(t, int(i)): nil}, true
		}
		v, ok := zzLoad(enc, mem, k, ptr+spUp(d, spMaxAlign(t, 0, 1)))
		return map[string]any{zzLabel(t, int(i)): v}, ok
	case zzFlag:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			at := ptr + uint64(i/8)
			if at >= uint64(len(mem)) {
				return nil, false
			}
			m[zzLabel(t, i)] = mem[at]>>(i%8)&1 == 1
		}
		return m, n == 0 || ptr+spSize(t) <= uint64(len(mem))
	}
	w, ok := zzWord(mem, ptr, spSize(t))
	if !ok {
		return nil, false
	}
	return zzScalar(t, w)
}

// zzLift reads a value of type t from the bits of its core values.
func zzLift(enc encoding.Encoding, mem []byte, t types.ValType, bits []uint64) (any, bool) {
	n := zzKids(t)
	switch zzClass(t) {
	case zzPair:
		p, c := bits[0]&(1<<32-1), bits[1]&(1<<32-1)
		if lt, ok := t.(types.List); ok {
			return zzArray(enc, mem, p, c, lt.Type())
		}
		return zzString(enc, mem, p, c)
	case zzRec:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			k := zzKid(t, i)
			v, ok := zzLift(enc, mem, k, bits)
			if !ok {
				return nil, false
			}
			m[zzLabel(t, i)] = v
			bits = bits[len(zzFlat(k)):]
		}
		return m, true
	case zzVar:
		i := bits[0] & (1<<32 - 1)
		if i >= uint64(n) {
			return nil, false
		}
		k := zzKid(t, int(i))
		if k == nil {
			return map[string]any{zzLabel(t, int(i)): nil}, true
		}
		v, ok := zzLift(enc, mem, k, bits[1:])
		return map[string]any{zzLabel(t, int(i)): v}, ok
	case zzFlag:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[zzLabel(t, i)] = bits[i/32]>>(i%32)&1 == 1
		}
		return m, true
	}
	return zzScalar(t, bits[0])
}

// zzEq compares a reference value with a host value, up to NaN payloads.
func zzEq(t types.ValType, want, got any) bool {
	if _, ok := want.(zzOdd); ok {
		_, ok := got.(string)
		return ok
	}
	switch zzClass(t) {
	case zzF4:
		a, ok := want.(float32)
		b, ok2 := got.(float32)
		if a != a {
			return ok && ok2 && math.Float32bits(b) == 0x7fc00000
		}
		return ok && ok2 && math.Float32bits(a) == math.Float32bits(b)
	case zzF8:
		a, ok := want.(float64)
		b, ok2 := got.(float64)
		if a != a {
			return ok && ok2 && math.Float64bits(b) == 0x7ff8000000000000
		}
		return ok && ok2 && math.Float64bits(a) == math.Float64bits(b)
	case zzPair:
		lt, ok := t.(types.List)
		if !ok {
			return want == got
		}
		a, ok := want.([]any)
		b, ok2 := got.([]any)
		if !ok || !ok2 || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !zzEq(lt.Type(), a[i], b[i]) {
				return false
			}
		}
		return true
	case zzRec, zzFlag:
		a, ok := want.(map[string]any)
		b, ok2 := got.(map[string]any)
		if !ok || !ok2 || len(b) != zzKids(t) {
			return false
		}
		for i := 0; i < zzKids(t); i++ {
			x, ok := a[zzLabel(t, i)]
			y, ok2 := b[zzLabel(t, i)]
			if !ok || !ok2 {
				return false
			}
			if zzClass(t) == zzFlag && x != y || zzClass(t) == zzRec && !zzEq(zzKid(t, i), x, y) {
				return false
			}
		}
		return true
	case zzVar:
		i, x, ok := zzCase(t, want)
		j, y, ok2 := zzCase(t, got)
		if !ok || !ok2 || i != j {
			return false
		}
		return zzKid(t, i) == nil && y == nil || zzKid(t, i) != nil && zzEq(zzKid(t, i), x, y)
	}
	return want == got
}

// zzCase finds the case of a variant value.
func zzCase(t types.ValType, v any) (int, any, bool) {
	m, ok := v.(map[string]any)
	if !ok || len(m) != 1 {
		return 0, nil, false
	}
	for l, x := range m {
		for _, s := range strings.Split(l, "|") {
			for i := 0; i < zzKids(t); i++ {
				if zzLabel(t, i) == s {
					return i, x, true
				}
			}
		}
	}
	return 0, nil, false
}

// zzFits: v is a host value of type t.
func zzFits(t types.ValType, v any) bool {
	switch vt := t.(type) {
	case types.Bool:
		_, ok := v.(bool)
		return ok
	case types.U8:
		_, ok := v.(uint8)
		return ok
	case types.U16:
		_, ok := v.(uint16)
		return ok
	case types.U32, types.Own, types.Borrow:
		_, ok := v.(uint32)
		return ok
	case types.U64:
		_, ok := v.(uint64)
		return ok
	case types.S8:
		_, ok := v.(int8)
		return ok
	case types.S16:
		_, ok := v.(int16)
		return ok
	case types.S32:
		_, ok := v.(int32)
		return ok
	case types.S64:
		_, ok := v.(int64)
		return ok
	case types.F32:
		_, ok := v.(float32)
		return ok
	case types.F64:
		_, ok := v.(float64)
		return ok
	case types.Char:
		r, ok := v.(rune)
		return ok && (r >= 0 && r < 0xd800 || r > 0xdfff && r < 0x110000)
	case types.String:
		_, ok := v.(string)
		return ok
	case types.List:
		l, ok := v.([]any)
		for _, x := range l {
			ok = ok && zzFits(vt.Type(), x)
		}
		return ok
	}
	switch zzClass(t) {
	case zzRec:
		m, ok := v.(map[string]any)
		for i := 0; ok && i < zzKids(t); i++ {
			x, have := m[zzLabel(t, i)]
			ok = have && zzFits(zzKid(t, i), x)
		}
		return ok
	case zzFlag:
		m, ok := v.(map[string]any)
		for i := 0; ok && i < zzKids(t); i++ {
			_, ok = m[zzLabel(t, i)].(bool)
		}
		return ok
	case zzVar:
		i, x, ok := zzCase(t, v)
		return ok && (zzKid(t, i) == nil || zzFits(zzKid(t, i), x))
	}
	return false
}

// zzGenValue makes a host value of type t.
func zzGenValue(g *vspec.Gen, t types.ValType) any {
	switch vt := t.(type) {
	case types.Bool:
		return g.Bool()
	case types.Char:
		for {
			r := rune(g.Int(0x110000))
			switch g.Int(3) {
			case 0:
				r = rune(g.Int(256))
			case 1:
				r = []rune{0xd7ff, 0xe000, 0x10ffff, 0, 0x7f, 0x80, 0xffff, 0x10000}[g.Int(8)]
			}
			if r < 0xd800 || r > 0xdfff {
				return r
			}
		}
	case types.String:
		return zzGenString(g)
	case types.List:
		l := []any{}
		for n := g.Int(4); n > 0; n-- {
			l = append(l, zzGenValue(g, vt.Type()))
		}
		return l
	case types.Own, types.Borrow:
		return uint32(g.Bits(32))
	}
	n := zzKids(t)
	switch zzClass(t) {
	case zzRec:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[zzLabel(t, i)] = zzGenValue(g, zzKid(t, i))
		}
		return m
	case zzFlag:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[zzLabel(t, i)] = g.Bool()
		}
		return m
	case zzVar:
		i := g.Int(n)
		if g.Chance(1, 4) {
			i = n - 1
		}
		if zzKid(t, i) == nil {
			return map[string]any{zzLabel(t, i): nil}
		}
		return map[string]any{zzLabel(t, i): zzGenValue(g, zzKid(t, i))}
	}
	bits := g.Bits(64)
	if c := zzClass(t); g.Chance(1, 3) && (c == zzF4 || c == zzF8) {
		bits = []uint64{0x7fc00000, 0x7f800001, 0xffc00000, 0x7f800000, 0x80000000, 0x7ff0000000000001, 0xfff8000000000000, 0x7ff0000000000000, 1 << 63, 1}[g.Int(10)]
	}
	v, _ := zzScalar(t, bits)
	return v
}

func zzGenString(g *vspec.Gen) string {
	var sb strings.Builder
	kind := g.Int(4)
	for n := g.Int(6); n > 0; n-- {
		switch g.Int(kind + 1) {
		case 0:
			sb.WriteRune(rune(32 + g.Int(90)))
		case 1:
			sb.WriteRune(rune(g.Int(256)))
		case 2:
			sb.WriteRune(rune(0x100 + g.Int(0x3000)))
		default:
			sb.WriteRune(rune(0x10000 + g.Int(0x100000)))
		}
	}
	return sb.String()
}

// zzSized: no list in t has elements without size.
func zzSized(t types.ValType) bool {
	if t == nil {
		return true
	}
	if lt, ok := t.(types.List); ok {
		z := spSize(lt.Type())
		return z > 0 && z < zzTop && zzSized(lt.Type())
	}
	switch zzClass(t) {
	case zzRec, zzVar:
		for i := 0; i < zzKids(t); i++ {
			if !zzSized(zzKid(t, i)) {
				return false
			}
		}
	}
	return true
}

// zzGenSized makes a type with a layout.
func zzGenSized(g *vspec.Gen, depth int) types.ValType {
	for {
		t := zzGenType(g, g.Int(depth+1))
		if zzSized(t) && spSize(t) < 4096 {
			return t
		}
	}
}

// Values stored and read back.
//
//verif:bounded 6000
//verif:props C05 C06
func bounded_StoreLoad(seed uint64) {
	g := vspec.NewGen(seed)
	t := zzGenSized(g, 3)
	e := zzNewEnv(g, 16+g.Int(64), false)
	z, a := spSize(t), spAlign(t)
	v := zzGenValue(g, t)
	ptr, err := e.cx.Options.Realloc(0, 0, a, uint32(z))
	if err != nil {
		return
	}
	e.grants = nil
	old := e.snapshot()
	err = Store(e.cx, v, t, ptr)
	vspec.Ensures("a value of the type is stored", err == nil)
	vspec.Ensures("only the destination and granted ranges change", e.untouched(old, uint64(ptr), uint64(ptr)+z))
	ref, ok := zzLoad(e.cx.Options.StringEncoding, e.mem(), t, uint64(ptr))
	vspec.Ensures("the value sits at its canonical place", ok && zzEq(t, v, ref) || ok && zzHasNaN(v))
	got, err := Load(e.cx, t, ptr)
	vspec.Ensures("the stored value loads back", err == nil && zzEq(t, v, got))
}

// Values and destinations that must be refused.
//
//verif:bounded 8000
//verif:props C05 C06
func bounded_StoreRefuse(seed uint64) {
	g := vspec.NewGen(seed)
	t := zzGenSized(g, 2)
	e := zzNewEnv(g, g.Int(80), g.Bool())
	v := zzGenValue(g, t)
	if g.Chance(2, 3) {
		v = zzBend(g, t, v)
	}
	z, a := spSize(t), uint64(spAlign(t))
	ptr := uint64(g.Int(100))
	switch g.Int(4) {
	case 0:
		ptr = uint64(uint32(g.Bits(32)))
	case 1:
		ptr = ptr / a * a
	}
	inside := ptr%a == 0 && ptr+z <= uint64(len(e.mem()))
	old := e.snapshot()
	var err error
	panicked := vspec.Try(func() { err = Store(e.cx, v, t, uint32(ptr)) })
	vspec.Ensures("storing does not crash", panicked == "")
	vspec.Ensures("a value of another type is refused", err != nil || zzFits(t, v))
	vspec.Ensures("a destination that is misaligned or outside the memory is refused", err != nil || inside)
	vspec.Ensures("a fitting value is stored", err == nil || !inside || e.evil || !zzFits(t, v))
	lo, hi := ptr, ptr+z
	if !inside {
		lo, hi = 0, 0
	}
	vspec.Ensures("only the destination and granted ranges change", e.untouched(old, lo, hi))
}

// zzBend makes a value that may not fit its type.
func zzBend(g *vspec.Gen, t types.ValType, v any) any {
	switch g.Int(4) {
	case 0:
		return zzGenValue(g, zzGenSized(g, 1))
	case 1:
		return []any{nil, int(1), uint(1), "", rune(0xd800), rune(-1), rune(0x110000), int8(-1), uint64(1), map[string]any{}, []any{nil}, true, float32(1), float64(1)}[g.Int(14)]
	}
	switch x := v.(type) {
	case []any:
		if len(x) > 0 {
			i := g.Int(len(x))
			x[i] = zzBend(g, t, x[i])
		}
		return x
	case map[string]any:
		if len(x) > 0 {
			n := zzKids(t)
			if n == 0 {
				return x
			}
			l := zzLabel(t, g.Int(n))
			if y, ok := x[l]; ok {
				if g.Chance(1, 4) {
					delete(x, l)
				} else {
					x[l] = zzBend(g, t, y)
				}
			} else {
				x[l] = nil
			}
		}
		return x
	}
	return v
}

// Loading whatever a guest left in memory.
//
//verif:bounded 12000
//verif:props C05 C06 C09
func bounded_LoadGuest(seed uint64) {
	g := vspec.NewGen(seed)
	t := zzGenSized(g, 2)
	if g.Chance(1, 4) {
		t = types.NewString()
	}
	e := zzNewEnv(g, g.Int(96), false)
	ptr := uint64(g.Int(100))
	if g.Chance(1, 8) {
		ptr = uint64(uint32(g.Bits(32)))
	}
	if g.Chance(3, 4) {
		ptr = ptr / 8 * 8
	}
	old := e.snapshot()
	var got any
	var err error
	panicked := vspec.Try(func() { got, err = Load(e.cx, t, uint32(ptr)) })
	vspec.Ensures("loading does not crash", panicked == "")
	vspec.Ensures("loading changes nothing", bytes.Equal(old, e.mem()))
	if ptr%8 != 0 {
		return
	}
	ref, ok := zzLoad(e.cx.Options.StringEncoding, e.mem(), t, ptr)
	vspec.Ensures("a value exactly when the guest's data is well formed", (err == nil) == ok || zzOddIn(ref))
	vspec.Ensures("the value the guest's data denotes", err != nil || zzOddIn(ref) || zzEq(t, ref, got))
}

func zzOddIn(v any) bool {
	switch x := v.(type) {
	case zzOdd:
		return true
	case []any:
		for _, y := range x {
			if zzOddIn(y) {
				return true
			}
		}
	case map[string]any:
		for _, y := range x {
			if zzOddIn(y) {
				return true
			}
		}
	}
	return false
}

func zzBits(v values.Value) uint64 {
	switch x := v.Value().(type) {
	case uint32:
		return uint64(x)
	case uint64:
		return x
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	}
	return 0
}

func zzCore(k kind.Kind, w uint64) values.Value {
	switch k {
	case kind.U32:
		return values.U32(uint32(w))
	case kind.U64:
		return values.U64(w)
	case kind.Float32:
		return values.Float32(math.Float32frombits(uint32(w)))
	}
	return values.Float64(math.Float64frombits(w))
}

// Lowering to core values and lifting back.
//
//verif:bounded 8000
//verif:props C04 C07
func bounded_LowerLift(seed uint64) {
	g := vspec.NewGen(seed)
	t := zzGenSized(g, 3)
	e := zzNewEnv(g, 16, false)
	v := zzGenValue(g, t)
	bend := g.Chance(1, 4)
	if bend {
		v = zzBend(g, t, v)
	}
	flat, err := FlattenType(t)
	want := zzFlat(t)
	vspec.Ensures("the canonical core kinds", err == nil && len(flat) == len(want) && zzSameKinds(flat, want))
	vs, err := LowerFlat(e.cx, v, t)
	vspec.Ensures("exactly the values of the type are lowered", (err == nil) == zzFits(t, v))
	if err != nil {
		return
	}
	var kinds []kind.Kind
	var bits []uint64
	for _, x := range vs {
		kinds = append(kinds, x.Kind())
		bits = append(bits, zzBits(x))
	}
	vspec.Ensures("the lowered values have the flattened kinds", zzSameKinds(kinds, want))
	exact, fixed := zzLowered(t, v)
	vspec.Ensures("every bit of a lowered value is the canonical one", zzSameBits(exact, fixed, bits))
	ref, ok := zzLift(e.cx.Options.StringEncoding, e.mem(), t, bits)
	vspec.Ensures("the lowered bits denote the value", ok && zzEq(t, v, ref) || ok && zzHasNaN(v))
	vs = append(vs, values.U32(7), values.Float64(1))
	it := values.NewIterator(vs...)
	got, err := LiftFlat(e.cx, it, t)
	vspec.Ensures("the lowered values lift back", err == nil && zzEq(t, v, got))
	vspec.Ensures("lifting consumes the values of the type", it.Index() == len(want))
}

// zzLowered is the bits a value that fits its type is lowered to. The second
// list tells which of them are known: pointers are the allocator's choice.
func zzLowered(t types.ValType, v any) ([]uint64, []bool) {
	n := zzKids(t)
	switch zzClass(t) {
	case zzPair:
		return []uint64{0, 0}, []bool{false, false}
	case zzRec:
		var bits []uint64
		var known []bool
		for i := 0; i < n; i++ {
			b, k := zzLowered(zzKid(t, i), v.(map[string]any)[zzLabel(t, i)])
			bits, known = append(bits, b...), append(known, k...)
		}
		return bits, known
	case zzVar:
		i, x, _ := zzCase(t, v)
		bits, known := []uint64{uint64(i)}, []bool{true}
		if k := zzKid(t, i); k != nil {
			b, k := zzLowered(k, x)
			bits, known = append(bits, b...), append(known, k...)
		}
		for want := len(zzFlat(t)); len(bits) < want; {
			bits, known = append(bits, 0), append(known, true)
		}
		return bits, known
	case zzFlag:
		bits, known := make([]uint64, (n+31)/32), make([]bool, (n+31)/32)
		for i := 0; i < n; i++ {
			known[i/32] = true
			if v.(map[string]any)[zzLabel(t, i)] == true {
				bits[i/32] |= 1 << (i % 32)
			}
		}
		return bits, known
	}
	var b uint64
	switch x := v.(type) {
	case bool:
		if x {
			b = 1
		}
	case uint8:
		b = uint64(x)
	case uint16:
		b = uint64(x)
	case uint32:
		b = uint64(x)
	case uint64:
		b = x
	case int8:
		b = uint64(uint32(x))
	case int16:
		b = uint64(uint32(x))
	case int32:
		b = uint64(uint32(x))
	case int64:
		b = uint64(x)
	case float32:
		b = uint64(zzF32(math.Float32bits(x)))
	case float64:
		b = zzF64(math.Float64bits(x))
	}
	return []uint64{b}, []bool{true}
}

func zzSameBits(want []uint64, known []bool, got []uint64) bool {
	for i := range got {
		if known[i] && want[i] != got[i] {
			return false
		}
	}
	return len(got) == len(want)
}

func zzHasNaN(v any) bool {
	switch x := v.(type) {
	case float32:
		return x != x
	case float64:
		return x != x
	case []any:
		for _, y := range x {
			if zzHasNaN(y) {
				return true
			}
		}
	case map[string]any:
		for _, y := range x {
			if zzHasNaN(y) {
				return true
			}
		}
	}
	return false
}

func zzSameKinds(a, b []kind.Kind) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Lifting whatever core values a guest passes.
//
//verif:bounded 8000
//verif:props C05 C07
func bounded_LiftGuest(seed uint64) {
	g := vspec.NewGen(seed)
	t := zzGenSized(g, 3)
	e := zzNewEnv(g, g.Int(96), false)
	want := zzFlat(t)
	var vs []values.Value
	var bits []uint64
	for _, k := range want {
		w := g.Bits(64)
		if g.Chance(2, 3) {
			w = uint64(g.Int(6))
		}
		v := zzCore(k, w)
		vs = append(vs, v)
		bits = append(bits, zzBits(v))
	}
	bad := g.Chance(1, 6)
	if bad && len(vs) > 0 {
		i := g.Int(len(vs))
		if g.Bool() {
			vs = vs[:i]
		} else {
			vs[i] = zzCore([]kind.Kind{kind.U32, kind.U64, kind.Float32, kind.Float64}[g.Int(4)], g.Bits(64))
			bad = vs[i].Kind() != want[i]
			bits[i] = zzBits(vs[i])
		}
	} else {
		bad = false
	}
	it := values.NewIterator(vs...)
	var got any
	var err error
	panicked := vspec.Try(func() { got, err = LiftFlat(e.cx, it, t) })
	vspec.Ensures("lifting does not crash", panicked == "")
	if bad {
		vspec.Ensures("missing values and wrong kinds are refused", err != nil)
		return
	}
	ref, ok := zzLift(e.cx.Options.StringEncoding, e.mem(), t, bits)
	vspec.Ensures("a value exactly when the core values are well formed", (err == nil) == ok || zzOddIn(ref))
	vspec.Ensures("the value the core values denote", err != nil || zzOddIn(ref) || zzEq(t, ref, got))
	vspec.Ensures("lifting consumes the values of the type", err != nil || it.Index() == len(want))
}

// Lists of values, flat or through memory.
//
//verif:bounded 8000
//verif:props C13
func bounded_Spill(seed uint64) {
	g := vspec.NewGen(seed)
	e := zzNewEnv(g, 16, false)
	var ts []types.ValType
	var vs []any
	var flat []kind.Kind
	n := g.Int(14)
	for i := 0; i < n; i++ {
		t := zzGenSized(g, 1)
		ts = append(ts, t)
		vs = append(vs, zzGenValue(g, t))
		flat = append(flat, zzFlat(t)...)
	}
	max := g.Int(20)
	if g.Chance(1, 3) {
		max = len(flat) - 1 + g.Int(3)
	}
	spilled := len(flat) > max
	tuple := types.NewTuple(ts...)
	z, a := spSize(tuple), spAlign(tuple)
	if g.Chance(1, 10) {
		ws := append(append([]any{}, vs...), uint8(1))
		if g.Bool() && n > 0 {
			ws = vs[:n-1]
		}
		_, err := LowerValues(e.cx, max, ws, ts, nil)
		vspec.Ensures("another number of values is refused", err != nil)
		return
	}
	var out values.ValueIterator
	ptr := uint32(0)
	if g.Bool() && a != 0 {
		ptr, _ = e.cx.Options.Realloc(0, 0, a, uint32(z))
		bad := uint32(0)
		if g.Chance(1, 6) {
			bad = uint32(1 + g.Int(9))
			if g.Bool() {
				bad = uint32(g.Bits(32))
			}
		}
		ptr += bad
		out = values.NewIterator(values.U32(ptr))
		if uint64(ptr)%uint64(a) != 0 || uint64(ptr)+z > uint64(len(e.mem())) {
			if spilled {
				_, err := LowerValues(e.cx, max, vs, ts, out)
				vspec.Ensures("a misaligned or outlying result pointer is refused", err != nil)
			}
			return
		}
	}
	res, err := LowerValues(e.cx, max, vs, ts, out)
	vspec.Ensures("fitting values are lowered", err == nil)
	var core []values.Value
	var kinds []kind.Kind
	var bits []uint64
	for _, r := range res {
		v, ok := r.(values.Value)
		vspec.Ensures("core values", ok)
		core = append(core, v)
		kinds = append(kinds, v.Kind())
		bits = append(bits, zzBits(v))
	}
	enc := e.cx.Options.StringEncoding
	if spilled {
		vspec.Ensures("one pointer when over the limit", len(core) == 1 && kinds[0] == kind.U32)
		vspec.Ensures("an aligned pointer", bits[0]%uint64(a) == 0 && (out == nil || bits[0] == uint64(ptr)))
		ref, ok := zzLoad(enc, e.mem(), tuple, bits[0])
		m, ok2 := ref.(map[string]any)
		vspec.Ensures("the tuple is in memory", ok && ok2)
		for i, t := range ts {
			vspec.Ensures("each value at its place in the tuple", zzEq(t, vs[i], m[strconv.Itoa(i)]) || zzHasNaN(vs[i]))
		}
	} else {
		vspec.Ensures("flat values up to the limit", zzSameKinds(kinds, flat))
		at := 0
		for i, t := range ts {
			k := len(zzFlat(t))
			ref, ok := zzLift(enc, e.mem(), t, bits[at:at+k])
			vspec.Ensures("each value at its place in the flat list", ok && (zzEq(t, vs[i], ref) || zzHasNaN(vs[i])))
			at += k
		}
	}
	if spilled && g.Chance(1, 8) {
		p := uint32(bits[0]) + uint32(1+g.Int(7))
		if g.Bool() {
			p = uint32(g.Bits(32))
		}
		if uint64(p)%uint64(a) != 0 || uint64(p)+z > uint64(len(e.mem())) {
			_, err := LiftValues(e.cx, max, values.NewIterator(values.U32(p)), ts)
			vspec.Ensures("a misaligned or outlying pointer is refused", err != nil)
			return
		}
	}
	got, err := LiftValues(e.cx, max, values.NewIterator(core...), ts)
	vspec.Ensures("the values arrive", err == nil && len(got) == n)
	for i, t := range ts {
		vspec.Ensures("the values arrive in order and unchanged", zzEq(t, vs[i], got[i]))
	}
}

// Function types at and around the limits.
//
//verif:bounded 4000
//verif:props C04
func bounded_FuncType(seed uint64) {
	g := vspec.NewGen(seed)
	list := func() ([]types.Parameter, []kind.Kind) {
		var ps []types.Parameter
		var ks []kind.Kind
		for n := g.Int(8); n > 0; n-- {
			t := zzGenSized(g, 1)
			ps = append(ps, types.Parameter{Name: "p", Type: t})
			ks = append(ks, zzFlat(t)...)
		}
		return ps, ks
	}
	ps, pk := list()
	rs, rk := list()
	maxP, maxR := g.Int(20), g.Int(8)
	if g.Bool() {
		maxP = len(pk) - 1 + g.Int(3)
	}
	if g.Bool() {
		maxR = len(rk) - 1 + g.Int(3)
	}
	if maxP < 0 || maxR < 0 {
		return
	}
	ft := types.NewFuncType(ps, rs)
	lift, err := FlattenFuncTypeLift(ft, maxP, maxR)
	vspec.Ensures("a lifted function type", err == nil)
	lower, err := FlattenFuncTypeLower(ft, maxP, maxR)
	vspec.Ensures("a lowered function type", err == nil)
	wp := pk
	if len(pk) > maxP {
		wp = []kind.Kind{kind.U32}
	}
	if len(rk) > maxR {
		vspec.Ensures("a pointer instead of many parameters", zzSameKinds(lift.Params(), wp))
		vspec.Ensures("a pointer result instead of many results", zzSameKinds(lift.Results(), []kind.Kind{kind.U32}))
		vspec.Ensures("an extra pointer parameter instead of many results", zzSameKinds(lower.Params(), append(append([]kind.Kind{}, wp...), kind.U32)) && len(lower.Results()) == 0)
		return
	}
	vspec.Ensures("flat parameters and results up to the limit", zzSameKinds(lift.Params(), wp) && zzSameKinds(lift.Results(), rk))
	vspec.Ensures("the same in both directions", zzSameKinds(lower.Params(), wp) && zzSameKinds(lower.Results(), rk))
}

// Strings and their headers.
//
//verif:bounded 6000
//verif:props C09
func bounded_String(seed uint64) {
	g := vspec.NewGen(seed)
	e := zzNewEnv(g, g.Int(40), false)
	enc := e.cx.Options.StringEncoding
	s := zzGenString(g)
	if g.Chance(1, 50) {
		s = strings.Repeat(s, 12000)
	}
	ptr, tagged, err := StoreStringIntoRange(e.cx, s)
	vspec.Ensures("every string is stored", err == nil)
	latin := true
	for _, r := range s {
		latin = latin && r < 256
	}
	units := uint32(len(utf16.Encode([]rune(s))))
	switch {
	case enc == encoding.UTF8:
		vspec.Ensures("the length counts bytes", tagged == uint32(len(s)))
	case enc == encoding.UTF16:
		vspec.Ensures("the length counts 16-bit units", tagged == units)
	case latin:
		vspec.Ensures("one byte per character and no tag where that suffices", tagged == uint32(utf8.RuneCountInString(s)))
	default:
		vspec.Ensures("16-bit units and the tag otherwise", tagged == units|1<<31)
	}
	u := UInt32ToTaggedCodeUnits(tagged)
	vspec.Ensures("packing is inverse to unpacking", u.ToUInt32() == tagged)
	ref, ok := zzString(enc, e.mem(), uint64(ptr), uint64(tagged))
	vspec.Ensures("the stored units spell the string", ok && (ref == any(s) || strings.ContainsRune(s, utf8.RuneError)))
	got, err := LoadStringFromRange(e.cx, ptr, tagged)
	vspec.Ensures("the string loads back", err == nil && got == s)
	p, n := uint32(g.Int(60)), uint32(g.Int(20))
	if g.Chance(1, 8) {
		n = uint32(g.Bits(32))
	}
	if g.Chance(1, 8) {
		p = uint32(g.Bits(32))
	}
	var str string
	panicked := vspec.Try(func() { str, err = LoadStringFromRange(e.cx, p, n) })
	ref, ok = zzString(enc, e.mem(), uint64(p), uint64(n))
	vspec.Ensures("loading does not crash", panicked == "")
	vspec.Ensures("exactly the aligned ranges inside the memory are read", (err == nil) == ok || zzOddIn(ref))
	vspec.Ensures("exactly the counted units are read", err != nil || zzOddIn(ref) || ref == any(str))
}
