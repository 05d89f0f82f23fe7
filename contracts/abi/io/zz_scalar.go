package io

import (
	"bytes"
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// zzF32 is the canonical form of the bits of a float.
func zzF32(b uint32) uint32 {
	if b&0x7fffffff > 0x7f800000 {
		return 0x7fc00000
	}
	return b
}

func zzF64(b uint64) uint64 {
	if b&0x7fffffffffffffff > 0x7ff0000000000000 {
		return 0x7ff8000000000000
	}
	return b
}

func zzIsScalar(u uint32) bool { return u < 0xd800 || u > 0xdfff && u < 0x110000 }

// zzMemory is a call context over the given memory.
func zzMemory(mem []byte) *types.CallContext {
	return &types.CallContext{
		Options:  &types.CanonicalOptions{Memory: bytes.NewBuffer(mem)},
		Instance: &types.ComponentInstance{},
	}
}

// zzGet is the little-endian number of n bytes at p.
func zzGet(mem []byte, ptr uint32, n int) uint64 {
	p := uint64(ptr)
	var v uint64
	if n >= 1 {
		v = uint64(mem[p])
	}
	if n >= 2 {
		v |= uint64(mem[p+1]) << 8
	}
	if n >= 4 {
		v |= uint64(mem[p+2])<<16 | uint64(mem[p+3])<<24
	}
	if n >= 8 {
		v |= uint64(mem[p+4])<<32 | uint64(mem[p+5])<<40 | uint64(mem[p+6])<<48 | uint64(mem[p+7])<<56
	}
	return v
}

// zzAny makes a host value that may or may not be of the wanted type.
type zzHost struct{ v any }

func gen_zzHost(g *vspec.Gen) zzHost {
	if g.Chance(1, 3) {
		return zzHost{zzBend(g, types.NewBool(), true)}
	}
	return zzHost{zzGenValue(g, zzGenType(g, 0))}
}

// zzRange is a memory and an address.
type zzPlace struct {
	mem []byte
	ptr uint32
}

// zzSmall is a number that is often small.
type zzSmall uint32

func gen_zzSmall(g *vspec.Gen) zzSmall { return zzSmall(g.Int(24)) }

func gen_zzPlace(g *vspec.Gen) zzPlace {
	p := zzPlace{mem: g.Bytes(g.Int(24))}
	p.ptr = uint32(g.Int(28))
	if g.Chance(1, 2) {
		p.ptr = p.ptr / 8 * 8
	}
	if g.Chance(1, 8) {
		p.ptr = uint32(g.Bits(32))
	}
	return p
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftBool(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewBool())
	x, ok := v.(bool)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (w != 0))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerBool(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewBool())
	x, ok := h.v.(bool)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (x && w == 1 || !x && w == 0))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadBool(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewBool(), p.ptr)
	x, ok := v.(bool)
	if uint64(p.ptr)+1 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 1)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == (w != 0))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreBool(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewBool(), p.ptr)
	x, ok := h.v.(bool)
	inside := p.ptr%1 == 0 && uint64(p.ptr)+1 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 1 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 1)
		vspec.Ensures("the bytes are written as the canonical ABI says", (x && w == 1 || !x && w == 0))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftU8(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewU8())
	x, ok := v.(uint8)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (uint8(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerU8(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewU8())
	x, ok := h.v.(uint8)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint32(x)))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadU8(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewU8(), p.ptr)
	x, ok := v.(uint8)
	if uint64(p.ptr)+1 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 1)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == uint8(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreU8(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewU8(), p.ptr)
	x, ok := h.v.(uint8)
	inside := p.ptr%1 == 0 && uint64(p.ptr)+1 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 1 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 1)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint8(w) == uint8(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftU16(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewU16())
	x, ok := v.(uint16)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (uint16(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerU16(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewU16())
	x, ok := h.v.(uint16)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint32(x)))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadU16(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewU16(), p.ptr)
	x, ok := v.(uint16)
	if uint64(p.ptr)+2 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 2)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == uint16(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreU16(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewU16(), p.ptr)
	x, ok := h.v.(uint16)
	inside := p.ptr%2 == 0 && uint64(p.ptr)+2 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 2 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 2)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint16(w) == uint16(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftU32(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewU32())
	x, ok := v.(uint32)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (w))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerU32(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewU32())
	x, ok := h.v.(uint32)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == x))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadU32(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewU32(), p.ptr)
	x, ok := v.(uint32)
	if uint64(p.ptr)+4 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 4)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == uint32(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreU32(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewU32(), p.ptr)
	x, ok := h.v.(uint32)
	inside := p.ptr%4 == 0 && uint64(p.ptr)+4 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 4 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 4)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint32(w) == uint32(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftU64(w uint64) {
	it := values.NewIterator(values.U64(w))
	v, err := LiftFlat(nil, it, types.NewU64())
	x, ok := v.(uint64)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (w))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerU64(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewU64())
	x, ok := h.v.(uint64)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U64)
		w, isCore := vs[0].Value().(uint64)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == x))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadU64(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewU64(), p.ptr)
	x, ok := v.(uint64)
	if uint64(p.ptr)+8 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 8)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == uint64(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreU64(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewU64(), p.ptr)
	x, ok := h.v.(uint64)
	inside := p.ptr%8 == 0 && uint64(p.ptr)+8 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 8 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 8)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint64(w) == uint64(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftS8(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewS8())
	x, ok := v.(int8)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (int8(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerS8(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewS8())
	x, ok := h.v.(int8)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint32(int32(x))))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadS8(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewS8(), p.ptr)
	x, ok := v.(int8)
	if uint64(p.ptr)+1 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 1)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == int8(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreS8(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewS8(), p.ptr)
	x, ok := h.v.(int8)
	inside := p.ptr%1 == 0 && uint64(p.ptr)+1 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 1 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 1)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint8(w) == uint8(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftS16(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewS16())
	x, ok := v.(int16)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (int16(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerS16(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewS16())
	x, ok := h.v.(int16)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint32(int32(x))))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadS16(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewS16(), p.ptr)
	x, ok := v.(int16)
	if uint64(p.ptr)+2 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 2)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == int16(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreS16(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewS16(), p.ptr)
	x, ok := h.v.(int16)
	inside := p.ptr%2 == 0 && uint64(p.ptr)+2 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 2 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 2)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint16(w) == uint16(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftS32(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewS32())
	x, ok := v.(int32)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (int32(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerS32(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewS32())
	x, ok := h.v.(int32)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint32(x)))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadS32(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewS32(), p.ptr)
	x, ok := v.(int32)
	if uint64(p.ptr)+4 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 4)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == int32(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreS32(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewS32(), p.ptr)
	x, ok := h.v.(int32)
	inside := p.ptr%4 == 0 && uint64(p.ptr)+4 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 4 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 4)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint32(w) == uint32(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftS64(w uint64) {
	it := values.NewIterator(values.U64(w))
	v, err := LiftFlat(nil, it, types.NewS64())
	x, ok := v.(int64)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && x == (int64(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerS64(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewS64())
	x, ok := h.v.(int64)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U64)
		w, isCore := vs[0].Value().(uint64)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint64(x)))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadS64(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewS64(), p.ptr)
	x, ok := v.(int64)
	if uint64(p.ptr)+8 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 8)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && x == int64(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreS64(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewS64(), p.ptr)
	x, ok := h.v.(int64)
	inside := p.ptr%8 == 0 && uint64(p.ptr)+8 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 8 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 8)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint64(w) == uint64(x))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftF32(w uint32) {
	it := values.NewIterator(values.Float32(math.Float32frombits(w)))
	v, err := LiftFlat(nil, it, types.NewF32())
	x, ok := v.(float32)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && math.Float32bits(x) == zzF32(w))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerF32(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewF32())
	x, ok := h.v.(float32)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.Float32)
		w, isCore := vs[0].Value().(float32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (math.Float32bits(w) == zzF32(math.Float32bits(x))))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadF32(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewF32(), p.ptr)
	x, ok := v.(float32)
	if uint64(p.ptr)+4 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 4)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && math.Float32bits(x) == zzF32(uint32(w)))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreF32(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewF32(), p.ptr)
	x, ok := h.v.(float32)
	inside := p.ptr%4 == 0 && uint64(p.ptr)+4 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 4 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 4)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint32(w) == zzF32(math.Float32bits(x)))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftF64(w uint64) {
	it := values.NewIterator(values.Float64(math.Float64frombits(w)))
	v, err := LiftFlat(nil, it, types.NewF64())
	x, ok := v.(float64)
	vspec.Ensures("a core value lifts as the canonical ABI says", err == nil && ok && math.Float64bits(x) == zzF64(w))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerF64(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewF64())
	x, ok := h.v.(float64)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.Float64)
		w, isCore := vs[0].Value().(float64)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (math.Float64bits(w) == zzF64(math.Float64bits(x))))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadF64(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewF64(), p.ptr)
	x, ok := v.(float64)
	if uint64(p.ptr)+8 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 8)
	vspec.Ensures("the bytes are read as the canonical ABI says", err == nil && ok && math.Float64bits(x) == zzF64(w))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreF64(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewF64(), p.ptr)
	x, ok := h.v.(float64)
	inside := p.ptr%8 == 0 && uint64(p.ptr)+8 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && ok))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 8 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 8)
		vspec.Ensures("the bytes are written as the canonical ABI says", w == zzF64(math.Float64bits(x)))
	}
}

//verif:lemma
//verif:props C08
//verif:inline LiftFlat
func lemma_LiftChar(w uint32) {
	it := values.NewIterator(values.U32(w))
	v, err := LiftFlat(nil, it, types.NewChar())
	x, ok := v.(rune)
	vspec.Ensures("a core value lifts as the canonical ABI says", (err == nil) == zzIsScalar(w) && (err != nil || ok && x == rune(w)))
	vspec.Ensures("one core value is consumed", it.Index() == 1)
}

//verif:lemma
//verif:props C08 C07
//verif:inline LowerFlat
func lemma_LowerChar(h zzHost) {
	vs, err := LowerFlat(nil, h.v, types.NewChar())
	x, ok := h.v.(rune)
	vspec.Ensures("exactly the host values of the type are lowered", (err == nil) == (ok && zzIsScalar(uint32(x))))
	if err == nil {
		vspec.Ensures("one core value of the flattened kind", len(vs) == 1 && vs[0].Kind() == kind.U32)
		w, isCore := vs[0].Value().(uint32)
		vspec.Ensures("the value lowers as the canonical ABI says", isCore && (w == uint32(x)))
	}
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Load
func lemma_LoadChar(p zzPlace) {
	cx := zzMemory(p.mem)
	v, err := Load(cx, types.NewChar(), p.ptr)
	x, ok := v.(rune)
	if uint64(p.ptr)+4 > uint64(len(p.mem)) {
		vspec.Ensures("a range outside the memory is refused", err != nil)
		return
	}
	w := zzGet(p.mem, p.ptr, 4)
	vspec.Ensures("the bytes are read as the canonical ABI says", (err == nil) == zzIsScalar(uint32(w)) && (err != nil || ok && x == rune(uint32(w))))
}

//verif:lemma
//verif:props C06 C08 C05
//verif:inline Store
func lemma_StoreChar(p zzPlace, h zzHost, k zzSmall) {
	vspec.Requires(uint64(k) < uint64(len(p.mem)))
	old := p.mem[k]
	cx := zzMemory(p.mem)
	err := Store(cx, h.v, types.NewChar(), p.ptr)
	x, ok := h.v.(rune)
	inside := p.ptr%4 == 0 && uint64(p.ptr)+4 <= uint64(len(p.mem))
	vspec.Ensures("exactly the host values of the type are stored, at aligned places inside the memory", (err == nil) == (inside && (ok && zzIsScalar(uint32(x)))))
	vspec.Ensures("nothing else changes", err == nil && uint32(k) >= p.ptr && uint32(k)-p.ptr < 4 || p.mem[k] == old)
	if err == nil {
		w := zzGet(p.mem, p.ptr, 4)
		vspec.Ensures("the bytes are written as the canonical ABI says", uint32(w) == uint32(x))
	}
}
