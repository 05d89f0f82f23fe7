package io

import (
	"strconv"

	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// Classes of component value types after despecialization.
const (
	zzNone = iota
	zzS1   // one byte: bool, u8, s8
	zzS2
	zzS4 // u32, s32, char, handles
	zzS8
	zzF4
	zzF8
	zzPair // string, list
	zzRec  // record, tuple
	zzVar  // variant, union, enum, option, result
	zzFlag
)

//verif:def
func zzClass(t types.ValType) int {
	switch t.(type) {
	case types.Bool, types.U8, types.S8:
		return zzS1
	case types.U16, types.S16:
		return zzS2
	case types.U32, types.S32, types.Char, types.Own, types.Borrow:
		return zzS4
	case types.U64, types.S64:
		return zzS8
	case types.F32:
		return zzF4
	case types.F64:
		return zzF8
	case types.String, types.List:
		return zzPair
	case types.Record, types.Tuple:
		return zzRec
	case types.Variant, types.Union, types.Enum, types.Option, types.Result:
		return zzVar
	case types.Flags:
		return zzFlag
	}
	return zzNone
}

// zzKids is the number of fields, cases or labels.
//
//verif:def
func zzKids(t types.ValType) int {
	switch vt := t.(type) {
	case types.Record:
		return len(vt.Fields())
	case types.Tuple:
		return len(vt.Types())
	case types.Variant:
		return len(vt.Cases())
	case types.Union:
		return len(vt.Types())
	case types.Enum:
		return len(vt.Labels())
	case types.Option, types.Result:
		return 2
	case types.Flags:
		return len(vt.Labels())
	}
	return 0
}

// zzKid is the type of field or case i, nil for a case without payload.
//
//verif:def
func zzKid(t types.ValType, i int) types.ValType {
	switch vt := t.(type) {
	case types.Record:
		return vt.Fields()[i].Type
	case types.Tuple:
		return vt.Types()[i]
	case types.Variant:
		return vt.Cases()[i].Type
	case types.Union:
		return vt.Types()[i]
	case types.Option:
		if i == 1 {
			return vt.Type()
		}
	case types.Result:
		if i == 0 {
			return vt.Ok()
		}
		return vt.Error()
	}
	return nil
}

// spDisc is the width of the discriminant of n cases, 0 if there is none.
func spDisc(n int) uint32 {
	switch {
	case n <= 0 || n > 1<<24:
		return 0
	case n <= 1<<8:
		return 1
	case n <= 1<<16:
		return 2
	}
	return 4
}

func spUp(s uint64, a uint32) uint64 {
	return (s + uint64(a) - 1) &^ (uint64(a) - 1)
}

// spAlign is the canonical alignment of t, 0 if t has none.
//
//verif:spec
func spAlign(t types.ValType) uint32 {
	n := zzKids(t)
	switch zzClass(t) {
	case zzS1:
		return 1
	case zzS2:
		return 2
	case zzS4, zzF4, zzPair:
		return 4
	case zzS8, zzF8:
		return 8
	case zzRec:
		return spMaxAlign(t, 0, 1)
	case zzVar:
		if spDisc(n) == 0 {
			return 0
		}
		m := spMaxAlign(t, 0, 1)
		if m == 0 {
			return 0
		}
		if m < spDisc(n) {
			return spDisc(n)
		}
		return m
	case zzFlag:
		switch {
		case n <= 8:
			return 1
		case n <= 16:
			return 2
		}
		return 4
	}
	return 0
}

// spMaxAlign is the largest alignment of the fields or cases from i on and a.
//
//verif:spec
func spMaxAlign(t types.ValType, i int, a uint32) uint32 {
	if i >= zzKids(t) {
		return a
	}
	k := zzKid(t, i)
	if k == nil && zzClass(t) == zzVar {
		return spMaxAlign(t, i+1, a)
	}
	b := spAlign(k)
	if b == 0 {
		return 0
	}
	if b > a {
		return spMaxAlign(t, i+1, b)
	}
	return spMaxAlign(t, i+1, a)
}

const zzTop = 1 << 32

// spSize is the canonical size of t, zzTop if it has none or it does not fit.
//
//verif:spec
func spSize(t types.ValType) uint64 {
	n := zzKids(t)
	switch zzClass(t) {
	case zzS1:
		return 1
	case zzS2:
		return 2
	case zzS4, zzF4:
		return 4
	case zzS8, zzF8, zzPair:
		return 8
	case zzRec:
		s := spFields(t, 0, 0)
		a := spAlign(t)
		if s >= zzTop || a == 0 || spUp(s, a) >= zzTop {
			return zzTop
		}
		return spUp(s, a)
	case zzVar:
		d, a := spDisc(n), spAlign(t)
		m := spMaxAlign(t, 0, 1)
		if d == 0 || a == 0 || m == 0 {
			return zzTop
		}
		c := spMaxSize(t, 0, 0)
		if c >= zzTop {
			return zzTop
		}
		s := spUp(uint64(d), m) + c
		if s >= zzTop || spUp(s, a) >= zzTop {
			return zzTop
		}
		return spUp(s, a)
	case zzFlag:
		switch {
		case n == 0:
			return 0
		case n <= 8:
			return 1
		case n <= 16:
			return 2
		}
		return 4 * (uint64(n+31) / 32)
	}
	return zzTop
}

// spFields is the end of the fields from i on when the previous ones end at s.
//
//verif:spec
func spFields(t types.ValType, i int, s uint64) uint64 {
	if i >= zzKids(t) {
		return s
	}
	k := zzKid(t, i)
	a, z := spAlign(k), spSize(k)
	if a == 0 || z >= zzTop || spUp(s, a)+z >= zzTop {
		return zzTop
	}
	return spFields(t, i+1, spUp(s, a)+z)
}

// spMaxSize is the largest size of the cases from i on and s.
//
//verif:spec
func spMaxSize(t types.ValType, i int, s uint64) uint64 {
	if i >= zzKids(t) {
		return s
	}
	k := zzKid(t, i)
	if k == nil {
		return spMaxSize(t, i+1, s)
	}
	z := spSize(k)
	if z >= zzTop {
		return zzTop
	}
	if z > s {
		return spMaxSize(t, i+1, z)
	}
	return spMaxSize(t, i+1, s)
}

// zzBasic: t is no shorthand for another type.
//
//verif:def
func zzBasic(t types.ValType) bool {
	switch t.(type) {
	case types.Tuple, types.Union, types.Enum, types.Option, types.Result:
		return false
	}
	return true
}

func zzPow(a uint32) bool { return a == 1 || a == 2 || a == 4 || a == 8 }

//verif:contract AlignTo
//verif:props C03
func contract_AlignTo(ptr, alignment uint32) (uint32, error) {
	r, err := AlignTo(ptr, alignment)
	vspec.Ensures("alignment zero is refused", vspec.Imp(alignment == 0, err != nil))
	if alignment == 1 || alignment == 2 || alignment == 4 || alignment == 8 {
		up := spUp(uint64(ptr), alignment)
		vspec.Ensures("rounds up or reports", (err == nil) == (up < zzTop) && vspec.Imp(err == nil, uint64(r) == up))
	}
	return r, err
}

//verif:loop Alignment
func loop_MaxAlign(a uint32, i int, t types.ValType) bool {
	return zzPow(a) && spMaxAlign(t, i, a) == spMaxAlign(t, 0, 1)
}

//verif:contract Alignment
//verif:props C03
func contract_Alignment(t types.ValType) (uint32, error) {
	a, err := Alignment(t)
	vspec.Ensures("an alignment or an error", (err == nil) == (spAlign(t) != 0))
	vspec.Ensures("the canonical alignment", vspec.Imp(err == nil, a == spAlign(t)))
	vspec.Ensures("an alignment is 1, 2, 4 or 8", vspec.Imp(err == nil, zzPow(a)))
	return a, err
}

//verif:loop Size
func loop_Fields2(s uint32, i int, t types.ValType) bool {
	return spFields(t, i, uint64(s)) == spFields(t, 0, 0)
}

//verif:loop Size
func loop_MaxSize(s uint32, i int, t types.ValType) bool {
	return spMaxSize(t, i, uint64(s)) == spMaxSize(t, 0, 0)
}

//verif:loop Size
func loop_MaxAlign2(a uint32, i int, t types.ValType) bool {
	return zzPow(a) && spMaxAlign(t, i, a) == spMaxAlign(t, 0, 1)
}

//verif:contract Size
//verif:props C03
func contract_Size(t types.ValType) (uint32, error) {
	s, err := Size(t)
	vspec.Ensures("a size or an error", (err == nil) == (spSize(t) < zzTop))
	vspec.Ensures("the canonical size", vspec.Imp(err == nil, uint64(s) == spSize(t)))
	vspec.Ensures("a multiple of the alignment", vspec.Imp(err == nil, spAlign(t) != 0 && s&(spAlign(t)-1) == 0))
	return s, err
}

// zzGenType makes a random value type.
func zzGenType(g *vspec.Gen, depth int) types.ValType {
	n := 24
	if depth <= 0 {
		n = 16
	}
	labels := func(n int) []string {
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, "l"+strconv.Itoa(i))
		}
		return ls
	}
	opt := func() types.ValType {
		if g.Chance(1, 4) {
			return nil
		}
		return zzGenType(g, depth-1)
	}
	count := func() int {
		if g.Chance(1, 24) {
			return 255 + g.Int(4)
		}
		return g.Int(5)
	}
	switch g.Int(n) {
	case 0:
		return types.NewBool()
	case 1:
		return types.NewU8()
	case 2:
		return types.NewU16()
	case 3:
		return types.NewU32()
	case 4:
		return types.NewU64()
	case 5:
		return types.NewS8()
	case 6:
		return types.NewS16()
	case 7:
		return types.NewS32()
	case 8:
		return types.NewS64()
	case 9:
		return types.NewF32()
	case 10:
		return types.NewF64()
	case 11:
		return types.NewChar()
	case 12:
		return types.NewString()
	case 13:
		k := g.Int(20)
		if g.Bool() {
			k = []int{0, 1, 8, 9, 16, 17, 32, 33, 64, 65, 96, 97}[g.Int(12)]
		}
		return types.NewFlags(labels(k)...)
	case 14:
		k := 1 + g.Int(4)
		if g.Chance(1, 8) {
			k = 255 + g.Int(4)
		}
		return types.NewEnum(labels(k)...)
	case 15:
		return types.NewList(zzGenType(g, depth-2))
	case 16, 17:
		var fs []types.Field
		for i, n := 0, g.Int(5); i < n; i++ {
			fs = append(fs, types.Field{Label: "f" + strconv.Itoa(i), Type: zzGenType(g, depth-1)})
		}
		return types.NewRecord(fs...)
	case 18:
		var ts []types.ValType
		for i, n := 0, g.Int(5); i < n; i++ {
			ts = append(ts, zzGenType(g, depth-1))
		}
		return types.NewTuple(ts...)
	case 19, 20:
		var cs []types.Case
		n := 1 + count()
		for i := 0; i < n; i++ {
			var t types.ValType
			if n < 10 {
				t = opt()
			}
			cs = append(cs, types.NewCase("c"+strconv.Itoa(i), t))
		}
		return types.NewVariant(cs...)
	case 21:
		var ts []types.ValType
		for i, n := 0, 1+g.Int(4); i < n; i++ {
			ts = append(ts, zzGenType(g, depth-1))
		}
		return types.NewUnion(ts...)
	case 22:
		return types.NewOption(zzGenType(g, depth-1))
	}
	return types.NewResult(opt(), opt())
}

func gen_ValType(g *vspec.Gen) types.ValType {
	if g.Chance(1, 40) {
		switch g.Int(3) {
		case 0:
			return nil
		case 1:
			return types.NewVariant()
		}
		return types.NewRecord(types.Field{Label: "f", Type: nil})
	}
	return zzGenType(g, 3)
}
