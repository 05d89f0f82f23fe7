package io

import (
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// zzSame: the shorthand t and the type r it stands for have the same parts.
func zzSame(t, r types.ValType) bool {
	return zzClass(r) == zzClass(t) && zzKids(r) == zzKids(t) &&
		vspec.Forall(0, zzKids(t), func(i int) bool { return zzKid(r, i) == zzKid(t, i) })
}

// The folds over the parts agree for types with the same parts.

func zzExtAlign(t, r types.ValType, i int, a uint32) {
	if i >= 0 && i < zzKids(t) {
		k := zzKid(t, i)
		if k != nil && spAlign(k) > a {
			zzExtAlign(t, r, i+1, spAlign(k))
		} else {
			zzExtAlign(t, r, i+1, a)
		}
	}
}

//verif:contract zzExtAlign
//verif:hide zzKid zzKids
//verif:props C03
func contract_zzExtAlign(t, r types.ValType, i int, a uint32) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtAlign(t, r, i, a)
	vspec.Ensures("equal parts have equal alignment", spMaxAlign(t, i, a) == spMaxAlign(r, i, a))
}

func zzExtFields(t, r types.ValType, i int, s uint64) {
	if i >= 0 && i < zzKids(t) {
		k := zzKid(t, i)
		zzExtFields(t, r, i+1, spUp(s, spAlign(k))+spSize(k))
	}
}

//verif:contract zzExtFields
//verif:hide zzKid zzKids
//verif:props C03
func contract_zzExtFields(t, r types.ValType, i int, s uint64) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtFields(t, r, i, s)
	vspec.Ensures("equal parts end at the same place", spFields(t, i, s) == spFields(r, i, s))
}

func zzExtSize(t, r types.ValType, i int, s uint64) {
	if i >= 0 && i < zzKids(t) {
		k := zzKid(t, i)
		if k != nil && spSize(k) > s {
			zzExtSize(t, r, i+1, spSize(k))
		} else {
			zzExtSize(t, r, i+1, s)
		}
	}
}

//verif:contract zzExtSize
//verif:hide zzKid zzKids
//verif:props C03
func contract_zzExtSize(t, r types.ValType, i int, s uint64) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtSize(t, r, i, s)
	vspec.Ensures("equal parts have the same largest size", spMaxSize(t, i, s) == spMaxSize(r, i, s))
}

func zzExtRecLen(t, r types.ValType, i int, n int) {
	if i >= 0 && i < zzKids(t) {
		zzExtRecLen(t, r, i+1, n+spFlatLen(zzKid(t, i)))
	}
}

//verif:contract zzExtRecLen
//verif:hide zzKid zzKids
//verif:props C04
func contract_zzExtRecLen(t, r types.ValType, i int, n int) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtRecLen(t, r, i, n)
	vspec.Ensures("equal fields have equally many core values", spRecLen(t, i, n) == spRecLen(r, i, n))
}

func zzExtVarLen(t, r types.ValType, i int, n int) {
	if i >= 0 && i < zzKids(t) {
		k := zzKid(t, i)
		if k != nil && spFlatLen(k) > n {
			zzExtVarLen(t, r, i+1, spFlatLen(k))
		} else {
			zzExtVarLen(t, r, i+1, n)
		}
	}
}

//verif:contract zzExtVarLen
//verif:hide zzKid zzKids
//verif:props C04
func contract_zzExtVarLen(t, r types.ValType, i int, n int) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtVarLen(t, r, i, n)
	vspec.Ensures("equal cases have equally many core values", spVarLen(t, i, n) == spVarLen(r, i, n))
}

func zzExtFieldKind(t, r types.ValType, i int) {
	if i >= 0 && i < zzKids(t) {
		zzExtFieldKind(t, r, i+1)
	}
}

const zzHigh = 1<<63 - 1

//verif:contract zzExtFieldKind
//verif:hide zzKid zzKids
//verif:props C04
func contract_zzExtFieldKind(t, r types.ValType, i int) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtFieldKind(t, r, i)
	vspec.Ensures("equal fields have equal kinds", vspec.Forall(0, zzHigh, func(j int) bool { return spFieldKind(t, i, j) == spFieldKind(r, i, j) }))
}

func zzExtCaseKind(t, r types.ValType, i int) {
	if i >= 0 && i < zzKids(t) {
		zzExtCaseKind(t, r, i+1)
	}
}

//verif:contract zzExtCaseKind
//verif:hide zzKid zzKids
//verif:props C04
func contract_zzExtCaseKind(t, r types.ValType, i int) {
	vspec.Requires(i >= 0 && zzSame(t, r))
	vspec.Decreases(zzKids(t) - i)
	zzExtCaseKind(t, r, i)
	vspec.Ensures("equal cases have equal kinds", vspec.Forall(0, zzHigh, func(j int) bool { return spCaseKind(t, i, j) == spCaseKind(r, i, j) }))
}

func zzExtAll(t, r types.ValType) {
	zzExtAlign(t, r, 0, 1)
	zzExtFields(t, r, 0, 0)
	zzExtSize(t, r, 0, 0)
	zzExtRecLen(t, r, 0, 0)
	zzExtVarLen(t, r, 0, 0)
	zzExtFieldKind(t, r, 0)
	zzExtCaseKind(t, r, 0)
}

//verif:contract zzExtAll
//verif:hide zzKid zzKids zzClass
//verif:props C03 C04
func contract_zzExtAll(t, r types.ValType) {
	vspec.Requires(zzSame(t, r))
	zzExtAll(t, r)
	vspec.Ensures("equal parts have equal alignment", spAlign(r) == spAlign(t))
	vspec.Ensures("equal parts have equal size", spSize(r) == spSize(t))
	vspec.Ensures("equal parts have equally many core values", spFlatLen(r) == spFlatLen(t))
	vspec.Ensures("equal parts have equal kinds", vspec.Forall(0, zzHigh, func(j int) bool { return spFlatKind(r, j) == spFlatKind(t, j) }))
}

//verif:loop Despecialize
func loop_Fields(fields []types.Field, ts []types.ValType) bool {
	return vspec.Forall(0, len(fields), func(k int) bool { return k < len(ts) && fields[k].Type == ts[k] })
}

//verif:loop Despecialize
func loop_Cases(cases []types.Case, ts []types.ValType) bool {
	return vspec.Forall(0, len(cases), func(k int) bool { return k < len(ts) && cases[k].Type == ts[k] })
}

//verif:loop Despecialize
func loop_Labels(cases []types.Case) bool {
	return vspec.Forall(0, len(cases), func(k int) bool { return cases[k].Type == nil })
}

//verif:contract Despecialize
//verif:hide spAlign spSize spFlatLen spFlatKind
//verif:props C03 C04
func contract_Despecialize(t types.ValType) types.ValType {
	r := Despecialize(t)
	vspec.Ensures("only shorthands are replaced", zzBasic(r) && (!zzBasic(t) || r == t))
	vspec.Ensures("the replacement has the same parts", zzBasic(t) || zzSame(t, r))
	vspec.Proof(func() {
		if !zzBasic(t) {
			zzExtAll(t, r)
		}
	})
	vspec.Ensures("the replacement has the same alignment", spAlign(r) == spAlign(t))
	vspec.Ensures("the replacement has the same size", spSize(r) == spSize(t))
	vspec.Ensures("the replacement has as many core values", spFlatLen(r) == spFlatLen(t))
	vspec.Ensures("the replacement has the same kinds", vspec.Forall(0, zzHigh, func(j int) bool { return spFlatKind(r, j) == spFlatKind(t, j) }))
	return r
}

//verif:contract DiscriminantType
//verif:props C03 C04
func contract_DiscriminantType(cases []types.Case) (types.ValType, error) {
	d, err := DiscriminantType(cases)
	vspec.Ensures("a discriminant or an error", (err == nil) == (spDisc(len(cases)) != 0))
	vspec.Ensures("the smallest sufficient discriminant", err != nil || spSize(d) == uint64(spDisc(len(cases))) && spAlign(d) == spDisc(len(cases)) && zzClass(d) <= zzS4)
	vspec.Ensures("the discriminant is one core i32", err != nil || spFlatLen(d) == 1 && spFlatKind(d, 0) == kind.U32)
	return d, err
}

//verif:loop AlignmentRecord
func loop_MaxAlignR(a uint32, i int, t types.Record) bool {
	return zzPow(a) && spMaxAlign(t, i, a) == spMaxAlign(t, 0, 1)
}

//verif:contract AlignmentRecord
//verif:props C03
func contract_AlignmentRecord(t types.Record) (uint32, error) {
	vspec.Requires(t != nil)
	a, err := AlignmentRecord(t)
	vspec.Ensures("the largest alignment of the fields or an error", (err == nil) == (spAlign(t) != 0) && (err != nil || zzPow(a) && a == spAlign(t)))
	return a, err
}

//verif:loop AlignmentVariant
func loop_MaxAlignV(a uint32, i int, t types.Variant) bool {
	return zzPow(a) && spMaxAlign(t, i, a) == spMaxAlign(t, 0, 1)
}

//verif:contract AlignmentVariant
//verif:props C03
func contract_AlignmentVariant(t types.Variant) (uint32, error) {
	vspec.Requires(t != nil)
	a, err := AlignmentVariant(t)
	vspec.Ensures("the largest alignment of the cases and the discriminant or an error", (err == nil) == (spAlign(t) != 0) && (err != nil || zzPow(a) && a == spAlign(t)))
	return a, err
}

//verif:loop SizeRecord
func loop_FieldsR(s uint32, i int, t types.Record) bool {
	return spFields(t, i, uint64(s)) == spFields(t, 0, 0)
}

//verif:contract SizeRecord
//verif:props C03
func contract_SizeRecord(t types.Record) (uint32, error) {
	vspec.Requires(t != nil)
	s, err := SizeRecord(t)
	vspec.Ensures("the end of the last field, aligned, or an error", (err == nil) == (spSize(t) < zzTop) && (err != nil || uint64(s) == spSize(t)))
	return s, err
}

//verif:loop SizeVariant
func loop_MaxSizeV(s uint32, i int, t types.Variant) bool {
	return spMaxSize(t, i, uint64(s)) == spMaxSize(t, 0, 0)
}

//verif:loop SizeVariant
func loop_MaxAlignV2(a uint32, i int, t types.Variant) bool {
	return zzPow(a) && spMaxAlign(t, i, a) == spMaxAlign(t, 0, 1)
}

//verif:contract SizeVariant
//verif:props C03
func contract_SizeVariant(t types.Variant) (uint32, error) {
	vspec.Requires(t != nil)
	s, err := SizeVariant(t)
	vspec.Ensures("the discriminant and the largest case, aligned, or an error", (err == nil) == (spSize(t) < zzTop) && (err != nil || uint64(s) == spSize(t)))
	return s, err
}
