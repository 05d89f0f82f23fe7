package io

import (
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

//verif:loop FlattenRecord
func loop_FlatRecLen(flat []kind.Kind, next int, t types.Record) bool {
	return spRecLen(t, next, len(flat)) == spRecLen(t, 0, 0)
}

//verif:loop FlattenRecord
func loop_FlatRecKind(flat []kind.Kind, t types.Record) bool {
	return vspec.Forall(0, len(flat), func(j int) bool { return flat[j] == spFieldKind(t, 0, j) })
}

//verif:loop FlattenRecord
func loop_FlatRecRest(flat []kind.Kind, next int, t types.Record) bool {
	n := len(flat)
	return vspec.Forall(0, zzMany-n, func(m int) bool { return spFieldKind(t, 0, n+m) == spFieldKind(t, next, m) })
}

//verif:loop FlattenRecord
func loop_FlatRecKinds(flat []kind.Kind) bool {
	return zzKinds(flat)
}

//verif:contract FlattenRecord
//verif:hide spFlatLen spFlatKind zzClass
//verif:props C04
func contract_FlattenRecord(t types.Record) ([]kind.Kind, error) {
	vspec.Requires(t != nil)
	r, err := FlattenRecord(t)
	vspec.Ensures("the fields have flat forms or an error", (err == nil) == (spRecLen(t, 0, 0) >= 0))
	vspec.Ensures("as many core values as the fields have", err != nil || len(r) == spRecLen(t, 0, 0))
	vspec.Ensures("the kinds of the fields in order", err != nil || vspec.Forall(0, len(r), func(j int) bool { return r[j] == spFieldKind(t, 0, j) }))
	vspec.Ensures("kinds are core kinds", err != nil || zzKinds(r))
	vspec.Ensures("a new slice", err != nil || vspec.Fresh(r))
	return r, err
}

//verif:loop FlattenVariant#0
func loop_FlatVarLen(flat []kind.Kind, next int, t types.Variant) bool {
	return spVarLen(t, next, len(flat)) == spVarLen(t, 0, 0)
}

//verif:loop FlattenVariant#1
func loop_FlatCaseLen(flat []kind.Kind, outer int, t types.Variant) bool {
	return spVarLen(t, outer, len(flat)) == spVarLen(t, 0, 0)
}

//verif:loop FlattenVariant#0
func loop_FlatVarKind(flat []kind.Kind, next int, t types.Variant) bool {
	return vspec.Forall(0, zzMany, func(j int) bool {
		k := zzNoKind
		if j < len(flat) {
			k = flat[j]
		}
		return spCaseKind(t, 0, j) == zzMeet(k, spCaseKind(t, next, j))
	})
}

//verif:loop FlattenVariant#1
func loop_FlatCaseKind(flat []kind.Kind, outer int, next int, t types.Variant) bool {
	return next <= len(flat) && vspec.Forall(0, zzMany, func(j int) bool {
		k := zzNoKind
		if j < len(flat) {
			k = flat[j]
		}
		n := outer
		if j < next {
			n = outer + 1
		}
		return spCaseKind(t, 0, j) == zzMeet(k, spCaseKind(t, n, j))
	})
}

//verif:loop FlattenVariant
func loop_FlatVarKinds(flat []kind.Kind) bool {
	return zzKinds(flat)
}

//verif:contract FlattenVariant
//verif:hide spFlatLen spFlatKind zzClass
//verif:props C04
func contract_FlattenVariant(t types.Variant) ([]kind.Kind, error) {
	vspec.Requires(t != nil)
	r, err := FlattenVariant(t)
	n := spVarLen(t, 0, 0)
	vspec.Ensures("the cases have flat forms or an error", (err == nil) == (n >= 0 && spDisc(zzKids(t)) != 0))
	vspec.Ensures("the discriminant and the longest case", err != nil || len(r) == n+1 && r[0] == kind.U32)
	vspec.Ensures("the joined kinds of the cases", err != nil || vspec.Forall(1, len(r), func(j int) bool { return r[j] == spCaseKind(t, 0, j-1) }))
	vspec.Ensures("kinds are core kinds", err != nil || zzKinds(r))
	vspec.Ensures("a new slice", err != nil || vspec.Fresh(r))
	return r, err
}
