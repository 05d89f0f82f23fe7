package io

import (
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

const zzNoKind kind.Kind = -1

// zzMeet joins two kinds, either of which may be absent.
func zzMeet(a, b kind.Kind) kind.Kind {
	switch {
	case a == zzNoKind:
		return b
	case b == zzNoKind:
		return a
	}
	return zzJoin(a, b)
}

// spFlatLen is the number of core values of t, -1 if t has no flat form.
//
//verif:spec
func spFlatLen(t types.ValType) int {
	n := zzKids(t)
	switch zzClass(t) {
	case zzS1, zzS2, zzS4, zzS8, zzF4, zzF8:
		return 1
	case zzPair:
		return 2
	case zzRec:
		return spRecLen(t, 0, 0)
	case zzVar:
		m := spVarLen(t, 0, 0)
		if spDisc(n) == 0 || m < 0 {
			return -1
		}
		return m + 1
	case zzFlag:
		return (n + 31) / 32
	}
	return -1
}

// spRecLen is the number of core values of the fields from i on and n others.
//
//verif:spec
func spRecLen(t types.ValType, i int, n int) int {
	if i >= zzKids(t) {
		return n
	}
	l := spFlatLen(zzKid(t, i))
	if l < 0 {
		return -1
	}
	return spRecLen(t, i+1, n+l)
}

// spVarLen is the largest number of core values of the cases from i on and n.
//
//verif:spec
func spVarLen(t types.ValType, i int, n int) int {
	if i >= zzKids(t) {
		return n
	}
	k := zzKid(t, i)
	if k == nil {
		return spVarLen(t, i+1, n)
	}
	l := spFlatLen(k)
	if l < 0 {
		return -1
	}
	if l > n {
		return spVarLen(t, i+1, l)
	}
	return spVarLen(t, i+1, n)
}

// spFlatKind is the kind of core value j of t.
//
//verif:spec
func spFlatKind(t types.ValType, j int) kind.Kind {
	switch zzClass(t) {
	case zzS8:
		return kind.U64
	case zzF4:
		return kind.Float32
	case zzF8:
		return kind.Float64
	case zzRec:
		return spFieldKind(t, 0, j)
	case zzVar:
		if j == 0 {
			return kind.U32
		}
		return spCaseKind(t, 0, j-1)
	}
	return kind.U32
}

// spFieldKind is the kind of core value j of the fields from i on.
//
//verif:spec
func spFieldKind(t types.ValType, i int, j int) kind.Kind {
	if i >= zzKids(t) {
		return zzNoKind
	}
	k := zzKid(t, i)
	l := spFlatLen(k)
	if l < 0 {
		return zzNoKind
	}
	if j < l {
		return spFlatKind(k, j)
	}
	return spFieldKind(t, i+1, j-l)
}

// spCaseKind is the join of the kinds of core value j of the cases from i on.
//
//verif:spec
func spCaseKind(t types.ValType, i int, j int) kind.Kind {
	if i >= zzKids(t) {
		return zzNoKind
	}
	k := zzKid(t, i)
	r := spCaseKind(t, i+1, j)
	if k == nil || j >= spFlatLen(k) {
		return r
	}
	return zzMeet(spFlatKind(k, j), r)
}

func zzKinds(ks []kind.Kind) bool {
	return vspec.Forall(0, len(ks), func(j int) bool { return ks[j] >= kind.U32 && ks[j] <= kind.Float64 })
}

// zzHolds: the bits of a core value of kind a can be carried by kind r.
func zzHolds(a, r kind.Kind) bool {
	return a == r || r == kind.U64 || a == kind.Float32 && r == kind.U32
}

const zzMany = 1 << 60

//verif:lemma
//verif:props C04
func lemma_Join(a, b, c kind.Kind) {
	vspec.Requires(a >= kind.U32 && a <= kind.Float64 && b >= kind.U32 && b <= kind.Float64 && c >= kind.U32 && c <= kind.Float64)
	r := join(a, b)
	vspec.Ensures("join is the canonical join", r == zzJoin(a, b))
	vspec.Ensures("join is commutative", r == join(b, a))
	vspec.Ensures("join keeps equal kinds", vspec.Imp(a == b, r == a))
	vspec.Ensures("join fits both", zzHolds(a, r) && zzHolds(b, r))
	vspec.Ensures("join does not depend on the order of cases", join(join(a, b), c) == join(a, join(b, c)))
}

//verif:loop FlattenType
func loop_FlatFlags(flat []kind.Kind, i uint32) bool {
	return len(flat) == int(i) && vspec.Forall(0, len(flat), func(j int) bool { return flat[j] == kind.U32 })
}

//verif:contract FlattenType
//verif:props C04
func contract_FlattenType(t types.ValType) ([]kind.Kind, error) {
	r, err := FlattenType(t)
	vspec.Ensures("a flat form or an error", (err == nil) == (spFlatLen(t) >= 0))
	vspec.Ensures("as many core values as the canonical form", err != nil || len(r) == spFlatLen(t))
	vspec.Ensures("the canonical kinds", err != nil || vspec.Forall(0, len(r), func(j int) bool { return r[j] == spFlatKind(t, j) }))
	vspec.Ensures("kinds are core kinds", err != nil || zzKinds(r))
	vspec.Ensures("a new slice", err != nil || vspec.Fresh(r))
	return r, err
}
