package io

import (
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// spTypesLen is the number of core values of the types from i on and n others.
//
//verif:spec
func spTypesLen(ts []types.ValType, i int, n int) int {
	if i >= len(ts) {
		return n
	}
	l := spFlatLen(ts[i])
	if l < 0 {
		return -1
	}
	return spTypesLen(ts, i+1, n+l)
}

// spTypesKind is the kind of core value j of the types from i on.
//
//verif:spec
func spTypesKind(ts []types.ValType, i int, j int) kind.Kind {
	if i >= len(ts) {
		return zzNoKind
	}
	l := spFlatLen(ts[i])
	if l < 0 {
		return zzNoKind
	}
	if j < l {
		return spFlatKind(ts[i], j)
	}
	return spTypesKind(ts, i+1, j-l)
}

//verif:loop FlattenTypes
func loop_FlatTypesLen(flat []kind.Kind, next int, ts []types.ValType) bool {
	return spTypesLen(ts, next, len(flat)) == spTypesLen(ts, 0, 0)
}

//verif:loop FlattenTypes
func loop_FlatTypesKind(flat []kind.Kind, ts []types.ValType) bool {
	return vspec.Forall(0, len(flat), func(j int) bool { return flat[j] == spTypesKind(ts, 0, j) })
}

//verif:loop FlattenTypes
func loop_FlatTypesRest(flat []kind.Kind, next int, ts []types.ValType) bool {
	n := len(flat)
	return vspec.Forall(0, zzMany-n, func(m int) bool { return spTypesKind(ts, 0, n+m) == spTypesKind(ts, next, m) })
}

//verif:loop FlattenTypes
func loop_FlatTypesKinds(flat []kind.Kind) bool {
	return zzKinds(flat)
}

//verif:contract FlattenTypes
//verif:hide spFlatLen spFlatKind zzClass
//verif:props C04
func contract_FlattenTypes(ts []types.ValType) ([]kind.Kind, error) {
	r, err := FlattenTypes(ts)
	n := spTypesLen(ts, 0, 0)
	vspec.Ensures("the types have flat forms or an error", (err == nil) == (n >= 0))
	vspec.Ensures("as many core values as the types have", err != nil || len(r) == n)
	vspec.Ensures("the kinds of the types in order", err != nil || vspec.Forall(0, len(r), func(j int) bool { return r[j] == spTypesKind(ts, 0, j) }))
	vspec.Ensures("kinds are core kinds", err != nil || zzKinds(r))
	vspec.Ensures("a new slice", err != nil || vspec.Fresh(r))
	return r, err
}

// spParsLen and spParsKind say the same of a parameter list.
//
//verif:spec
func spParsLen(ps []types.Parameter, i int, n int) int {
	if i >= len(ps) {
		return n
	}
	l := spFlatLen(ps[i].Type)
	if l < 0 {
		return -1
	}
	return spParsLen(ps, i+1, n+l)
}

//verif:spec
func spParsKind(ps []types.Parameter, i int, j int) kind.Kind {
	if i >= len(ps) {
		return zzNoKind
	}
	l := spFlatLen(ps[i].Type)
	if l < 0 {
		return zzNoKind
	}
	if j < l {
		return spFlatKind(ps[i].Type, j)
	}
	return spParsKind(ps, i+1, j-l)
}

//verif:loop extract
func loop_Extract(ret []types.ValType, vec []types.Parameter) bool {
	return vspec.Forall(0, len(ret), func(k int) bool { return k < len(vec) && ret[k] == vec[k].Type })
}

// zzParsTypes: ts are the types of the parameters.
func zzParsTypes(ts []types.ValType, ps []types.Parameter) bool {
	return len(ts) == len(ps) && vspec.Forall(0, len(ts), func(k int) bool { return ts[k] == ps[k].Type })
}

func zzExtParsLen(ts []types.ValType, ps []types.Parameter, i int, n int) {
	if i >= 0 && i < len(ts) {
		zzExtParsLen(ts, ps, i+1, n+spFlatLen(ts[i]))
	}
}

//verif:contract zzExtParsLen
//verif:hide spFlatLen
//verif:props C04
func contract_zzExtParsLen(ts []types.ValType, ps []types.Parameter, i int, n int) {
	vspec.Requires(i >= 0 && zzParsTypes(ts, ps))
	vspec.Decreases(len(ts) - i)
	zzExtParsLen(ts, ps, i, n)
	vspec.Ensures("the types have as many core values as the parameters", spTypesLen(ts, i, n) == spParsLen(ps, i, n))
}

func zzExtParsKind(ts []types.ValType, ps []types.Parameter, i int) {
	if i >= 0 && i < len(ts) {
		zzExtParsKind(ts, ps, i+1)
	}
}

//verif:contract zzExtParsKind
//verif:hide spFlatLen spFlatKind
//verif:props C04
func contract_zzExtParsKind(ts []types.ValType, ps []types.Parameter, i int) {
	vspec.Requires(i >= 0 && zzParsTypes(ts, ps))
	vspec.Decreases(len(ts) - i)
	zzExtParsKind(ts, ps, i)
	vspec.Ensures("the types have the kinds of the parameters", vspec.Forall(0, zzHigh, func(j int) bool { return spTypesKind(ts, i, j) == spParsKind(ps, i, j) }))
}

//verif:contract github.com/patrickhuber/go-wasm/abi/types:FuncTypeImpl.ParamTypes
//verif:hide spFlatLen spFlatKind spTypesLen spTypesKind spParsLen spParsKind
//verif:props C04
func contract_ParamTypes(ft *types.FuncTypeImpl) []types.ValType {
	vspec.Requires(ft != nil)
	ts := ft.ParamTypes()
	vspec.Ensures("the types of the parameters in order", zzParsTypes(ts, ft.Parameters))
	vspec.Proof(func() {
		zzExtParsLen(ts, ft.Parameters, 0, 0)
		zzExtParsKind(ts, ft.Parameters, 0)
	})
	vspec.Ensures("as many core values", spTypesLen(ts, 0, 0) == spParsLen(ft.Parameters, 0, 0))
	vspec.Ensures("the same kinds", vspec.Forall(0, zzHigh, func(j int) bool { return spTypesKind(ts, 0, j) == spParsKind(ft.Parameters, 0, j) }))
	return ts
}

//verif:contract github.com/patrickhuber/go-wasm/abi/types:FuncTypeImpl.ResultTypes
//verif:hide spFlatLen spFlatKind spTypesLen spTypesKind spParsLen spParsKind
//verif:props C04
func contract_ResultTypes(ft *types.FuncTypeImpl) []types.ValType {
	vspec.Requires(ft != nil)
	ts := ft.ResultTypes()
	vspec.Ensures("the types of the results in order", zzParsTypes(ts, ft.Results))
	vspec.Proof(func() {
		zzExtParsLen(ts, ft.Results, 0, 0)
		zzExtParsKind(ts, ft.Results, 0)
	})
	vspec.Ensures("as many core values", spTypesLen(ts, 0, 0) == spParsLen(ft.Results, 0, 0))
	vspec.Ensures("the same kinds", vspec.Forall(0, zzHigh, func(j int) bool { return spTypesKind(ts, 0, j) == spParsKind(ft.Results, 0, j) }))
	return ts
}

// zzIsFlat: ks starts with the kinds of the parameters, or with one pointer if
// there are more than max.
func zzIsFlat(ks []kind.Kind, ps []types.Parameter, max int) int {
	n := spParsLen(ps, 0, 0)
	if n > max {
		if len(ks) >= 1 && ks[0] == kind.U32 {
			return 1
		}
		return -1
	}
	if len(ks) >= n && vspec.Forall(0, n, func(j int) bool { return ks[j] == spParsKind(ps, 0, j) }) {
		return n
	}
	return -1
}

//verif:lemma
//verif:hide spFlatLen spFlatKind spTypesLen spTypesKind spParsLen spParsKind zzClass
//verif:props C04
func lemma_FlattenFuncTypeLower(ps, rs []types.Parameter, maxParams, maxResults int) {
	ft, err := FlattenFuncTypeLower(types.NewFuncType(ps, rs), maxParams, maxResults)
	np, nr := spParsLen(ps, 0, 0), spParsLen(rs, 0, 0)
	vspec.Ensures("a core function type or an error", (err == nil) == (np >= 0 && nr >= 0))
	if err != nil {
		return
	}
	n := zzIsFlat(ft.Params(), ps, maxParams)
	vspec.Ensures("parameters are flat up to the limit and one pointer above it", n >= 0)
	if nr > maxResults {
		vspec.Ensures("too many results become a pointer after the parameters", len(ft.Results()) == 0 && len(ft.Params()) == n+1 && ft.Params()[n] == kind.U32)
	} else {
		vspec.Ensures("no other parameters", len(ft.Params()) == n)
		vspec.Ensures("results are flat up to the limit", zzIsFlat(ft.Results(), rs, maxResults) == len(ft.Results()))
	}
}

//verif:lemma
//verif:hide spFlatLen spFlatKind spTypesLen spTypesKind spParsLen spParsKind zzClass
//verif:props C04
func lemma_FlattenFuncTypeLift(ps, rs []types.Parameter, maxParams, maxResults int) {
	ft, err := FlattenFuncTypeLift(types.NewFuncType(ps, rs), maxParams, maxResults)
	np, nr := spParsLen(ps, 0, 0), spParsLen(rs, 0, 0)
	vspec.Ensures("a core function type or an error", (err == nil) == (np >= 0 && nr >= 0))
	if err != nil {
		return
	}
	vspec.Ensures("parameters are flat up to the limit and one pointer above it", zzIsFlat(ft.Params(), ps, maxParams) == len(ft.Params()))
	vspec.Ensures("results are flat up to the limit and one pointer above it", zzIsFlat(ft.Results(), rs, maxResults) == len(ft.Results()))
}

func gens_Parameter(g *vspec.Gen) []types.Parameter {
	var ps []types.Parameter
	for i, n := 0, g.Int(6); i < n; i++ {
		ps = append(ps, types.Parameter{Name: "p", Type: gen_ValType(g)})
	}
	return ps
}
