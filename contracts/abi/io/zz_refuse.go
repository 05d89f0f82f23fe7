package io

import (
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// A call into an instance that may not be entered or left.
//
//verif:lemma
//verif:props C12
func lemma_CanonLiftRefuse(enter, leave bool, n zzSmall, maxP, maxR int) {
	vspec.Requires(!enter || !leave)
	calls := 0
	opts := &types.CanonicalOptions{
		Realloc:    func(a, b, c, d uint32) (uint32, error) { calls++; return 0, nil },
		PostReturn: func() { calls++ },
	}
	inst := &types.ComponentInstance{MayEnter: enter, MayLeave: leave}
	callee := func(any) (any, error) { calls++; return nil, nil }
	ft := types.NewFuncType([]types.Parameter{{Name: "p", Type: types.NewString()}}, nil)
	res, post, err := CanonLift(opts, inst, callee, ft, make([]any, n), maxP, maxR)
	vspec.Ensures("refused", err != nil && res == nil && post == nil)
	vspec.Ensures("nothing is called", calls == 0)
	vspec.Ensures("flags unchanged", inst.MayEnter == enter && inst.MayLeave == leave)
}

// A call out of an instance that may not be entered or left.
//
//verif:lemma
//verif:props C12
func lemma_CanonLowerRefuse(enter, leave, importing bool, n zzSmall, maxP, maxR int) {
	vspec.Requires(!enter || !leave)
	calls := 0
	opts := &types.CanonicalOptions{
		Realloc:    func(a, b, c, d uint32) (uint32, error) { calls++; return 0, nil },
		PostReturn: func() { calls++ },
	}
	inst := &types.ComponentInstance{MayEnter: enter, MayLeave: leave}
	callee := func([]any) ([]any, types.PostReturnFunc, error) { calls++; return nil, nil, nil }
	ft := types.NewFuncType([]types.Parameter{{Name: "p", Type: types.NewString()}}, nil)
	res, err := CanonLower(opts, inst, callee, importing, ft, make([]any, n), maxP, maxR)
	vspec.Ensures("refused", err != nil && res == nil)
	vspec.Ensures("nothing is called", calls == 0)
	vspec.Ensures("flags unchanged", inst.MayEnter == enter && inst.MayLeave == leave)
}

// Lists of values and types of different lengths.
//
//verif:lemma
//verif:props C13
func lemma_LowerValuesCount(ts []types.ValType, n zzSmall, max int) {
	vspec.Requires(int(n) != len(ts))
	calls := 0
	cx := &types.CallContext{Options: &types.CanonicalOptions{
		Realloc: func(a, b, c, d uint32) (uint32, error) { calls++; return 0, nil },
	}}
	res, err := LowerValues(cx, max, make([]any, n), ts, nil)
	vspec.Ensures("refused", err != nil && res == nil)
	vspec.Ensures("nothing is allocated", calls == 0)
}
