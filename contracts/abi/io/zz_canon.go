package io

import (
	"fmt"

	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// zzCall is one call between a host and an instance.
type zzCall struct {
	g        *vspec.Gen
	e        *zzEnv
	inst     *types.ComponentInstance
	ps, rs   []types.ValType
	pv, rv   []any
	ft       types.FuncType
	maxP     int
	maxR     int
	entered  int
	leaveOK  bool // MayLeave was false at every allocation
	posted   int
	lowering bool
}

func zzNewCall(g *vspec.Gen) *zzCall {
	c := &zzCall{g: g, e: zzNewEnv(g, 16, false), leaveOK: true}
	c.inst = c.e.cx.Instance
	list := func() ([]types.ValType, []any, []types.Parameter) {
		var ts []types.ValType
		var vs []any
		var ps []types.Parameter
		for n := g.Int(4); n > 0; n-- {
			t := zzGenSized(g, 1)
			ts = append(ts, t)
			vs = append(vs, zzGenValue(g, t))
			ps = append(ps, types.Parameter{Name: "p", Type: t})
		}
		return ts, vs, ps
	}
	var ps, rs []types.Parameter
	c.ps, c.pv, ps = list()
	c.rs, c.rv, rs = list()
	c.ft = types.NewFuncType(ps, rs)
	c.maxP, c.maxR = g.Int(8), g.Int(4)
	inner := c.e.cx.Options.Realloc
	c.e.cx.Options.Realloc = func(a, b, d, n uint32) (uint32, error) {
		if c.lowering && c.inst.MayLeave {
			c.leaveOK = false
		}
		return inner(a, b, d, n)
	}
	c.e.cx.Options.PostReturn = func() { c.posted++ }
	return c
}

func zzCores(vs []any) ([]values.Value, bool) {
	var out []values.Value
	for _, v := range vs {
		x, ok := v.(values.Value)
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

func zzSameValues(ts []types.ValType, a, b []any) bool {
	if len(a) != len(ts) || len(b) != len(ts) {
		return false
	}
	for i, t := range ts {
		if !zzEq(t, a[i], b[i]) {
			return false
		}
	}
	return true
}

// Calls into an instance.
//
//verif:bounded 6000
//verif:props C12 C13
func bounded_CanonLift(seed uint64) {
	c := zzNewCall(vspec.NewGen(seed))
	g, inst := c.g, c.inst
	refuse := false
	if g.Chance(1, 4) {
		inst.MayEnter, inst.MayLeave = g.Bool(), g.Bool()
		refuse = !inst.MayEnter || !inst.MayLeave
	}
	enter, leave := inst.MayEnter, inst.MayLeave
	fail := g.Chance(1, 6)
	boom := fmt.Errorf("boom")
	var got []any
	inside := true
	arrived := false
	callee := func(a any) (any, error) {
		c.entered++
		c.lowering = false
		inside = inside && inst.MayLeave
		args, ok := a.([]any)
		cores, ok2 := zzCores(args)
		if ok && ok2 {
			var err error
			got, err = LiftValues(c.e.cx, c.maxP, values.NewIterator(cores...), c.ps)
			arrived = err == nil
		}
		if fail {
			return nil, boom
		}
		res, err := LowerValues(c.e.cx, c.maxR, c.rv, c.rs, nil)
		return res, err
	}
	c.lowering = true
	res, post, err := CanonLift(c.e.cx.Options, inst, callee, c.ft, c.pv, c.maxP, c.maxR)
	if refuse {
		vspec.Ensures("an instance that may not be entered or left refuses the call", err != nil)
		vspec.Ensures("a refused call runs nothing", c.entered == 0 && c.e.calls == 0 && inst.MayEnter == enter && inst.MayLeave == leave)
		return
	}
	vspec.Ensures("the instance may not be left while arguments are lowered", c.leaveOK)
	vspec.Ensures("the instance may be left while it runs", inside)
	vspec.Ensures("the callee runs once", c.entered == 1)
	vspec.Ensures("the arguments arrive", arrived && zzSameValues(c.ps, c.pv, got))
	if fail {
		vspec.Ensures("an error of the callee is reported", err != nil)
		return
	}
	vspec.Ensures("the results arrive", err == nil && zzSameValues(c.rs, c.rv, res))
	vspec.Ensures("nothing is released before the results are used", c.posted == 0)
	post()
	vspec.Ensures("the results are released once", c.posted == 1)
	vspec.Ensures("the instance may be entered and left again", inst.MayEnter && inst.MayLeave)
}

// Calls out of an instance.
//
//verif:bounded 6000
//verif:props C12 C13
func bounded_CanonLower(seed uint64) {
	c := zzNewCall(vspec.NewGen(seed))
	g, inst := c.g, c.inst
	args, err := LowerValues(c.e.cx, c.maxP, c.pv, c.ps, nil)
	if err != nil {
		return
	}
	n := 0
	for _, t := range c.rs {
		n += len(zzFlat(t))
	}
	tuple := types.NewTuple(c.rs...)
	var ptr uint32
	if n > c.maxR {
		ptr, _ = c.e.cx.Options.Realloc(0, 0, spAlign(tuple), uint32(spSize(tuple)))
		args = append(args, values.U32(ptr))
	}
	calls := c.e.calls
	refuse := false
	if g.Chance(1, 4) {
		inst.MayEnter, inst.MayLeave = g.Bool(), g.Bool()
		refuse = !inst.MayEnter || !inst.MayLeave
	}
	enter, leave := inst.MayEnter, inst.MayLeave
	imported := g.Bool()
	fail := g.Chance(1, 6)
	// a result that keeps a borrow in the caller's table
	keep := !fail && g.Chance(1, 6)
	if keep {
		rt := types.NewResourceType(nil, &types.ComponentInstance{})
		c.rs = []types.ValType{types.NewBorrow(rt)}
		c.rv = []any{uint32(5)}
		c.ft = types.NewFuncType(zzParams(c.ps), zzParams(c.rs))
		c.maxR = 1
	}
	inside := true
	posted := 0
	var got []any
	callee := func(a []any) ([]any, types.PostReturnFunc, error) {
		c.entered++
		inside = inside && inst.MayEnter == !imported && inst.MayLeave
		got = a
		c.lowering = true
		if fail {
			return nil, nil, fmt.Errorf("boom")
		}
		return c.rv, func() { posted++ }, nil
	}
	res, err := CanonLower(c.e.cx.Options, inst, callee, imported, c.ft, args, c.maxP, c.maxR)
	if refuse {
		vspec.Ensures("an instance that may not be entered or left refuses the call", err != nil)
		vspec.Ensures("a refused call runs nothing", c.entered == 0 && c.e.calls == calls && inst.MayEnter == enter && inst.MayLeave == leave)
		return
	}
	vspec.Ensures("the callee runs once", c.entered == 1)
	vspec.Ensures("the instance may not be entered while an import runs", inside)
	vspec.Ensures("the arguments arrive", zzSameValues(c.ps, c.pv, got))
	if fail {
		vspec.Ensures("an error of the callee is reported", err != nil)
		return
	}
	vspec.Ensures("the instance may not be left while results are lowered", c.leaveOK)
	if keep {
		vspec.Ensures("an error from ending the call is reported", err != nil)
		return
	}
	vspec.Ensures("the call succeeds and releases its results once", err == nil && posted == 1)
	vspec.Ensures("the instance may be entered and left again", inst.MayEnter && inst.MayLeave)
	enc := c.e.cx.Options.StringEncoding
	if n > c.maxR {
		ref, ok := zzLoad(enc, c.e.mem(), tuple, uint64(ptr))
		m, _ := ref.(map[string]any)
		for i, t := range c.rs {
			vspec.Ensures("the results arrive at the result pointer", ok && (zzEq(t, c.rv[i], m[zzLabel(tuple, i)]) || zzHasNaN(c.rv[i])))
		}
		return
	}
	cores, ok := zzCores(res)
	vspec.Ensures("flat results", ok && len(cores) == n)
	back, err := LiftValues(c.e.cx, c.maxR, values.NewIterator(cores...), c.rs)
	vspec.Ensures("the results arrive", err == nil && zzSameValues(c.rs, c.rv, back))
}

func zzParams(ts []types.ValType) []types.Parameter {
	var ps []types.Parameter
	for _, t := range ts {
		ps = append(ps, types.Parameter{Name: "p", Type: t})
	}
	return ps
}

// Ending a call into an instance that keeps a borrow.
//
//verif:bounded 1
//verif:props C12
func bounded_CanonLiftExit(seed uint64) {
	c := zzNewCall(vspec.NewGen(seed))
	rt := types.NewResourceType(nil, &types.ComponentInstance{})
	ts := []types.ValType{types.NewBorrow(rt)}
	ft := types.NewFuncType(zzParams(ts), nil)
	_, post, err := CanonLift(c.e.cx.Options, c.inst, func(any) (any, error) { return []any{}, nil }, ft, []any{uint32(5)}, 16, 1)
	reported := err != nil
	if err == nil {
		reported = vspec.Try(post) != ""
	}
	vspec.Ensures("an error from ending a call into an instance is reported", reported)
}
