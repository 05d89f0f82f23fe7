package io

import (
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

func genp_HandleTable(g *vspec.Gen) *types.HandleTable { return types.ZZGenTable(g) }

func genp_CallContext(g *vspec.Gen) *types.CallContext {
	cx := types.ZZGenCallContext(g)
	cx.Instance = genp_ComponentInstance(g)
	return cx
}

func genp_ComponentInstance(g *vspec.Gen) *types.ComponentInstance {
	return &types.ComponentInstance{MayEnter: g.Bool(), MayLeave: g.Bool()}
}

// zzHandle is a table index for the tests.
type zzHandle uint32

func gen_zzHandle(g *vspec.Gen) zzHandle {
	if g.Chance(1, 8) {
		return zzHandle(g.Bits(32))
	}
	return zzHandle(g.Int(6))
}

// zzTable enters t as the table of rt.
func zzTable(inst *types.ComponentInstance, rt types.ResourceType, t *types.HandleTable) {
	vspec.Requires(t != nil && types.ZZInv(t) && len(t.Array) < 1<<32-1)
	if inst.Handles.ResourceTypeToTable == nil {
		inst.Handles.ResourceTypeToTable = map[types.ResourceType]*types.HandleTable{}
	}
	inst.Handles.ResourceTypeToTable[rt] = t
}

//verif:lemma
//verif:props C10 C11
func lemma_LiftOwn(cx *types.CallContext, t *types.HandleTable, n zzHandle) {
	i := uint32(n)
	vspec.Requires(cx != nil && cx.Instance != nil)
	rt := types.NewResourceType(nil, nil)
	zzTable(cx.Instance, rt, t)
	h := types.ZZSlot(t, int(i))
	lenders := len(cx.Lenders)
	lent := 0
	if h != nil {
		lent = h.LendCount
	}

	rep, err := LiftOwn(cx, i, types.NewOwn(rt))

	vspec.Ensures("exactly live, owning, unlent handles are transferred", (err == nil) == (h != nil && h.Own && lent == 0))
	vspec.Ensures("no lend is counted", len(cx.Lenders) == lenders && (h == nil || h.LendCount == lent))
	if err != nil {
		vspec.Ensures("a refused transfer leaves the handle", types.ZZSlot(t, int(i)) == h)
		return
	}
	vspec.Ensures("the representation is lifted", rep == h.Rep)
	vspec.Ensures("the handle is gone", types.ZZSlot(t, int(i)) == nil)
	_, err = LiftOwn(cx, i, types.NewOwn(rt))
	vspec.Ensures("a handle is transferred once", err != nil)
}

//verif:lemma
//verif:props C10 C11
func lemma_LiftBorrow(cx *types.CallContext, t *types.HandleTable, n zzHandle) {
	i := uint32(n)
	vspec.Requires(cx != nil && cx.Instance != nil)
	rt := types.NewResourceType(nil, cx.Instance)
	zzTable(cx.Instance, rt, t)
	h := types.ZZSlot(t, int(i))
	lenders, lent := len(cx.Lenders), 0
	if h != nil {
		lent = h.LendCount
	}
	vspec.Requires(lent >= 0 && lent < 1<<40)

	rep, err := LiftBorrow(cx, i, types.NewBorrow(rt))

	vspec.Ensures("exactly live handles are lent", (err == nil) == (h != nil))
	vspec.Ensures("the handle stays", types.ZZSlot(t, int(i)) == h)
	if err != nil {
		vspec.Ensures("a refused lend is not counted", len(cx.Lenders) == lenders)
		return
	}
	vspec.Ensures("the representation is lifted", rep == h.Rep)
	vspec.Ensures("the lend is counted once", h.LendCount == lent+1 && len(cx.Lenders) == lenders+1 && cx.Lenders[lenders] == h)
	_, err = LiftOwn(cx, i, types.NewOwn(rt))
	vspec.Ensures("a lent handle is not transferred", err != nil && types.ZZSlot(t, int(i)) == h)
	err = CanonResourceDrop(cx.Instance, rt, i)
	vspec.Ensures("a lent handle is not dropped", err != nil && types.ZZSlot(t, int(i)) == h)
}

//verif:lemma
//verif:props C10 C11
func lemma_LowerOwn(cx *types.CallContext, t *types.HandleTable, rep uint32, n zzHandle) {
	vspec.Requires(cx != nil && cx.Instance != nil)
	rt := types.NewResourceType(nil, nil)
	zzTable(cx.Instance, rt, t)
	old := types.ZZSlot(t, int(n))
	borrows := cx.BorrowCount

	i, err := LowerOwn(cx, rep, types.NewOwn(rt))

	vspec.Ensures("lowering succeeds", err == nil)
	h := types.ZZSlot(t, int(i))
	vspec.Ensures("a new owning handle is made", h != nil && h.Own && h.Rep == rep && h.LendCount == 0)
	vspec.Ensures("other handles stay", vspec.Imp(old != nil, int(i) != int(n) && types.ZZSlot(t, int(n)) == old))
	vspec.Ensures("no borrow is counted", cx.BorrowCount == borrows && h.Scope == nil)
	got, err := CanonResourceRep(cx.Instance, rt, i)
	vspec.Ensures("the handle has its representation", err == nil && got == rep)
	got, err = LiftOwn(cx, i, types.NewOwn(rt))
	vspec.Ensures("lifting gives the representation back", err == nil && got == rep)
}

//verif:lemma
//verif:props C10 C11
func lemma_LowerBorrow(cx *types.CallContext, impl *types.ComponentInstance, t *types.HandleTable, rep uint32, n zzHandle) {
	vspec.Requires(cx != nil && cx.Instance != nil)
	if n%4 == 0 {
		impl = cx.Instance
	}
	rt := types.NewResourceType(nil, impl)
	zzTable(cx.Instance, rt, t)
	old := types.ZZSlot(t, int(n))
	borrows, size, free := cx.BorrowCount, len(t.Array), len(t.Free)

	i, err := LowerBorrow(cx, rep, types.NewBorrow(rt))

	vspec.Ensures("lowering succeeds", err == nil)
	if impl == cx.Instance {
		vspec.Ensures("the implementing instance gets the representation", i == rep)
		vspec.Ensures("no handle is made", cx.BorrowCount == borrows && len(t.Array) == size && len(t.Free) == free && types.ZZSlot(t, int(n)) == old)
		return
	}
	h := types.ZZSlot(t, int(i))
	vspec.Ensures("a new borrow handle of the call is made", h != nil && !h.Own && h.Rep == rep && h.LendCount == 0 && h.Scope == cx)
	vspec.Ensures("other handles stay", vspec.Imp(old != nil, int(i) != int(n) && types.ZZSlot(t, int(n)) == old))
	vspec.Ensures("the borrow is counted", cx.BorrowCount == borrows+1)
	got, err := CanonResourceRep(cx.Instance, rt, i)
	vspec.Ensures("the handle has its representation", err == nil && got == rep)
	_, err = LiftOwn(cx, i, types.NewOwn(rt))
	vspec.Ensures("a borrow is not transferred", err != nil && types.ZZSlot(t, int(i)) == h && cx.BorrowCount == borrows+1)
	err = CanonResourceDrop(cx.Instance, rt, i)
	vspec.Ensures("dropping the borrow ends it", err == nil && cx.BorrowCount == borrows && types.ZZSlot(t, int(i)) == nil)
}

//verif:lemma
//verif:props C10 C11
func lemma_ResourceNew(inst *types.ComponentInstance, t *types.HandleTable, rep uint32, n zzHandle) {
	vspec.Requires(inst != nil)
	rt := types.NewResourceType(nil, inst)
	zzTable(inst, rt, t)
	old := types.ZZSlot(t, int(n))

	v, err := CanonResourceNew(inst, rt, rep)

	vspec.Ensures("creation succeeds", err == nil)
	i, ok := v.(uint32)
	vspec.Ensures("an index is returned", ok)
	h := types.ZZSlot(t, int(i))
	vspec.Ensures("a new owning handle is made", h != nil && h.Own && h.Rep == rep && h.LendCount == 0 && h.Scope == nil)
	vspec.Ensures("other handles stay", vspec.Imp(old != nil, int(i) != int(n) && types.ZZSlot(t, int(n)) == old))
}

//verif:lemma
//verif:props C10
func lemma_ResourceRep(inst *types.ComponentInstance, t *types.HandleTable, n zzHandle) {
	i := uint32(n)
	vspec.Requires(inst != nil)
	rt := types.NewResourceType(nil, inst)
	zzTable(inst, rt, t)
	h := types.ZZSlot(t, int(i))
	rep, err := CanonResourceRep(inst, rt, i)
	vspec.Ensures("exactly live indices are accepted", (err == nil) == (h != nil))
	vspec.Ensures("the representation of the handle", err != nil || h == nil || rep == h.Rep)
	vspec.Ensures("the handle stays", types.ZZSlot(t, int(i)) == h)
}

//verif:lemma
//verif:props C10 C11
func lemma_ResourceDrop(inst, impl *types.ComponentInstance, t *types.HandleTable, n zzHandle, kind uint8) {
	i := uint32(n)
	vspec.Requires(inst != nil && impl != nil)
	if kind&1 == 0 {
		impl = inst
	}
	runs, arg := 0, uint32(0)
	var dtor types.DTorFunc
	if kind&2 == 0 {
		dtor = func(rep uint32) { runs++; arg = rep }
	}
	rt := types.NewResourceType(dtor, impl)
	zzTable(inst, rt, t)
	h := types.ZZSlot(t, int(i))

	own, lent, rep, borrows := false, 0, uint32(0), 0
	var cx *types.CallContext
	if h != nil {
		own, lent, rep, cx = h.Own, h.LendCount, h.Rep, h.Scope
		if cx != nil {
			borrows = cx.BorrowCount
		}
	}

	err := CanonResourceDrop(inst, rt, i)

	vspec.Ensures("a drop succeeds exactly when live, unlent and enterable",
		(err == nil) == (h != nil && lent == 0 && (!own || inst == impl || impl.MayEnter)))
	if err != nil {
		vspec.Ensures("a refused drop runs no destructor", runs == 0)
		vspec.Ensures("a refused drop leaves the handle", types.ZZSlot(t, int(i)) == h && (cx == nil || cx.BorrowCount == borrows))
		return
	}
	vspec.Ensures("the handle is gone", types.ZZSlot(t, int(i)) == nil)
	vspec.Ensures("a borrow no longer counts", cx == nil || cx.BorrowCount == borrows-1)
	if own && dtor != nil {
		vspec.Ensures("the destructor runs once", runs == 1 && arg == rep)
	} else {
		vspec.Ensures("no destructor runs for a borrow", runs == 0)
	}
	err = CanonResourceDrop(inst, rt, i)
	vspec.Ensures("a handle is dropped once", err != nil && runs <= 1)
}

// A random history of handle operations against a reference model.
//
//verif:bounded 3000
//verif:props C10 C11
func bounded_HandleHistory(seed uint64) {
	g := vspec.NewGen(seed)
	type model struct {
		rep   uint32
		own   bool
		lent  int
		scope *types.CallContext
	}
	inst := &types.ComponentInstance{MayEnter: true, MayLeave: true}
	host := &types.ComponentInstance{MayEnter: true, MayLeave: true}
	runs := map[uint32]int{}
	dtor := func(rep uint32) { runs[rep]++ }
	rts := []types.ResourceType{types.NewResourceType(dtor, host), types.NewResourceType(dtor, inst), types.NewResourceType(nil, host)}
	live := make([]map[uint32]*model, len(rts))
	size := make([]int, len(rts))
	for i := range live {
		live[i] = map[uint32]*model{}
	}
	type call struct {
		cx   *types.CallContext
		lent []*model
	}
	var calls []*call
	borrows := func(cx *types.CallContext) int {
		n := 0
		for _, m := range live {
			for _, e := range m {
				if e.scope == cx {
					n++
				}
			}
		}
		return n
	}
	next := uint32(1)
	dropped := map[uint32]int{}
	for step := 0; step < 60; step++ {
		if len(calls) == 0 || g.Chance(1, 12) {
			calls = append(calls, &call{cx: &types.CallContext{Instance: inst}})
		}
		c := calls[g.Int(len(calls))]
		r := g.Int(len(rts))
		rt := rts[r]
		i := uint32(g.Int(size[r] + 2))
		m := live[r][i]
		added := func(i uint32, e *model) {
			_, used := live[r][i]
			vspec.Ensures("a live index is not given out again", !used)
			if len(live[r]) < size[r] {
				vspec.Ensures("freed indices are reused first", int(i) < size[r])
			} else {
				vspec.Ensures("the table grows by one", int(i) == size[r])
				size[r]++
			}
			live[r][i] = e
		}
		switch g.Int(8) {
		case 0:
			v, err := CanonResourceNew(inst, rt, next)
			vspec.Ensures("creation succeeds", err == nil)
			added(v.(uint32), &model{rep: next, own: true})
			next++
		case 1:
			v, err := LowerOwn(c.cx, next, types.NewOwn(rt))
			vspec.Ensures("lowering an owned resource succeeds", err == nil)
			added(v, &model{rep: next, own: true})
			next++
		case 2:
			v, err := LowerBorrow(c.cx, next, types.NewBorrow(rt))
			vspec.Ensures("lowering a borrow succeeds", err == nil)
			if rt.Impl() == inst {
				vspec.Ensures("the implementing instance gets the representation", v == next)
			} else {
				added(v, &model{rep: next, scope: c.cx})
			}
			next++
		case 3:
			rep, err := LiftOwn(c.cx, i, types.NewOwn(rt))
			vspec.Ensures("exactly live, owning, unlent handles are transferred", (err == nil) == (m != nil && m.own && m.lent == 0))
			if err == nil {
				vspec.Ensures("the transferred handle has its representation", rep == m.rep)
				delete(live[r], i)
			}
		case 4, 5:
			rep, err := LiftBorrow(c.cx, i, types.NewBorrow(rt))
			vspec.Ensures("exactly live handles are lent", (err == nil) == (m != nil))
			if err == nil {
				vspec.Ensures("the lent handle has its representation", rep == m.rep)
				m.lent++
				c.lent = append(c.lent, m)
			}
		case 6:
			host.MayEnter = !g.Chance(1, 4)
			err := CanonResourceDrop(inst, rt, i)
			ok := m != nil && m.lent == 0 && (!m.own || rt.Impl() == inst || host.MayEnter)
			vspec.Ensures("a drop succeeds exactly when live, unlent and enterable", (err == nil) == ok)
			if ok {
				if m.own && rt.DTor() != nil {
					dropped[m.rep]++
				}
				delete(live[r], i)
			}
		case 7:
			err := c.cx.ExitCall()
			vspec.Ensures("a call ends exactly when no borrow of it is left", (err == nil) == (borrows(c.cx) == 0))
			if err == nil {
				for _, e := range c.lent {
					e.lent--
				}
				c.lent = nil
			}
		}
		for _, c := range calls {
			vspec.Ensures("the borrow count is the number of borrow handles", c.cx.BorrowCount == borrows(c.cx))
		}
		for r, rt := range rts {
			for i := uint32(0); int(i) < size[r]+1; i++ {
				m := live[r][i]
				rep, err := CanonResourceRep(inst, rt, i)
				vspec.Ensures("exactly the live indices are accepted", (err == nil) == (m != nil))
				if m != nil {
					vspec.Ensures("each live handle has its representation", rep == m.rep)
				}
				h, err := inst.Handles.Get(rt, i)
				vspec.Ensures("each live handle has its lend count", err != nil || h.LendCount == m.lent)
			}
		}
		vspec.Ensures("one destructor run per dropped owner", len(runs) == len(dropped))
		for rep, n := range dropped {
			vspec.Ensures("the destructor runs once", runs[rep] == n && n == 1)
		}
	}
}
