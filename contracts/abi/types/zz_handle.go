package types

import "github.com/patrickhuber/go-wasm/internal/vspec"

// zzInv is the invariant of a handle table: the free list names distinct empty
// slots.
func zzInv(ht *HandleTable) bool {
	return vspec.Forall(0, len(ht.Free), func(j int) bool {
		return int(ht.Free[j]) < len(ht.Array) && ht.Array[ht.Free[j]] == nil &&
			vspec.Forall(0, j, func(k int) bool { return ht.Free[k] != ht.Free[j] })
	})
}

// zzListed says that slot w, if empty, is on the free list, at pos.
func zzListed(ht *HandleTable, w, pos int) bool {
	if w < 0 || w >= len(ht.Array) || ht.Array[w] != nil {
		return true
	}
	return 0 <= pos && pos < len(ht.Free) && int(ht.Free[pos]) == w
}

func zzSlot(ht *HandleTable, w int) *HandleElem {
	if w < 0 || w >= len(ht.Array) {
		return nil
	}
	return ht.Array[w]
}

func genp_HandleElem(g *vspec.Gen) *HandleElem {
	h := &HandleElem{Rep: uint32(g.Bits(32)), Own: g.Bool()}
	if g.Chance(1, 3) {
		h.LendCount = g.Int(3)
	}
	if !h.Own && g.Bool() {
		h.Scope = &CallContext{BorrowCount: g.Int(3)}
	}
	return h
}

func genp_HandleTable(g *vspec.Gen) *HandleTable {
	ht := &HandleTable{}
	for n := g.Int(6); n > 0; n-- {
		var h *HandleElem
		if g.Bool() {
			h = genp_HandleElem(g)
		} else {
			ht.Free = append(ht.Free, uint32(len(ht.Array)))
		}
		ht.Array = append(ht.Array, h)
	}
	for i := len(ht.Free) - 1; i > 0; i-- {
		j := g.Int(i + 1)
		ht.Free[i], ht.Free[j] = ht.Free[j], ht.Free[i]
	}
	return ht
}

// zzIndex is a table index for the tests, near the ends of the table.
type zzIndex int

func gen_zzIndex(g *vspec.Gen) zzIndex { return zzIndex(g.Int(8) - 1) }

//verif:lemma
//verif:props C10 C11
func lemma_HandleAdd(ht *HandleTable, h *HandleElem, watch, at zzIndex) {
	w, pos := int(watch), int(at)
	vspec.Requires(ht != nil && h != nil)
	vspec.Requires(len(ht.Array) < 1<<32-1)
	vspec.Requires(zzInv(ht))
	vspec.Requires(zzListed(ht, w, pos))
	old, n, free := zzSlot(ht, w), len(ht.Array), len(ht.Free)
	borrows := 0
	if h.Scope != nil {
		borrows = h.Scope.BorrowCount
	}
	lent, rep, own := h.LendCount, h.Rep, h.Own

	i, err := ht.Add(h)

	vspec.Ensures("adding succeeds", err == nil)
	vspec.Ensures("the handle is at its index", int(i) < len(ht.Array) && ht.Array[i] == h)
	vspec.Ensures("a live index is not given out again", vspec.Imp(int(i) == w, old == nil))
	vspec.Ensures("other handles keep their place", vspec.Imp(int(i) != w, zzSlot(ht, w) == old))
	vspec.Ensures("freed indices are reused before the table grows", vspec.Imp(free > 0, len(ht.Array) == n && len(ht.Free) == free-1))
	vspec.Ensures("otherwise the table grows by one", vspec.Imp(free == 0, len(ht.Array) == n+1 && int(i) == n && len(ht.Free) == 0))
	vspec.Ensures("the free list stays valid", zzInv(ht))
	vspec.Ensures("free slots stay listed", zzListed(ht, w, pos))
	vspec.Ensures("the handle is unchanged", h.LendCount == lent && h.Rep == rep && h.Own == own)
	if h.Scope != nil {
		vspec.Ensures("a borrow counts for its call", h.Scope.BorrowCount == borrows+1)
	}
	got, err := ht.Get(i)
	vspec.Ensures("the index looks up the handle", err == nil && got == h)
}

//verif:lemma
//verif:props C10 C11
func lemma_HandleRemove(ht *HandleTable, rt ResourceType, i uint32, watch, at zzIndex) {
	w, pos := int(watch), int(at)
	vspec.Requires(ht != nil)
	vspec.Requires(len(ht.Array) < 1<<32)
	vspec.Requires(zzInv(ht))
	vspec.Requires(zzListed(ht, w, pos))
	old, n, free := zzSlot(ht, w), len(ht.Array), len(ht.Free)
	h := zzSlot(ht, int(i))
	var cx *CallContext
	borrows := 0
	if h != nil {
		cx = h.Scope
		if cx != nil {
			borrows = cx.BorrowCount
		}
	}

	got, err := ht.Remove(rt, i)

	vspec.Ensures("a handle is removed exactly when live and not lent", (err == nil) == (h != nil && h.LendCount == 0))
	vspec.Ensures("the table keeps its length", len(ht.Array) == n)
	vspec.Ensures("the free list stays valid", zzInv(ht))
	if err != nil {
		vspec.Ensures("a refused removal changes nothing", zzSlot(ht, w) == old && len(ht.Free) == free && zzListed(ht, w, pos))
		vspec.Ensures("a refused removal leaves the borrow count", cx == nil || cx.BorrowCount == borrows)
		return
	}
	vspec.Ensures("the removed handle is returned", got == h)
	vspec.Ensures("the index is no longer live", ht.Array[i] == nil)
	vspec.Ensures("other handles keep their place", vspec.Imp(int(i) != w, zzSlot(ht, w) == old))
	if w == int(i) {
		pos = free
	}
	vspec.Ensures("free slots stay listed", len(ht.Free) == free+1 && zzListed(ht, w, pos))
	vspec.Ensures("a borrow no longer counts for its call", cx == nil || cx.BorrowCount == borrows-1)
	_, err = ht.Get(i)
	vspec.Ensures("the index is rejected", err != nil)
}

//verif:lemma
//verif:props C10
func lemma_HandleGet(ht *HandleTable, i uint32, watch zzIndex) {
	vspec.Requires(ht != nil)
	vspec.Requires(len(ht.Array) < 1<<32)
	h := zzSlot(ht, int(i))
	old, n, free := zzSlot(ht, int(watch)), len(ht.Array), len(ht.Free)
	got, err := ht.Get(i)
	vspec.Ensures("exactly the live indices are accepted", (err == nil) == (h != nil))
	vspec.Ensures("the handle at the index is returned", vspec.Imp(err == nil, got == h))
	vspec.Ensures("a look-up changes nothing", zzSlot(ht, int(watch)) == old && len(ht.Array) == n && len(ht.Free) == free)
}

func gen_ResourceType(g *vspec.Gen) ResourceType { return NewResourceType(nil, nil) }

func genp_HandleTables(g *vspec.Gen) *HandleTables {
	hts := &HandleTables{}
	if g.Bool() {
		hts.ResourceTypeToTable = map[ResourceType]*HandleTable{}
		if g.Bool() {
			hts.ResourceTypeToTable[NewResourceType(nil, nil)] = genp_HandleTable(g)
		}
	}
	return hts
}

// Tables of different resource types are independent: every operation on the
// table of one type leaves the table of the other as it was.
//
//verif:lemma
//verif:props C10
func lemma_HandleTables(hts *HandleTables, a, b ResourceType, h *HandleElem, i uint32, watch zzIndex, op uint8) {
	vspec.Requires(hts != nil && h != nil && a != nil && b != nil && a != b)
	ta, oka := hts.ResourceTypeToTable[a]
	tb, okb := hts.ResourceTypeToTable[b]
	vspec.Requires(vspec.Imp(oka, ta != nil && zzInv(ta) && len(ta.Array) < 1<<32-1))
	vspec.Requires(vspec.Imp(okb, tb != nil))
	if oka && okb {
		vspec.Requires(ta != tb && vspec.Disjoint(ta.Array, tb.Array) && vspec.Disjoint(ta.Free, tb.Free))
	}
	var old *HandleElem
	n, free := 0, 0
	if okb {
		old, n, free = zzSlot(tb, int(watch)), len(tb.Array), len(tb.Free)
	}
	switch op % 3 {
	case 0:
		j, err := hts.Add(a, h)
		vspec.Ensures("adding succeeds", err == nil)
		got, err := hts.Get(a, j)
		vspec.Ensures("the handle is found under its type", err == nil && got == h)
		vspec.Ensures("an existing table is used", vspec.Imp(oka, hts.Table(a) == ta))
	case 1:
		var live *HandleElem
		if oka {
			live = zzSlot(ta, int(i))
		}
		got, err := hts.Get(a, i)
		vspec.Ensures("look-up in the table of the type", (err == nil) == (live != nil) && vspec.Imp(err == nil, got == live))
	case 2:
		var live *HandleElem
		if oka {
			live = zzSlot(ta, int(i))
		}
		got, err := hts.Remove(a, i)
		vspec.Ensures("removal from the table of the type", vspec.Imp(err == nil, live != nil && got == live))
	}
	t2 := hts.Table(b)
	vspec.Ensures("the other type's table is kept", vspec.Imp(okb, t2 == tb) && t2 != nil)
	vspec.Ensures("the other type's handles are kept", zzSlot(t2, int(watch)) == old && len(t2.Array) == n && len(t2.Free) == free)
	vspec.Ensures("the tables are distinct", hts.Table(a) != hts.Table(b))
}

// For the contracts of package io.
func ZZInv(ht *HandleTable) bool                 { return zzInv(ht) }
func ZZSlot(ht *HandleTable, w int) *HandleElem  { return zzSlot(ht, w) }
func ZZGenTable(g *vspec.Gen) *HandleTable       { return genp_HandleTable(g) }
func ZZGenCallContext(g *vspec.Gen) *CallContext { return genp_CallContext(g) }
