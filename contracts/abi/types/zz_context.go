package types

import "github.com/patrickhuber/go-wasm/internal/vspec"

// spCount counts the occurrences of x in the first n entries.
//
//verif:spec
func spCount(l []*HandleElem, n int, x *HandleElem) int {
	if n <= 0 {
		return 0
	}
	c := spCount(l, n-1, x)
	if l[n-1] == x {
		c++
	}
	return c
}

func genp_CallContext(g *vspec.Gen) *CallContext {
	cx := &CallContext{}
	if g.Chance(1, 4) {
		cx.BorrowCount = g.Int(3) - 1
	}
	for n := g.Int(4); n > 0; n-- {
		if len(cx.Lenders) > 0 && g.Bool() {
			cx.Lenders = append(cx.Lenders, cx.Lenders[0])
		} else {
			cx.Lenders = append(cx.Lenders, genp_HandleElem(g))
		}
	}
	return cx
}

//verif:loop ExitCall
func loop_ExitCall(cx *CallContext, x *HandleElem, i, base int) bool {
	return x.LendCount == base-spCount(cx.Lenders, i, x) && i >= 0
}

//verif:lemma
//verif:props C11
func lemma_ExitCall(cx *CallContext, x *HandleElem) {
	vspec.Requires(cx != nil && x != nil)
	vspec.Requires(vspec.Forall(0, len(cx.Lenders), func(i int) bool { return cx.Lenders[i] != nil }))
	zzExit(cx, x)
}

//verif:lemma
//verif:props C11
func lemma_ExitCallLent(cx *CallContext, i zzIndex) {
	vspec.Requires(cx != nil && i >= 0 && int(i) < len(cx.Lenders))
	vspec.Requires(vspec.Forall(0, len(cx.Lenders), func(i int) bool { return cx.Lenders[i] != nil }))
	zzExit(cx, cx.Lenders[i])
}

func zzExit(cx *CallContext, x *HandleElem) {
	base := x.LendCount
	vspec.Bind(x)
	vspec.Bind(base)
	lenders, borrows := cx.Lenders, cx.BorrowCount
	rep, own, scope := x.Rep, x.Own, x.Scope
	err := cx.ExitCall()
	vspec.Ensures("a call with outstanding borrows does not end", (err == nil) == (borrows == 0))
	vspec.Ensures("handles keep their identity", x.Rep == rep && x.Own == own && x.Scope == scope)
	vspec.Ensures("the borrow count is kept", cx.BorrowCount == borrows)
	if err != nil {
		vspec.Ensures("a refused end undoes no lend", x.LendCount == base && len(cx.Lenders) == len(lenders))
		return
	}
	n := spCount(lenders, len(lenders), x)
	vspec.Ensures("each lend is undone", x.LendCount == base-n)
	err = cx.ExitCall()
	vspec.Ensures("each lend is undone once", err == nil && x.LendCount == base-n)
}

//verif:lemma
//verif:props C11
func lemma_Lend(cx *CallContext, h, x *HandleElem) {
	vspec.Requires(cx != nil && h != nil && x != nil)
	n, lent, other := len(cx.Lenders), h.LendCount, x.LendCount
	cx.LiftBorrowFrom(h)
	vspec.Ensures("the lend is counted", h.LendCount == lent+1)
	vspec.Ensures("no other handle is touched", x == h || x.LendCount == other)
	vspec.Ensures("the lend is remembered", len(cx.Lenders) == n+1 && cx.Lenders[n] == h)
}
