// Package vspec is the specification vocabulary of the contracts.  The verifier
// gives these functions their logical meaning; executed normally they check the
// specification on the concrete values.
package vspec

import (
	"fmt"
	"reflect"
)

// Skip is the panic value of a precondition that does not hold.
type Skip struct{ Where string }

// Violation is the panic value of a postcondition that does not hold.
type Violation struct{ Name string }

func (v Violation) Error() string { return "violated: " + v.Name }

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Assume states a fact that is not checked; it is listed in the evidence.
func Assume(name string, b bool) {
	if !b {
		panic(Skip{name})
	}
}

// Ensures states a postcondition.
func Ensures(name string, b bool) {
	if !b {
		panic(Violation{name})
	}
}

// Assert is a proof step.
func Assert(name string, b bool) {
	if !b {
		panic(Violation{"step " + name})
	}
}

// Imp is implication.
func Imp(a, b bool) bool { return !a || b }

// Proof runs a proof script; it has no meaning at run time.
func Proof(func()) {}

// Decreases gives the measure of a recursive function.
func Decreases(int) {}

// Descends gives the measure of a function of a group that call each other:
// every call within the group decreases it or keeps it and has a lower rank.
func Descends(measure, rank int) {}

// Modifies lists the locations the function may change.
func Modifies(...any) {}

// ModifiesKind permits changes of the fields of every object of the pointers'
// types, and of the elements of every slice of the slices' types.
func ModifiesKind(...any) {}

// ModifiesAny permits every change.
func ModifiesAny() {}

// Unroll sets the unrolling bound of loops with a decided trip count.
func Unroll(int) {}

// Forall is universal quantification over lo <= k < hi.
func Forall(lo, hi int, p func(k int) bool) bool {
	for k := lo; k < hi; k++ {
		if k-lo == 4096 {
			return true // a concrete run samples a range this long
		}
		if !p(k) {
			return false
		}
	}
	return true
}

// Exists is existential quantification over lo <= k < hi.
func Exists(lo, hi int, p func(k int) bool) bool {
	for k := lo; k < hi; k++ {
		if p(k) {
			return true
		}
	}
	return false
}

// Fresh says that the reference was allocated by the call.
func Fresh(any) bool { return true }

// SameArray says that two byte slices start at the same cell.
func SameArray(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return cap(a) == cap(b)
	}
	return &a[:1][0] == &b[:1][0]
}

// Bind names a value for the invariants of the loops that follow.
func Bind(v any) {}

// Disjoint says that two slices do not share cells.
func Disjoint(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Cap() == 0 || y.Cap() == 0 {
		return true
	}
	return x.Pointer() != y.Pointer()
}

// Gen is a deterministic source of test values.
type Gen struct {
	s     uint64
	Size  int
	Trace []string
}

// NewGen seeds a generator.
func NewGen(seed uint64) *Gen {
	g := &Gen{s: seed*0x9e3779b97f4a7c15 + 0x1234567, Size: 4}
	g.Next()
	return g
}

// Next returns 64 random bits.
func (g *Gen) Next() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Int returns a number in [0,n).
func (g *Gen) Int(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.Next() % uint64(n))
}

// Bool returns a coin flip.
func (g *Gen) Bool() bool { return g.Next()&1 == 1 }

// Chance is true k times out of n.
func (g *Gen) Chance(k, n int) bool { return g.Int(n) < k }

// Bits returns a number of the given width, biased to boundary values.
func (g *Gen) Bits(w uint) uint64 {
	m := uint64(1)<<w - 1
	if w >= 64 {
		m = ^uint64(0)
	}
	switch g.Int(8) {
	case 0:
		return uint64(g.Int(4)) & m
	case 1:
		return (m - uint64(g.Int(4))) & m
	case 2: // around a power of two
		return ((uint64(1) << uint(g.Int(int(w)))) + uint64(g.Int(5)) - 2) & m
	case 3:
		return uint64(g.Int(64)) & m
	case 4:
		return uint64(g.Int(70000)) & m
	case 5:
		k := uint(g.Int(int(w))) + 1
		if k >= 64 {
			return g.Next() & m
		}
		return g.Next() & (uint64(1)<<k - 1) & m
	}
	return g.Next() & m
}

// Bytes returns up to n bytes.
func (g *Gen) Bytes(n int) []byte {
	b := make([]byte, g.Int(n+1))
	mode := g.Int(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.Next())
		case 1:
			b[i] = byte(g.Bits(8))
		case 2:
			b[i] = byte(g.Int(4))
		default:
			if g.Bool() {
				b[i] = byte(g.Next()) | 0x80
			} else {
				b[i] = byte(g.Next())
			}
		}
	}
	return b
}

// Pick chooses one of the strings.
func (g *Gen) Pick(ss ...string) string { return ss[g.Int(len(ss))] }

// String returns a short string of mixed runes.
func (g *Gen) String() string {
	n := g.Int(9)
	s := ""
	mode := g.Int(4)
	for i := 0; i < n; i++ {
		switch {
		case mode == 0 || g.Chance(1, 2):
			s += string(rune(0x20 + g.Int(95)))
		case mode == 1:
			s += string(rune(0x80 + g.Int(0x80)))
		case mode == 2:
			s += string(rune(0x100 + g.Int(0x700)))
		default:
			s += string([]rune{0x0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}[g.Int(14)])
		}
	}
	return s
}

// Try runs f and reports how it ended: "" (fine), "skip", or a violation.
func Try(f func()) (res string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case Skip:
			res = "skip"
		case Violation:
			res = "violated: " + r.Name
		default:
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}
