package parse

import (
	"math"
	"strings"

	"github.com/patrickhuber/go-wasm/internal/vspec"
)

//verif:contract digitValue
//verif:props C17
func c_digitValue(ch byte) uint64 {
	d := digitValue(ch)
	vspec.Ensures("the value of the digit", d == spDigit(ch))
	vspec.Ensures("an underscore is no digit", ch != '_' || d == math.MaxUint64)
	return d
}

// spDigit is the value of a digit.
//
//verif:def
func spDigit(ch byte) uint64 {
	switch {
	case ch >= '0' && ch <= '9':
		return uint64(ch) - '0'
	case ch >= 'a' && ch <= 'f':
		return uint64(ch) - 'a' + 10
	case ch >= 'A' && ch <= 'F':
		return uint64(ch) - 'A' + 10
	}
	return math.MaxUint64
}

// spDigitsOk says that the characters from i on continue a number v in a base
// that stays within max: digits, with single underscores between two of them.
// spDigits is the number.
//
//verif:spec
func spDigitsOk(s string, base, max uint64, i int, v uint64, digit bool) bool {
	if i < 0 || i >= len(s) {
		return digit
	}
	if s[i] == '_' {
		return digit && spDigitsOk(s, base, max, i+1, v, false)
	}
	d := spDigit(s[i])
	if d >= base || v > (max-d)/base {
		return false
	}
	return spDigitsOk(s, base, max, i+1, v*base+d, true)
}

//verif:spec
func spDigits(s string, base uint64, i int, v uint64) uint64 {
	if i < 0 || i >= len(s) {
		return v
	}
	if s[i] == '_' {
		return spDigits(s, base, i+1, v)
	}
	return spDigits(s, base, i+1, v*base+spDigit(s[i]))
}

func zzMax(bits int) uint64 { return uint64(math.MaxUint64) >> (64 - uint(bits)) }

// zzNaturalOk says that a text is an unsigned literal of at most bits bits.
//
//verif:def
func spNaturalOk(s string, bits int) bool {
	if strings.HasPrefix(s, "0x") {
		return spDigitsOk(s[2:], 16, zzMax(bits), 0, 0, false)
	}
	return spDigitsOk(s, 10, zzMax(bits), 0, 0, false)
}

//verif:def
func spNatural(s string) uint64 {
	if strings.HasPrefix(s, "0x") {
		return spDigits(s[2:], 16, 0, 0)
	}
	return spDigits(s, 10, 0, 0)
}

//verif:loop parseDigits
func loop_Digits(s string, base, max, value uint64, i int, digit bool) bool {
	return i >= 0 && spDigitsOk(s, base, max, i, value, digit) == spDigitsOk(s, base, max, 0, 0, false) && spDigits(s, base, i, value) == spDigits(s, base, 0, 0)
}

//verif:contract parseDigits
//verif:hide spDigit
//verif:props C17
func c_parseDigits(s string, base, max uint64) (uint64, error) {
	vspec.Requires(base == 10 || base == 16)
	u, err := parseDigits(s, base, max)
	vspec.Ensures("accepted exactly when well formed and in range", (err == nil) == spDigitsOk(s, base, max, 0, 0, false))
	vspec.Ensures("the value of the digits", err != nil || u == spDigits(s, base, 0, 0))
	return u, err
}

//verif:contract parseNatural
//verif:props C17
func c_parseNatural(s string, bits int) (uint64, error) {
	vspec.Requires(bits == 23 || bits == 32 || bits == 52 || bits == 64)
	u, err := parseNatural(s, bits)
	vspec.Ensures("accepted exactly when well formed and in range", (err == nil) == spNaturalOk(s, bits))
	vspec.Ensures("the value of the digits", err != nil || u == spNatural(s))
	return u, err
}

//verif:contract parsePayload
//verif:hide spNatural spNaturalOk
//verif:props C17
func c_parsePayload(s string, bits int) (uint64, error) {
	vspec.Requires(bits == 23 || bits == 52)
	u, err := parsePayload(s, bits)
	vspec.Ensures("accepted exactly when well formed, in range and not zero", (err == nil) == (spNaturalOk(s, bits) && spNatural(s) != 0))
	vspec.Ensures("the value of the digits", err != nil || u == spNatural(s))
	return u, err
}

// zzIntegerOk says that a text is an integer literal of a width: a minus for
// half of the range, the rest unsigned.
func zzIntegerOk(s string, bits int) bool {
	if strings.HasPrefix(s, "-") {
		return spNaturalOk(s[1:], bits) && spNatural(s[1:]) <= 1<<(uint(bits)-1)
	}
	if strings.HasPrefix(s, "+") {
		return spNaturalOk(s[1:], bits)
	}
	return spNaturalOk(s, bits)
}

func zzInteger(s string) uint64 {
	if strings.HasPrefix(s, "-") {
		return -spNatural(s[1:])
	}
	if strings.HasPrefix(s, "+") {
		return spNatural(s[1:])
	}
	return spNatural(s)
}

//verif:contract parseInteger
//verif:hide spNatural spNaturalOk
//verif:props C17
func c_parseInteger(s string, bits int) (int64, error) {
	vspec.Requires(bits == 32 || bits == 64)
	i, err := parseInteger(s, bits)
	vspec.Ensures("accepted exactly when well formed and in range", (err == nil) == zzIntegerOk(s, bits))
	vspec.Ensures("the value with its sign", err != nil || uint64(i) == zzInteger(s))
	return i, err
}

// zzApart says that the character is no underscore or stands between two digits.
func zzApart(s string, base uint64, i int) bool {
	return s[i] != '_' || i > 0 && i < len(s)-1 && spDigit(s[i-1]) < base && spDigit(s[i+1]) < base
}

//verif:loop parseFloat
func loop_Apart(s string, base uint64, i int) bool {
	return i >= 0 && vspec.Forall(0, i, func(k int) bool { return zzApart(s, base, k) })
}

// A float literal that is no nan: what the library makes of the text without
// its underscores.
//
//verif:contract parseFloat
//verif:hide spDigit
//verif:props C17 C18
func c_parseFloat(s string, bits int) (float64, error) {
	f, err := parseFloat(s, bits)
	if err == nil {
		vspec.Ensures("an underscore stands between two digits", vspec.Forall(0, len(s), func(k int) bool { return zzApart(s, 16, k) }))
	}
	return f, err
}
