package parse

import (
	"math"
	"math/big"
	"regexp"
	"strings"

	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
)

var zzNatural, zzDecimal, zzHexa, zzPayload *regexp.Regexp

func zzCompile() {
	if zzNatural != nil {
		return
	}
	zzNatural = regexp.MustCompile(`^([0-9](_?[0-9])*|0x[0-9a-fA-F](_?[0-9a-fA-F])*)$`)
	zzDecimal = regexp.MustCompile(`^([0-9](?:_?[0-9])*)(?:\.((?:[0-9](?:_?[0-9])*)?))?(?:[eE]([+-]?[0-9](?:_?[0-9])*))?$`)
	zzHexa = regexp.MustCompile(`^0x([0-9a-fA-F](?:_?[0-9a-fA-F])*)(?:\.((?:[0-9a-fA-F](?:_?[0-9a-fA-F])*)?))?(?:[pP]([+-]?[0-9](?:_?[0-9])*))?$`)
	zzPayload = regexp.MustCompile(`^nan:(0x[0-9a-fA-F](_?[0-9a-fA-F])*)$`)
}

func zzSplit(s string) (bool, string) {
	if s != "" && (s[0] == '+' || s[0] == '-') {
		return s[0] == '-', s[1:]
	}
	return false, s
}

// zzNat is the number an unsigned literal denotes, nil if it is malformed.
func zzNat(s string) *big.Int {
	if !zzNatural.MatchString(s) {
		return nil
	}
	s = strings.ReplaceAll(s, "_", "")
	base := 10
	if strings.HasPrefix(s, "0x") {
		base, s = 16, s[2:]
	}
	n, _ := new(big.Int).SetString(s, base)
	return n
}

// zzInt is the bits of an integer literal of a width.
func zzInt(s string, bits uint) (uint64, bool) {
	negative, s := zzSplit(s)
	n := zzNat(s)
	if n == nil {
		return 0, false
	}
	limit := new(big.Int).Lsh(big.NewInt(1), bits)
	if negative {
		limit.Rsh(limit, 1)
		if n.Cmp(limit) > 0 {
			return 0, false
		}
		n.Sub(new(big.Int).Lsh(big.NewInt(1), 64), n)
		n.And(n, new(big.Int).SetUint64(math.MaxUint64))
		v := n.Uint64()
		if bits == 32 {
			v = uint64(uint32(v))
		}
		return v, true
	}
	if n.Cmp(limit) >= 0 {
		return 0, false
	}
	return n.Uint64(), true
}

// zzFloat is the bits of a float literal of a width.
func zzFloat(s string, bits uint) (uint64, bool) {
	negative, s := zzSplit(s)
	mantissa, top := uint(23), uint64(0xff)
	if bits == 64 {
		mantissa, top = 52, 0x7ff
	}
	var v uint64
	if m := zzPayload.FindStringSubmatch(s); m != nil {
		n := zzNat(m[1])
		if n.Sign() == 0 || n.BitLen() > int(mantissa) {
			return 0, false
		}
		v = top<<mantissa | n.Uint64()
	} else if s == "nan" {
		v = top<<mantissa | 1<<(mantissa-1)
	} else if s == "inf" {
		v = top << mantissa
	} else {
		base, unit := 10, int64(10)
		m := zzDecimal.FindStringSubmatch(s)
		perDigit := 1
		if strings.HasPrefix(s, "0x") {
			base, unit, perDigit = 16, 2, 4
			m = zzHexa.FindStringSubmatch(s)
		}
		if m == nil {
			return 0, false
		}
		whole, frac, exp := strings.ReplaceAll(m[1], "_", ""), strings.ReplaceAll(m[2], "_", ""), strings.ReplaceAll(m[3], "_", "")
		n, _ := new(big.Int).SetString(whole+frac, base)
		e := new(big.Int)
		if exp != "" {
			e.SetString(strings.TrimPrefix(exp, "+"), 10)
		}
		e.Sub(e, big.NewInt(int64(len(frac)*perDigit)))
		r := new(big.Rat).SetInt(n)
		if !e.IsInt64() || e.Int64() > 3000 || e.Int64() < -3000 {
			if n.Sign() != 0 && e.Sign() > 0 {
				return 0, false
			}
			r.SetInt64(0)
		} else {
			p := new(big.Int).Exp(big.NewInt(unit), new(big.Int).Abs(e), nil)
			if e.Sign() < 0 {
				r.Quo(r, new(big.Rat).SetInt(p))
			} else {
				r.Mul(r, new(big.Rat).SetInt(p))
			}
		}
		if bits == 64 {
			f, _ := r.Float64()
			v = math.Float64bits(f)
		} else {
			f, _ := r.Float32()
			v = uint64(math.Float32bits(f))
		}
		if v == top<<mantissa {
			return 0, false
		}
	}
	if negative {
		v |= 1 << (bits - 1)
	}
	return v, true
}

func zzDigits(g *vspec.Gen, hex bool, n int) string {
	var b strings.Builder
	for i := 0; i <= n; i++ {
		if i > 0 && g.Chance(1, 8) {
			b.WriteByte('_')
		}
		if hex {
			b.WriteByte("0123456789abcdefABCDEF00fF"[g.Int(26)])
		} else {
			b.WriteByte("01234567890099"[g.Int(14)])
		}
	}
	return b.String()
}

var zzEdges = []string{"0", "1", "127", "128", "255", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
	"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "16777216", "16777217", "16777219", "9007199254740993",
	"0x7fffffff", "0x80000000", "0x80000001", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0x8000000000000001", "0xffffffffffffffff", "0x10000000000000000",
	"inf", "nan", "nan:0x1", "nan:0x0", "nan:0x200000", "nan:0x400000", "nan:0x7fffff", "nan:0x800000", "nan:0xfffffffffffff", "nan:0x10000000000000", "nan:0x8000000000000",
	"0x1p-149", "0x1p-150", "0x1p-1074", "0x1p-1075", "0x1.fffffep127", "0x1.ffffffp127", "0x1p128", "0x1.fffffffffffffp1023", "0x1p1024", "3.4028234e38", "3.5e38", "1.7976931348623157e308", "1.8e308",
	"010", "08", "1.5", "1.", "1.e3", "1e3", "1E+3", "1e-3", "0.1", "0x1.8", "0x.8", ".5", "1e", "0x", "0x1p", "1_000", "1__0", "1_", "_1", "0_1", "0x_1", "0X1", "0b1", "0o7", "1p3", "infinity", "nan:1", "nan:"}

func zzLiteral(g *vspec.Gen) string {
	var s string
	switch g.Int(8) {
	case 0, 1, 2:
		s = zzEdges[g.Int(len(zzEdges))]
	case 3:
		s = zzDigits(g, false, g.Int(22))
	case 4:
		s = "0x" + zzDigits(g, true, g.Int(18))
	case 5:
		s = zzDigits(g, false, g.Int(18))
		if g.Bool() {
			s += "."
			if g.Chance(3, 4) {
				s += zzDigits(g, false, g.Int(18))
			}
		}
		if g.Bool() {
			s += g.Pick("e", "E") + g.Pick("", "+", "-") + zzDigits(g, false, g.Int(2))
		}
	case 6:
		s = "0x" + zzDigits(g, true, g.Int(14))
		if g.Bool() {
			s += "."
			if g.Chance(3, 4) {
				s += zzDigits(g, true, g.Int(14))
			}
		}
		if g.Bool() {
			s += g.Pick("p", "P") + g.Pick("", "+", "-") + zzDigits(g, false, g.Int(3))
		}
	case 7:
		s = "nan:0x" + zzDigits(g, true, g.Int(14))
	}
	s = g.Pick("", "", "-", "+") + s
	for g.Chance(1, 4) {
		i := g.Int(len(s) + 1)
		c := g.Pick("0", "1", "9", "a", "f", "x", "_", "_", "+", "-", ".", "e", "p", "n", ":")
		if i < len(s) && g.Bool() {
			s = s[:i] + s[i+1:]
		} else {
			s = s[:i] + c + s[i:]
		}
	}
	if s == "" {
		s = "0"
	}
	return s
}

// patterns for results, not literals
func zzPattern(s string) bool {
	_, s = zzSplit(s)
	return s == "nan:canonical" || s == "nan:arithmetic"
}

// A literal as the operand of each width, as an index and as a limit.
//
//verif:bounded 20000
//verif:props C17
func bounded_Literal(seed uint64) {
	zzCompile()
	g := vspec.NewGen(seed)
	s := zzLiteral(g)
	if zzPattern(s) {
		return
	}
	text := s + g.Pick(")", " )", "\n", " ;; x\n", "")

	i32, err := ParseInt32(lex.New(text))
	want, ok := zzInt(s, 32)
	vspec.Ensures("a 32 bit integer is accepted exactly when it is well formed and in range", (err == nil) == ok)
	vspec.Ensures("a 32 bit integer has its value", !ok || i32 == int32(uint32(want)))

	i64, err := ParseInt64(lex.New(text))
	want, ok = zzInt(s, 64)
	vspec.Ensures("a 64 bit integer is accepted exactly when it is well formed and in range", (err == nil) == ok)
	vspec.Ensures("a 64 bit integer has its value", !ok || i64 == int64(want))

	f32, err := ParseFloat32(lex.New(text))
	want, ok = zzFloat(s, 32)
	vspec.Ensures("a 32 bit float is accepted exactly when it is well formed and in range", (err == nil) == ok)
	vspec.Ensures("a 32 bit float has its value", !ok || math.Float32bits(f32) == uint32(want))

	f64, err := ParseFloat64(lex.New(text))
	want, ok = zzFloat(s, 64)
	vspec.Ensures("a 64 bit float is accepted exactly when it is well formed and in range", (err == nil) == ok)
	vspec.Ensures("a 64 bit float has its value", !ok || math.Float64bits(f64) == want)

	n := zzNat(s)
	ok = n != nil && n.BitLen() <= 32
	inst := func(text string) (ast.Instruction, error) {
		d, err := Parse(lex.New("(module (func (" + text + ")))"))
		if err != nil {
			return nil, err
		}
		m := d.(*ast.Module)
		vspec.Ensures("the function is read", len(m.Functions) == 1 && len(m.Functions[0].Instructions) == 1)
		return m.Functions[0].Instructions[0], nil
	}
	for _, op := range []string{"local.get", "local.set", "local.tee", "global.get", "global.set", "br", "br_if", "call"} {
		in, err := inst(op + " " + s)
		vspec.Ensures("an index is accepted exactly when it is well formed and in range", (err == nil) == ok)
		if err != nil {
			continue
		}
		var x ast.Index
		switch in := in.(type) {
		case ast.LocalGet:
			x = in.Index
		case ast.LocalSet:
			x = in.Index
		case ast.LocalTee:
			x = in.Index
		case ast.GlobalGet:
			x = in.Index
		case ast.GlobalSet:
			x = in.Index
		case ast.Br:
			x = in.Index
		case ast.BrIf:
			x = in.Index
		case ast.Call:
			x = in.Index
		}
		raw, isRaw := x.(*ast.RawIndex)
		vspec.Ensures("an index has its value", isRaw && uint64(raw.Index) == n.Uint64())
	}
	for i, form := range []string{"(module (memory X))", "(module (memory 1 X))", "(module (table X funcref))", "(module (table 1 X externref))"} {
		d, err := Parse(lex.New(strings.ReplaceAll(form, "X", s)))
		vspec.Ensures("a limit is accepted exactly when it is well formed and in range", (err == nil) == ok)
		if err != nil {
			continue
		}
		m := d.(*ast.Module)
		var l ast.Limits
		if i < 2 {
			vspec.Ensures("the memory is read", len(m.Memory) == 1)
			l = m.Memory[0].Limits
		} else {
			vspec.Ensures("the table is read", len(m.Tables) == 1)
			l = m.Tables[0].TableType.Limits
		}
		if i%2 == 0 {
			vspec.Ensures("a lower limit has its value", uint64(l.Min) == n.Uint64() && !l.Max.IsSome())
		} else {
			vspec.Ensures("an upper limit has its value", l.Min == 1 && l.Max.IsSome() && uint64(l.Max.Unwrap()) == n.Uint64())
		}
	}
	in, err := inst("i32.const " + s)
	want, ok = zzInt(s, 32)
	vspec.Ensures("the operand of i32.const", (err == nil) == ok && (!ok || in.(ast.I32Const).Value == int32(uint32(want))))
	in, err = inst("i64.const " + s)
	want, ok = zzInt(s, 64)
	vspec.Ensures("the operand of i64.const", (err == nil) == ok && (!ok || in.(ast.I64Const).Value == int64(want)))
	in, err = inst("f32.const " + s)
	want, ok = zzFloat(s, 32)
	vspec.Ensures("the operand of f32.const", (err == nil) == ok && (!ok || math.Float32bits(in.(ast.F32Const).Value) == uint32(want)))
	in, err = inst("f64.const " + s)
	want, ok = zzFloat(s, 64)
	vspec.Ensures("the operand of f64.const", (err == nil) == ok && (!ok || math.Float64bits(in.(ast.F64Const).Value) == want))
}
