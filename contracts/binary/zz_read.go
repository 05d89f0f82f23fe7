package binary

import (
	"errors"
	"io"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// zzSrc is a byte source: it delivers the bytes of data one at a time and then
// reports the end, or a failure.
type zzSrc struct {
	data string
	pos  int
	fail bool
}

var errSrc = errors.New("source failure")

func (s *zzSrc) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		if s.fail {
			return 0, errSrc
		}
		return 0, io.EOF
	}
	b[0] = s.data[s.pos]
	s.pos++
	return 1, nil
}

func genp_zzSrc(g *vspec.Gen) *zzSrc {
	b := g.Bytes(g.Int(12))
	if g.Bool() {
		for i := range b {
			switch g.Int(6) {
			case 0:
				b[i] = byte(g.Int(4))
			case 1:
				b[i] = 0x7c + byte(g.Int(4))
			case 2:
				b[i] = []byte{0x0b, 0x20, 0x6a, 0x60}[g.Int(4)]
			}
		}
	}
	return &zzSrc{data: string(b), pos: g.Int(2) * g.Int(len(b)+1), fail: g.Chance(1, 8)}
}

func gen_Reader(g *vspec.Gen) io.Reader { return genp_zzSrc(g) }

// zzSource says that a reader is a byte source at a position of its data.
func zzSource(r io.Reader) bool {
	s, ok := r.(*zzSrc)
	return ok && s != nil && s.pos >= 0 && s.pos <= len(s.data)
}

// spLebEnd is the position behind the LEB128 encoding at position p of s, -1 if there is none.
//
//verif:def
func spLebEnd(s string, p int) int {
	if p < 0 || p >= len(s) {
		return -1
	}
	if s[p] < 0x80 {
		return p + 1
	}
	if p+1 >= len(s) {
		return -1
	}
	if s[p+1] < 0x80 {
		return p + 2
	}
	if p+2 >= len(s) {
		return -1
	}
	if s[p+2] < 0x80 {
		return p + 3
	}
	if p+3 >= len(s) {
		return -1
	}
	if s[p+3] < 0x80 {
		return p + 4
	}
	if p+4 >= len(s) || s[p+4] > 0x0f {
		return -1
	}
	return p + 5
}

// spLeb is the value encoded at position p of s, 0 if there is none.
//
//verif:def
func spLeb(s string, p int) uint32 {
	n := spLebEnd(s, p) - p
	if n < 1 {
		return 0
	}
	v := uint32(s[p] & 0x7f)
	if n > 1 {
		v |= uint32(s[p+1]&0x7f) << 7
	}
	if n > 2 {
		v |= uint32(s[p+2]&0x7f) << 14
	}
	if n > 3 {
		v |= uint32(s[p+3]&0x7f) << 21
	}
	if n > 4 {
		v |= uint32(s[p+4]&0x7f) << 28
	}
	return v
}

//verif:contract ReadByte
//verif:props C02
func c_ReadByte(reader io.Reader) (byte, error) {
	vspec.Requires(zzSource(reader))
	s := reader.(*zzSrc)
	vspec.Modifies(&s.pos)
	p := s.pos
	b, err := ReadByte(reader)
	vspec.Ensures("a byte unless the source has ended", (err == nil) == (p < len(s.data)))
	vspec.Ensures("the byte at the position", err != nil || b == s.data[p] && s.pos == p+1)
	vspec.Ensures("nothing is taken at the end", err == nil || s.pos == p)
	vspec.Ensures("the end is told from a failure", err == nil || errors.Is(err, io.EOF) == !s.fail)
	return b, err
}

//verif:contract ReadLebU128
//verif:props C02
func c_ReadLeb(reader io.Reader) (uint32, error) {
	vspec.Requires(zzSource(reader))
	s := reader.(*zzSrc)
	vspec.Modifies(&s.pos)
	p := s.pos
	v, err := ReadLebU128(reader)
	end := spLebEnd(s.data, p)
	vspec.Ensures("a number is read exactly when there is one", (err == nil) == (end >= 0))
	vspec.Ensures("a number that is cut off is no regular end", err == nil || !errors.Is(err, io.EOF))
	vspec.Ensures("the number at the position", err != nil || v == spLeb(s.data, p))
	vspec.Ensures("the number is taken", err != nil || s.pos == end && end > p)
	vspec.Ensures("the source stays usable", s.pos >= p && s.pos <= len(s.data))
	return v, err
}

//verif:lemma
//verif:props C02
func lemma_ReadUInt16(src *zzSrc) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	v, err := ReadUInt16(src)
	vspec.Ensures("two bytes or an error", (err == nil) == (p+2 <= len(src.data)))
	if err == nil {
		vspec.Ensures("little endian", v == uint16(src.data[p])|uint16(src.data[p+1])<<8 && src.pos == p+2)
	}
}

// zzValType is the value type a byte stands for.
func zzValType(b byte) api.ValType {
	switch b {
	case 0x7f:
		return api.I32Type
	case 0x7e:
		return api.I64Type
	case 0x7d:
		return api.F32Type
	case 0x7c:
		return api.F64Type
	}
	return nil
}

//verif:contract ReadValueType
//verif:props C02
func c_ReadValueType(reader io.Reader) (api.ValType, error) {
	vspec.Requires(zzSource(reader))
	s := reader.(*zzSrc)
	vspec.Modifies(&s.pos)
	p := s.pos
	v, err := ReadValueType(reader)
	vspec.Ensures("a value type or an error", (err == nil) == (p < len(s.data) && zzValType(s.data[p]) != nil))
	vspec.Ensures("the value type at the position", err != nil || v == zzValType(s.data[p]) && s.pos == p+1)
	vspec.Ensures("the source stays usable", s.pos >= p && s.pos <= len(s.data))
	return v, err
}

type zzFrom int

//verif:loop ReadValueTypeVector
func loop_Vector(src *zzSrc, start zzFrom, valueTypes []api.ValType, i uint32) bool {
	return src.pos == int(start)+int(i) && src.pos <= len(src.data) && len(valueTypes) == int(i) && zzTypes(src.data, int(start), valueTypes)
}

func zzTypes(data string, p int, ts []api.ValType) bool {
	return p >= 0 && p+len(ts) <= len(data) && vspec.Forall(0, len(ts), func(i int) bool { return ts[i] == zzValType(data[p+i]) && ts[i] != nil })
}

//verif:contract ReadValueTypeVector
//verif:hide spLeb spLebEnd
//verif:props C02
func c_ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
	vspec.Requires(zzSource(reader))
	s := reader.(*zzSrc)
	vspec.Modifies(&s.pos)
	p := s.pos
	at := spLebEnd(s.data, p)
	vspec.Bind(zzFrom(at))
	vspec.Bind(s)
	ts, err := ReadValueTypeVector(reader)
	vspec.Ensures("the source stays usable", s.pos >= p && s.pos <= len(s.data))
	if err != nil {
		return ts, err
	}
	vspec.Ensures("there is a count", at >= 0)
	vspec.Ensures("as many as the count says", len(ts) == int(spLeb(s.data, p)))
	vspec.Ensures("the value types in order", zzTypes(s.data, at, ts))
	vspec.Ensures("all of them are taken", s.pos == at+len(ts))
	return ts, err
}

// zzInst says that an instruction is the one encoded between two positions.
func zzInst(data string, p, end int, inst api.Instruction) bool {
	if p < 0 || p >= len(data) {
		return false
	}
	switch data[p] {
	case 0x0b:
		_, ok := inst.(api.End)
		return ok && end == p+1
	case 0x6a:
		_, ok := inst.(api.I32Add)
		return ok && end == p+1
	case 0x20:
		get, ok := inst.(api.LocalGet)
		return ok && uint32(get.Index) == spLeb(data, p+1) && end == spLebEnd(data, p+1)
	}
	return false
}

//verif:contract ReadInstruction
//verif:hide spLeb spLebEnd
//verif:props C02
func c_ReadInstruction(reader io.Reader) (api.Instruction, error) {
	vspec.Requires(zzSource(reader))
	src := reader.(*zzSrc)
	vspec.Modifies(&src.pos)
	p := src.pos
	inst, err := ReadInstruction(reader)
	known := p < len(src.data) && (src.data[p] == 0x0b || src.data[p] == 0x6a || src.data[p] == 0x20 && spLebEnd(src.data, p+1) >= 0)
	vspec.Ensures("an instruction or an error", (err == nil) == known)
	vspec.Ensures("the instruction at the position", err != nil || zzInst(src.data, p, src.pos, inst))
	vspec.Ensures("the source stays usable", src.pos >= p && src.pos <= len(src.data) && (err != nil || src.pos > p))
	return inst, err
}

// spInst is the position of the i-th instruction from position p on.
//
//verif:spec
func spInst(data string, p, i int) int {
	if i <= 0 {
		return p
	}
	q := spInst(data, p, i-1)
	if q >= 0 && q < len(data) && data[q] == 0x20 {
		return spLebEnd(data, q+1)
	}
	return q + 1
}

//verif:loop ReadExpression
func loop_Place(src *zzSrc, start zzFrom, insts []api.Instruction) bool {
	return src.pos == spInst(src.data, int(start), len(insts)) && src.pos >= int(start) && src.pos <= len(src.data)
}

// zzWatched says what is known of instruction k.
func zzWatched(data string, p, k int, insts []api.Instruction) bool {
	if k < 0 || k >= len(insts) {
		return true
	}
	return zzInst(data, spInst(data, p, k), spInst(data, p, k+1), insts[k])
}

//verif:loop ReadExpression
func loop_Watched(src *zzSrc, start zzFrom, k zzWatch, insts []api.Instruction) bool {
	return zzWatched(src.data, int(start), int(k), insts)
}

//verif:loop ReadExpression
func loop_Inner(src *zzSrc, start zzFrom, k zzWatch, insts []api.Instruction) bool {
	return int(k) < 0 || int(k) >= len(insts) || !zzEnds(src.data, spInst(src.data, int(start), int(k)))
}

func zzEnds(data string, p int) bool { return p >= 0 && p < len(data) && data[p] == 0x0b }

type zzWatch int

// Every instruction k of the expression.
//
//verif:lemma
//verif:hide spLeb spLebEnd
//verif:props C02
func lemma_ReadExpression(src *zzSrc, k int) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	vspec.Bind(zzFrom(p))
	vspec.Bind(zzWatch(k))
	e, err := ReadExpression(src)
	vspec.Ensures("the source stays usable", zzSource(src))
	if err != nil {
		return
	}
	n := len(e.Instructions)
	vspec.Ensures("the expression ends with an end", n > 0 && zzEnds(src.data, spInst(src.data, p, n-1)))
	vspec.Ensures("nothing before it ends the expression", k < 0 || k >= n-1 || !zzEnds(src.data, spInst(src.data, p, k)))
	vspec.Ensures("the instructions in order", zzWatched(src.data, p, k, e.Instructions))
	vspec.Ensures("all of them are taken", src.pos == spInst(src.data, p, n))
}

// spVector is the position behind the list of value types at a position.
//
//verif:def
func spVector(data string, p int) int { return spLebEnd(data, p) + int(spLeb(data, p)) }

// zzType says that a function type is the one at a position.
func zzType(data string, p int, t *api.FuncType) bool {
	if t == nil || p < 0 || p >= len(data) || data[p] != 0x60 {
		return false
	}
	a, q := spLebEnd(data, p+1), spVector(data, p+1)
	b := spLebEnd(data, q)
	return a >= 0 && len(t.Parameters.Types) == int(spLeb(data, p+1)) && zzTypes(data, a, t.Parameters.Types) &&
		b >= 0 && len(t.Returns.Types) == int(spLeb(data, q)) && zzTypes(data, b, t.Returns.Types)
}

//verif:contract ReadType
//verif:hide spLeb spLebEnd
//verif:props C02
func c_ReadType(reader io.Reader) (*api.FuncType, error) {
	vspec.Requires(zzSource(reader))
	src := reader.(*zzSrc)
	vspec.Modifies(&src.pos)
	p := src.pos
	t, err := ReadType(reader)
	vspec.Ensures("the source stays usable", src.pos >= p && src.pos <= len(src.data))
	vspec.Ensures("the type at the position", err != nil || zzType(src.data, p, t))
	vspec.Ensures("the type is taken", err != nil || src.pos == spVector(src.data, spVector(src.data, p+1)))
	vspec.Ensures("a type of its own", err != nil || vspec.Fresh(t))
	return t, err
}

// spTypes is the position behind i function types.
//
//verif:spec
func spTypes(data string, p, i int) int {
	if i <= 0 {
		return p
	}
	return spVector(data, spVector(data, spTypes(data, p, i-1)+1))
}

type zzItem int

// zzTypeAt says that a function type has the counts at a position, and its
// parameter and result j the types there.
func zzTypeAt(data string, p, j int, t *api.FuncType) bool {
	if t == nil || p < 0 || p >= len(data) || data[p] != 0x60 {
		return false
	}
	a, q := spLebEnd(data, p+1), spVector(data, p+1)
	b := spLebEnd(data, q)
	return len(t.Parameters.Types) == int(spLeb(data, p+1)) && zzTypesAt(data, a, j, t.Parameters.Types) &&
		len(t.Returns.Types) == int(spLeb(data, q)) && zzTypesAt(data, b, j, t.Returns.Types)
}

func zzTypesAt(data string, p, j int, ts []api.ValType) bool {
	return p >= 0 && p+len(ts) <= len(data) && (j < 0 || j >= len(ts) || ts[j] == zzValType(data[p+j]))
}

func zzFuncTypes(data string, p, k, j int, ts []*api.FuncType) bool {
	return k < 0 || k >= len(ts) || zzTypeAt(data, spTypes(data, p, k), j, ts[k])
}

//verif:loop ReadFuncTypes
func loop_FuncTypes(src *zzSrc, start zzFrom, types []*api.FuncType, i uint32) bool {
	return len(types) == int(i) && src.pos == spTypes(src.data, int(start), int(i)) && src.pos >= int(start) && src.pos <= len(src.data)
}

//verif:loop ReadFuncTypes
func loop_FuncType(src *zzSrc, start zzFrom, k zzWatch, j zzItem, types []*api.FuncType, i uint32) bool {
	return len(types) == int(i) && zzFuncTypes(src.data, int(start), int(k), int(j), types)
}

// Every parameter and result j of every function type k of the section.
//
//verif:lemma
//verif:hide spLeb spLebEnd spVector
//verif:props C02
func lemma_ReadFuncTypes(src *zzSrc, size uint32, k, j int) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	at := spLebEnd(src.data, p)
	vspec.Bind(zzFrom(at))
	vspec.Bind(zzWatch(k))
	vspec.Bind(zzItem(j))
	ts, err := ReadFuncTypes(size, src)
	vspec.Ensures("the source stays usable", zzSource(src))
	if err != nil {
		return
	}
	vspec.Ensures("as many as the count says", at >= 0 && len(ts) == int(spLeb(src.data, p)))
	vspec.Ensures("the types in order", zzFuncTypes(src.data, at, k, j, ts))
	vspec.Ensures("all of them are taken", src.pos == spTypes(src.data, at, len(ts)))
}

// spGroups is the position behind i groups of locals, spLocals their number
// and spLocal the type of local k of them.
//
//verif:spec
func spGroups(data string, p, i int) int {
	if i <= 0 {
		return p
	}
	return spLebEnd(data, spGroups(data, p, i-1)) + 1
}

//verif:spec
func spLocals(data string, p, i int) int {
	if i <= 0 {
		return 0
	}
	return spLocals(data, p, i-1) + int(spLeb(data, spGroups(data, p, i-1)))
}

//verif:spec
func spLocal(data string, p, i, k int) byte {
	if i <= 0 {
		return 0
	}
	if k < spLocals(data, p, i-1) {
		return spLocal(data, p, i-1, k)
	}
	if q := spGroups(data, p, i) - 1; q >= 0 && q < len(data) {
		return data[q]
	}
	return 0
}

func zzLocals(data string, p, i, k int, ls []api.ValType) bool {
	return k < 0 || k >= len(ls) || ls[k] == zzValType(spLocal(data, p, i, k)) && ls[k] != nil
}

//verif:loop ReadLocals
func loop_Locals(src *zzSrc, start zzFrom, locals []api.ValType, i uint32) bool {
	return len(locals) == spLocals(src.data, int(start), int(i)) && src.pos == spGroups(src.data, int(start), int(i)) && src.pos >= int(start) && src.pos <= len(src.data)
}

//verif:loop ReadLocals
func loop_Local(src *zzSrc, start zzFrom, k zzWatch, locals []api.ValType, i uint32) bool {
	return len(locals) == spLocals(src.data, int(start), int(i)) && zzLocals(src.data, int(start), int(i), int(k), locals)
}

//verif:loop ReadLocals
func loop_Group(src *zzSrc, start zzFrom, locals []api.ValType, count, i uint32) bool {
	return len(locals)+int(count) == spLocals(src.data, int(start), int(i)+1) && len(locals) >= spLocals(src.data, int(start), int(i))
}

//verif:loop ReadLocals
func loop_GroupOld(src *zzSrc, start zzFrom, k zzWatch, locals []api.ValType, count, i uint32) bool {
	return len(locals) >= spLocals(src.data, int(start), int(i)) && (int(k) >= spLocals(src.data, int(start), int(i)) || zzLocals(src.data, int(start), int(i), int(k), locals))
}

//verif:loop ReadLocals
func loop_GroupNew(src *zzSrc, start zzFrom, k zzWatch, locals []api.ValType, vt api.ValType, count, i uint32) bool {
	return len(locals) >= spLocals(src.data, int(start), int(i)) && (k < 0 || int(k) < spLocals(src.data, int(start), int(i)) || int(k) >= len(locals) || locals[k] == vt)
}

// Every local k of the function.
//
//verif:lemma
//verif:hide spLeb spLebEnd
//verif:props C02
func lemma_ReadLocals(src *zzSrc, k int) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	at := spLebEnd(src.data, p)
	vspec.Bind(zzFrom(at))
	vspec.Bind(zzWatch(k))
	ls, err := ReadLocals(src)
	vspec.Ensures("the source stays usable", zzSource(src))
	if err != nil {
		return
	}
	n := int(spLeb(src.data, p))
	vspec.Ensures("as many as the groups say", at >= 0 && len(ls) == spLocals(src.data, at, n))
	vspec.Ensures("the locals in order", zzLocals(src.data, at, n, k, ls))
	vspec.Ensures("all of them are taken", src.pos == spGroups(src.data, at, n))
}

// spLebs is the position behind i consecutive numbers.
//
//verif:spec
func spLebs(data string, p, i int) int {
	if i <= 0 {
		return p
	}
	return spLebEnd(data, spLebs(data, p, i-1))
}

func zzFuncs(data string, p int, fs []*api.Func) bool {
	return vspec.Forall(0, len(fs), func(i int) bool {
		return fs[i] != nil && uint32(fs[i].Type) == spLeb(data, spLebs(data, p, i))
	})
}

//verif:loop ReadFuncs
func loop_Funcs(src *zzSrc, start zzFrom, funcs []*api.Func, i uint32) bool {
	return len(funcs) == int(i) && src.pos == spLebs(src.data, int(start), int(i)) && src.pos >= int(start) && src.pos <= len(src.data) && zzFuncs(src.data, int(start), funcs)
}

//verif:lemma
//verif:hide spLeb spLebEnd
//verif:props C02
func lemma_ReadFuncs(src *zzSrc, size uint32) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	at := spLebEnd(src.data, p)
	vspec.Bind(zzFrom(at))
	fs, err := ReadFuncs(size, src)
	vspec.Ensures("the source stays usable", zzSource(src))
	if err != nil {
		return
	}
	vspec.Ensures("as many as the count says", at >= 0 && len(fs) == int(spLeb(src.data, p)))
	vspec.Ensures("the type indices in order", zzFuncs(src.data, at, fs))
	vspec.Ensures("all of them are taken", src.pos == spLebs(src.data, at, len(fs)))
}

//verif:lemma
//verif:hide spLeb spLebEnd
//verif:props C02
func lemma_ReadSectionHeader(src *zzSrc) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	id, size, err := ReadSectionHeader(src)
	vspec.Ensures("a header or an error", (err == nil) == (p < len(src.data) && spLebEnd(src.data, p+1) >= 0))
	vspec.Ensures("the end of the module is told from a header that is cut off", err == nil || errors.Is(err, io.EOF) == (p == len(src.data) && !src.fail))
	if err == nil {
		vspec.Ensures("the section and its size", byte(id) == src.data[p] && size == spLeb(src.data, p+1) && src.pos == spLebEnd(src.data, p+1))
	}
}

//verif:lemma
//verif:props C02
func lemma_ReadPreamble(src *zzSrc) {
	vspec.Requires(src != nil && zzSource(src) && src.pos == 0)
	vspec.Requires(len(Magic) == 4 && Magic[0] == 0 && Magic[1] == 'a' && Magic[2] == 's' && Magic[3] == 'm')
	d := src.data
	pre, err := ReadPreamble(src)
	vspec.Ensures("a preamble or an error", (err == nil) == (len(d) >= 8 && d[0] == 0 && d[1] == 'a' && d[2] == 's' && d[3] == 'm'))
	if err == nil {
		vspec.Ensures("the version and the layer", pre.Version == uint16(d[4])|uint16(d[5])<<8 && pre.Layer == uint16(d[6])|uint16(d[7])<<8)
		vspec.Ensures("the preamble is taken", src.pos == 8)
	}
}

// The library reads a limited source to its limit or its end.
//
//verif:trusted io:ReadAll
func t_ReadAll(r io.Reader) ([]byte, error) {
	l, ok := r.(*io.LimitedReader)
	vspec.Requires(ok && l.N >= 0 && zzSource(l.R))
	src := l.R.(*zzSrc)
	vspec.Modifies(&src.pos, &l.N)
	p, limit := src.pos, l.N
	b, err := io.ReadAll(r)
	n := len(b)
	vspec.Ensures("no more than there is", n <= len(src.data)-p && int64(n) <= limit)
	vspec.Ensures("as much as there is", err != nil || int64(n) == limit || n == len(src.data)-p)
	vspec.Ensures("the bytes in order", vspec.Forall(0, n, func(i int) bool { return b[i] == src.data[p+i] }))
	vspec.Ensures("they are taken", src.pos == p+n && l.N == limit-int64(n))
	vspec.Ensures("only a failure is an error", err == nil || src.fail)
	return b, err
}

// zzName says that a text is spelled out at a position.
func zzName(data string, p int, s string) bool {
	at := spLebEnd(data, p)
	n := int(spLeb(data, p))
	return at >= 0 && at+n <= len(data) && len(s) == n && vspec.Forall(0, n, func(i int) bool { return s[i] == data[at+i] })
}

//verif:contract ReadString
//verif:hide spLeb spLebEnd
//verif:props C02
func c_ReadString(reader io.Reader) (string, error) {
	vspec.Requires(zzSource(reader))
	src := reader.(*zzSrc)
	vspec.Modifies(&src.pos)
	p := src.pos
	s, err := ReadString(reader)
	vspec.Ensures("the source stays usable", src.pos >= p && src.pos <= len(src.data))
	vspec.Ensures("the text at the position", err != nil || zzName(src.data, p, s) && src.pos == spLebEnd(src.data, p)+len(s))
	return s, err
}

// spExport is the position behind the export at a position.
//
//verif:def
func spExport(data string, p int) int {
	return spLebEnd(data, spLebEnd(data, p)+int(spLeb(data, p))+1)
}

// zzExport says that an export is the one at a position.
func zzExport(data string, p int, e api.Export) bool {
	q := spLebEnd(data, p) + len(e.Name)
	if !zzName(data, p, e.Name) || q < 0 || q >= len(data) || data[q] != 0 {
		return false
	}
	f, ok := e.Description.(*api.FuncExportDescription)
	return ok && f != nil && uint32(f.FuncIdx) == spLeb(data, q+1)
}

//verif:contract ReadExport
//verif:hide spLeb spLebEnd
//verif:props C02
func c_ReadExport(reader io.Reader) (api.Export, error) {
	vspec.Requires(zzSource(reader))
	src := reader.(*zzSrc)
	vspec.Modifies(&src.pos)
	p := src.pos
	e, err := ReadExport(reader)
	vspec.Ensures("the source stays usable", src.pos >= p && src.pos <= len(src.data))
	vspec.Ensures("the export at the position", err != nil || zzExport(src.data, p, e))
	vspec.Ensures("the export is taken", err != nil || src.pos == spExport(src.data, p))
	return e, err
}

// spExports is the position behind i exports.
//
//verif:spec
func spExports(data string, p, i int) int {
	if i <= 0 {
		return p
	}
	return spExport(data, spExports(data, p, i-1))
}

func zzExports(data string, p, k int, es []api.Export) bool {
	return k < 0 || k >= len(es) || zzExport(data, spExports(data, p, k), es[k])
}

//verif:loop ReadExports
func loop_Exports(src *zzSrc, start zzFrom, exports []api.Export, i uint32) bool {
	return len(exports) == int(i) && src.pos == spExports(src.data, int(start), int(i)) && src.pos >= int(start) && src.pos <= len(src.data)
}

//verif:loop ReadExports
func loop_Export(src *zzSrc, start zzFrom, k zzWatch, exports []api.Export, i uint32) bool {
	return len(exports) == int(i) && zzExports(src.data, int(start), int(k), exports)
}

// Every export k of the section.
//
//verif:lemma
//verif:hide spLeb spLebEnd spExport
//verif:props C02
func lemma_ReadExports(src *zzSrc, size uint32, k int) {
	vspec.Requires(src != nil && zzSource(src))
	p := src.pos
	at := spLebEnd(src.data, p)
	vspec.Bind(zzFrom(at))
	vspec.Bind(zzWatch(k))
	es, err := ReadExports(size, src)
	vspec.Ensures("the source stays usable", zzSource(src))
	if err != nil {
		return
	}
	vspec.Ensures("as many as the count says", at >= 0 && len(es) == int(spLeb(src.data, p)))
	vspec.Ensures("the exports in order", zzExports(src.data, at, k, es))
	vspec.Ensures("all of them are taken", src.pos == spExports(src.data, at, len(es)))
}
