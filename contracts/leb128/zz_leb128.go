package leb128

import (
	"bufio"
	"errors"
	"io"

	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// spLEB reads the LEB128 encoding of a 32-bit value at the start of s: its
// value, its length, and whether there is one.
func spLEB(s []byte) (uint32, int, bool) {
	var v uint64
	for i := 0; i < 5; i++ {
		if i >= len(s) {
			return 0, 0, false
		}
		v |= uint64(s[i]&0x7f) << (7 * uint(i))
		if s[i] < 0x80 {
			return uint32(v), i + 1, v < 1<<32
		}
	}
	return 0, 0, false
}

//verif:contract DecodeSlice
//verif:props C01
func contract_DecodeSlice(s []byte) (uint32, int, error) {
	vspec.Unroll(7)
	v, n, err := DecodeSlice(s)
	sv, sn, ok := spLEB(s)
	vspec.Ensures("valid encodings are accepted and others rejected", (err == nil) == ok)
	vspec.Ensures("value", vspec.Imp(ok, v == sv))
	vspec.Ensures("bytes consumed", vspec.Imp(ok, n == sn))
	return v, n, err
}

var errStream = errors.New("stream failure")

// zzStream delivers data one request at a time in one of the ways an io.Reader
// may: end of file with the last byte or after it, or a failure there.
type zzStream struct {
	data  []byte
	pos   int
	early bool // report the end together with the last byte
	fail  bool // end with an error other than EOF
}

func (s *zzStream) end() error {
	if s.fail {
		return errStream
	}
	return io.EOF
}

func (s *zzStream) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		return 0, s.end()
	}
	b[0] = s.data[s.pos]
	s.pos++
	if s.early && s.pos == len(s.data) {
		return 1, s.end()
	}
	return 1, nil
}

//verif:lemma
//verif:props C01
func lemma_DecodeReader(data []byte, early, fail bool) {
	st := &zzStream{data: data, early: early, fail: fail}
	v, n, err := DecodeReader(st)
	sv, sn, ok := spLEB(data)
	vspec.Ensures("valid encodings are accepted and others rejected", (err == nil) == ok)
	vspec.Ensures("value", vspec.Imp(ok, v == sv))
	vspec.Ensures("bytes consumed", vspec.Imp(ok, n == sn && st.pos == sn))
}

//verif:lemma
//verif:props C01
func lemma_Decode(data []byte, fail bool) {
	r := bufio.NewReader(&zzStream{data: data, fail: fail})
	v, n, err := Decode(r)
	sv, sn, ok := spLEB(data)
	vspec.Ensures("valid encodings are accepted and others rejected", (err == nil) == ok)
	vspec.Ensures("value", vspec.Imp(ok, v == sv))
	vspec.Ensures("bytes consumed", vspec.Imp(ok, n == sn))
	if ok && sn < len(data) {
		b, err := r.ReadByte()
		vspec.Ensures("the rest of the stream is left in place", err == nil && b == data[sn])
	}
}

// zzSink accepts at most room bytes.
type zzSink struct {
	got  [8]byte
	n    int
	room int
}

func (s *zzSink) Write(b []byte) (int, error) {
	for i := range b {
		if s.n >= s.room || s.n >= len(s.got) {
			return i, errStream
		}
		s.got[s.n] = b[i]
		s.n++
	}
	return len(b), nil
}

//verif:lemma
//verif:props C01
func lemma_Encode(value uint32) {
	sink := &zzSink{room: 8}
	w := bufio.NewWriterSize(sink, 16)
	n, err := Encode(w, value)
	vspec.Ensures("no error", err == nil)
	vspec.Ensures("no flush error", w.Flush() == nil)
	vspec.Ensures("reported length", n == sink.n)
	want := 1
	for k := value >> 7; k != 0; k >>= 7 {
		want++
	}
	vspec.Ensures("shortest form", n == want)
	v, m, ok := spLEB(sink.got[:n])
	vspec.Ensures("decodes to the value", ok && v == value && m == n)
	dv, dn, derr := DecodeSlice(sink.got[:n])
	vspec.Ensures("round trip", derr == nil && dv == value && dn == n)
}
