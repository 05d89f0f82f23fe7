package encoding

import (
	"io"

	"github.com/patrickhuber/go-wasm/internal/vspec"
)

// zzFactory is the factory every string operation asks for its codec: the
// codec handed out is the one of the name asked for, with the unit size and
// the alignment of the encoding.
//
//verif:lemma
//verif:props C09
func lemma_Codec(e Encoding) {
	c, err := DefaultFactory().Get(e)
	known := e == UTF8 || e == UTF16 || e == UTF16LE || e == UTF16BE || e == Latin1 || e == Latin1Utf16
	vspec.Ensures("known encodings only", (err == nil) == known)
	if err != nil {
		return
	}
	vspec.Ensures("name", c.Encoding() == e)
	wide := e == UTF16 || e == UTF16LE || e == UTF16BE
	if wide {
		vspec.Ensures("unit size of a wide encoding", c.RuneSize() == 2)
	} else {
		vspec.Ensures("unit size of a narrow encoding", c.RuneSize() == 1)
	}
	if e == UTF8 {
		vspec.Ensures("alignment of utf-8", c.Alignment() == 1)
	} else {
		vspec.Ensures("alignment", c.Alignment() == 2)
	}
}

// ZZEncodes, ZZLen and ZZByte are the encoded form of a string.
//
//verif:opaque
func ZZEncodes(e Encoding, s string) bool {
	c, err := DefaultFactory().Get(e)
	if err != nil {
		return false
	}
	_, err = EncodeString(c, s)
	return err == nil
}

//verif:opaque
func ZZLen(e Encoding, s string) int {
	return len(zzEncoded(e, s))
}

//verif:opaque
func ZZByte(e Encoding, s string, i int) uint8 {
	return zzEncoded(e, s)[i]
}

func zzEncoded(e Encoding, s string) []byte {
	c, err := DefaultFactory().Get(e)
	if err != nil {
		return nil
	}
	b, _ := EncodeString(c, s)
	return b
}

// ZZWide tells the encodings with 16-bit units.
func ZZWide(e Encoding) bool { return e == UTF16 || e == UTF16LE || e == UTF16BE }

// The text codecs of golang.org/x/text are not verified: encoding is assumed
// to be a function of the codec's name and the string, to give whole code
// units and to change nothing else.
//
//verif:trusted EncodeString
func trusted_EncodeString(encoder Encoder, str string) ([]byte, error) {
	b, err := EncodeString(encoder, str)
	c, ok := encoder.(Codec)
	if !ok {
		return b, err
	}
	e := c.Encoding()
	vspec.Ensures("function of name and string", (err == nil) == ZZEncodes(e, str))
	if err == nil {
		vspec.Ensures("length", len(b) == ZZLen(e, str))
		vspec.Ensures("whole units", !ZZWide(e) || len(b)%2 == 0)
		vspec.Ensures("bytes", vspec.Forall(0, len(b), func(i int) bool { return b[i] == ZZByte(e, str, i) }))
		vspec.Ensures("own memory", vspec.Fresh(b))
	}
	return b, err
}

// Decoding is assumed to return and to change nothing.
//
//verif:trusted DecodeString
func trusted_DecodeString(decoder Decoder, reader io.Reader) (string, error) {
	return DecodeString(decoder, reader)
}
