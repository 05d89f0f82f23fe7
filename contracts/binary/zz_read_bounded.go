package binary

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"testing/iotest"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/internal/vspec"
)

func zzPutLeb(g *vspec.Gen, v uint32) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	out = append(out, byte(v))
	for g != nil && len(out) < 5 && g.Chance(1, 20) {
		out[len(out)-1] |= 0x80
		out = append(out, 0)
	}
	return out
}

func zzGenCount(g *vspec.Gen) uint32 { return uint32(g.Int(4)) }

func zzGenIndex(g *vspec.Gen) uint32 {
	if g.Chance(1, 4) {
		return uint32(g.Bits(32))
	}
	return uint32(g.Int(300))
}

func zzGenVal(g *vspec.Gen) byte {
	if g.Chance(1, 60) {
		return byte(g.Next())
	}
	return 0x7c + byte(g.Int(4))
}

func zzGenVals(g *vspec.Gen) []byte {
	n := zzGenCount(g)
	if g.Chance(1, 50) {
		n = 128 + uint32(g.Int(10))
	}
	out := zzPutLeb(g, n)
	for ; n > 0; n-- {
		out = append(out, zzGenVal(g))
	}
	return out
}

func zzGenSection(g *vspec.Gen, id byte, n uint32) []byte {
	count := n
	if g.Chance(1, 30) {
		count = zzGenIndex(g)
	}
	out := zzPutLeb(g, count)
	switch id {
	case 1:
		for ; n > 0; n-- {
			out = append(out, 0x60)
			out = append(out, zzGenVals(g)...)
			out = append(out, zzGenVals(g)...)
		}
	case 3:
		for ; n > 0; n-- {
			out = append(out, zzPutLeb(g, zzGenIndex(g))...)
		}
	case 7:
		for ; n > 0; n-- {
			name := g.Bytes(g.Int(6))
			if g.Chance(1, 20) {
				name = g.Bytes(120 + g.Int(20))
			}
			out = append(out, zzPutLeb(g, uint32(len(name)))...)
			out = append(out, name...)
			kind := byte(0)
			if g.Chance(1, 30) {
				kind = byte(g.Int(5))
			}
			out = append(out, kind)
			out = append(out, zzPutLeb(g, zzGenIndex(g))...)
		}
	case 10:
		for ; n > 0; n-- {
			groups := zzGenCount(g)
			body := zzPutLeb(g, groups)
			for ; groups > 0; groups-- {
				c := zzGenCount(g)
				if g.Chance(1, 50) {
					c = zzGenIndex(g)
				}
				body = append(body, zzPutLeb(g, c)...)
				body = append(body, zzGenVal(g))
			}
			for m := g.Int(6); m > 0; m-- {
				switch g.Int(30) {
				case 0:
					body = append(body, byte(g.Next()))
				case 1, 2, 3, 4, 5, 6, 7, 8:
					body = append(body, 0x6a)
				default:
					body = append(body, 0x20)
					body = append(body, zzPutLeb(g, zzGenIndex(g))...)
				}
			}
			body = append(body, 0x0b)
			size := uint32(len(body))
			if g.Chance(1, 40) {
				size += uint32(g.Int(5)) - 2
			}
			out = append(out, zzPutLeb(g, size)...)
			out = append(out, body...)
		}
	default:
		out = append(out, g.Bytes(int(n)*3)...)
	}
	return out
}

func zzGenModule(g *vspec.Gen) []byte {
	out := []byte{0x00, 0x61, 0x73, 0x6d, 1, 0, 0, 0}
	funcs := zzGenCount(g)
	ids := []byte{1, 3, 7, 10}
	for _, id := range ids {
		if g.Chance(1, 8) {
			continue
		}
		if g.Chance(1, 12) {
			id = byte(g.Int(13))
		}
		n := funcs
		if id == 1 || id == 7 || g.Chance(1, 10) {
			n = zzGenCount(g)
		}
		sec := zzGenSection(g, id, n)
		size := uint32(len(sec))
		if g.Chance(1, 40) {
			size += uint32(g.Int(5)) - 2
		}
		if g.Chance(1, 100) {
			size = uint32(g.Bits(32))
		}
		out = append(out, id)
		out = append(out, zzPutLeb(g, size)...)
		out = append(out, sec...)
	}
	switch g.Int(12) {
	case 0:
		out = out[:g.Int(len(out)+1)]
	case 1:
		out[g.Int(len(out))] = byte(g.Next())
	case 2:
		i := g.Int(len(out) + 1)
		out = append(out[:i:i], append([]byte{byte(g.Next())}, out[i:]...)...)
	case 3:
		out[g.Int(8)] = byte(g.Int(16))
	case 4:
		i := g.Int(len(out))
		out = append(out[:i:i], out[i+1:]...)
	}
	return out
}

// zzDec is an independent decoder that works on the whole text at once.
type zzDec struct {
	data string
	bad  bool
}

func (d *zzDec) byte() byte {
	if d.bad || len(d.data) == 0 {
		d.bad = true
		return 0
	}
	b := d.data[0]
	d.data = d.data[1:]
	return b
}

func (d *zzDec) leb() uint32 {
	end := spLebEnd(d.data, 0)
	if d.bad || end < 0 {
		d.bad = true
		return 0
	}
	v := spLeb(d.data, 0)
	d.data = d.data[end:]
	return v
}

func (d *zzDec) take(n uint32) string {
	if d.bad || uint64(n) > uint64(len(d.data)) {
		d.bad = true
		return ""
	}
	s := d.data[:n]
	d.data = d.data[n:]
	return s
}

func (d *zzDec) val() string {
	switch d.byte() {
	case 0x7f:
		return "i32"
	case 0x7e:
		return "i64"
	case 0x7d:
		return "f32"
	case 0x7c:
		return "f64"
	}
	d.bad = true
	return ""
}

func (d *zzDec) vals() string {
	out := ""
	for n := d.leb(); n > 0 && !d.bad; n-- {
		out += d.val() + " "
	}
	return out
}

type zzFn struct {
	head, code string
}

// zzDecode spells out the module in a text, or reports that the text is not one.
func zzDecode(data []byte) (string, bool) {
	d := &zzDec{data: string(data)}
	if d.take(4) != "\x00asm" {
		return "", false
	}
	version := uint32(d.byte()) | uint32(d.byte())<<8
	layer := uint32(d.byte()) | uint32(d.byte())<<8
	if d.bad {
		return "", false
	}
	head := fmt.Sprint("version ", version, " layer ", layer, "\n")
	if version == uint32(ComponentVersion) {
		return head + "component", true
	}
	if version != 1 {
		return "", false
	}
	types, exports := "", ""
	var funcs []zzFn
	for len(d.data) > 0 && !d.bad {
		id := d.byte()
		size := d.leb()
		s := &zzDec{data: d.take(size), bad: d.bad}
		if s.bad {
			return "", false
		}
		switch id {
		case 1:
			types = ""
			for n := s.leb(); n > 0 && !s.bad; n-- {
				if s.byte() != 0x60 {
					s.bad = true
				}
				types += "type " + s.vals() + "-> " + s.vals() + "\n"
			}
		case 3:
			funcs = nil
			for n := s.leb(); n > 0 && !s.bad; n-- {
				funcs = append(funcs, zzFn{head: fmt.Sprint("func ", s.leb(), "\n")})
			}
		case 7:
			exports = ""
			for n := s.leb(); n > 0 && !s.bad; n-- {
				name := s.take(s.leb())
				if s.byte() != 0 {
					s.bad = true
				}
				exports += fmt.Sprintf("export %q %d\n", name, s.leb())
			}
		case 10:
			n := s.leb()
			for i := uint32(0); i < n && !s.bad; i++ {
				if uint64(i) >= uint64(len(funcs)) {
					return "", false
				}
				c := &zzDec{data: s.take(s.leb())}
				text := "locals "
				total := uint64(0)
				for m := c.leb(); m > 0 && !c.bad; m-- {
					k := c.leb()
					t := c.val()
					if total += uint64(k); total > maxLocals {
						c.bad = true
					}
					for ; k > 0 && !c.bad; k-- {
						text += t + " "
					}
				}
				for ended := false; !ended && !c.bad; {
					switch c.byte() {
					case 0x0b:
						text += "end "
						ended = true
					case 0x20:
						text += fmt.Sprint("local.get ", c.leb(), " ")
					case 0x6a:
						text += "i32.add "
					default:
						c.bad = true
					}
				}
				if c.bad || len(c.data) != 0 {
					return "", false
				}
				funcs[i].code = text + "\n"
			}
		default:
			s.data = ""
		}
		if s.bad || len(s.data) != 0 {
			return "", false
		}
	}
	if d.bad {
		return "", false
	}
	out := head + types
	for _, f := range funcs {
		out += f.head + f.code
	}
	return out + exports, true
}

func zzSpellType(t api.ValType) string {
	switch t {
	case api.I32Type:
		return "i32"
	case api.I64Type:
		return "i64"
	case api.F32Type:
		return "f32"
	case api.F64Type:
		return "f64"
	}
	return fmt.Sprintf("%T?", t)
}

func zzSpellTypes(ts []api.ValType) string {
	out := ""
	for _, t := range ts {
		out += zzSpellType(t) + " "
	}
	return out
}

// zzSpell spells out a document.
func zzSpell(doc *api.Document) string {
	out := fmt.Sprint("version ", doc.Preamble.Version, " layer ", doc.Preamble.Layer, "\n")
	m, ok := doc.Directive.(*api.Module)
	if !ok {
		if _, ok := doc.Directive.(*api.Component); ok {
			return out + "component"
		}
		return out + fmt.Sprintf("%T?", doc.Directive)
	}
	for _, t := range m.Types {
		out += "type " + zzSpellTypes(t.Parameters.Types) + "-> " + zzSpellTypes(t.Returns.Types) + "\n"
	}
	for _, f := range m.Funcs {
		out += fmt.Sprint("func ", uint32(f.Type), "\n")
		if f.Body == nil {
			continue
		}
		out += "locals " + zzSpellTypes(f.Locals)
		for _, in := range f.Body.Instructions {
			switch i := in.(type) {
			case api.End:
				out += "end "
			case api.LocalGet:
				out += fmt.Sprint("local.get ", reflect.ValueOf(i.Index).Uint(), " ")
			case api.I32Add:
				out += "i32.add "
			default:
				out += fmt.Sprintf("%T? ", in)
			}
		}
		out += "\n"
	}
	for _, e := range m.Exports {
		d, ok := e.Description.(*api.FuncExportDescription)
		if !ok {
			out += fmt.Sprintf("%T?", e.Description)
			continue
		}
		out += fmt.Sprintf("export %q %d\n", e.Name, uint32(d.FuncIdx))
	}
	return out
}

// A generated module, often damaged, is read from sources that deliver it
// whole, byte by byte, in halves and with the end told together with the last
// byte; each time it is the module the bytes spell out or an error.
//
//verif:bounded 6000
//verif:props C02
func bounded_Read(seed uint64) {
	g := vspec.NewGen(seed)
	data := zzGenModule(g)
	want, ok := zzDecode(data)
	readers := []io.Reader{
		bytes.NewReader(data),
		iotest.OneByteReader(bytes.NewReader(data)),
		iotest.HalfReader(bytes.NewReader(data)),
		iotest.DataErrReader(bytes.NewReader(data)),
	}
	for _, r := range readers {
		doc, err := Read(r)
		if !ok {
			vspec.Ensures("a malformed binary is an error", err != nil)
			continue
		}
		vspec.Ensures("a well-formed binary is read", err == nil && doc != nil)
		vspec.Ensures("the document is the one the bytes spell out", zzSpell(doc) == want)
	}
	if ok && len(data) > 0 {
		failing := io.MultiReader(bytes.NewReader(data), iotest.ErrReader(errSrc))
		if doc, err := Read(failing); err == nil {
			_, component := doc.Directive.(*api.Component)
			vspec.Ensures("a failing source is an error", component)
		}
	}
}
