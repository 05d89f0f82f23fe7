package wit

import (
	"fmt"
	"strings"
	"time"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
)

// zzEnds runs f and says whether it ends without a panic.
func zzEnds(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panic: ", r)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(5 * time.Second):
		return "does not end"
	}
}

func zzGap(g *vspec.Gen) string {
	return g.Pick(" ", " ", " ", "\n", "\t ", " // } ;\n", " /* { */ ", "\r\n")
}

func zzName(g *vspec.Gen) string {
	return fmt.Sprintf("%c%d", 'a'+g.Int(18), g.Int(1000))
}

func zzType(g *vspec.Gen, depth int) string {
	if depth == 0 {
		return g.Pick("u8", "u32", "s64", "string", "bool", "char", "float32", "t", "%list", "own<r>", "borrow<r>", "result", "future", "stream")
	}
	sub := func() string { return zzType(g, depth-1) }
	switch g.Int(8) {
	case 0:
		return "list<" + sub() + ">"
	case 1:
		return "option<" + sub() + ">"
	case 2:
		return "tuple<" + sub() + "," + zzGap(g) + sub() + g.Pick("", ",") + ">"
	case 3:
		return "result<" + g.Pick(sub(), "_, "+sub(), sub()+", "+sub()) + ">"
	case 4:
		return "stream<" + g.Pick(sub(), "_, "+sub(), sub()+", "+sub()) + ">"
	case 5:
		return "future<" + sub() + ">"
	}
	return zzType(g, 0)
}

func zzFunc(g *vspec.Gen) string {
	s := "func("
	for n := g.Int(3); n > 0; n-- {
		s += zzName(g) + ":" + zzGap(g) + zzType(g, 2)
		if n > 1 || g.Chance(1, 4) {
			s += ","
		}
	}
	return s + ")" + g.Pick("", " -> "+zzType(g, 2), " -> (a: u32)")
}

// zzDef is the text of an item of an interface or a world and what it is.
func zzDef(g *vspec.Gen, world bool) (string, string) {
	id := zzName(g)
	list := func(one func() string) string {
		s := "{"
		for n := g.Int(4); n > 0; n-- {
			s += zzGap(g) + one()
			if n > 1 || g.Bool() {
				s += ","
			}
		}
		return s + "}"
	}
	field := func() string { return zzName(g) + ": " + zzType(g, 1) }
	name := func() string { return zzName(g) }
	kinds := []string{"use", "resource", "record", "variant", "type"}
	if world {
		kinds = append(kinds, "export", "import", "include")
	} else {
		kinds = append(kinds, "flags", "enum", "func")
	}
	k := kinds[g.Int(len(kinds))]
	switch k {
	case "use":
		return "use " + id + ".{x, y as z};", "use " + id
	case "resource":
		return "resource " + id + g.Pick(";", " {}", " { constructor(a: u8); m: "+zzFunc(g)+"; s: static "+zzFunc(g)+"; }"), "resource " + id
	case "record":
		return "record " + id + " " + list(field), "record " + id
	case "variant":
		return "variant " + id + " " + list(func() string { return zzName(g) + g.Pick("", "("+zzType(g, 1)+")") }), "variant " + id
	case "flags":
		return "flags " + id + " " + list(name), "flags " + id
	case "enum":
		return "enum " + id + " " + list(name), "enum " + id
	case "type":
		return "type " + id + " = " + zzType(g, 2) + ";", "type " + id
	case "func":
		return id + ":" + zzGap(g) + zzFunc(g) + ";", "func " + id
	case "include":
		return "include " + id + g.Pick(";", " with { a as b }"), "include " + id
	}
	switch g.Int(3) {
	case 0:
		return k + " " + id + ";", k + " path " + id
	case 1:
		return k + " " + id + ": " + zzFunc(g) + ";", k + " func " + id
	}
	body, items := zzBody(g, false)
	return k + " " + id + ": interface " + body, k + " interface " + id + items
}

func zzBody(g *vspec.Gen, world bool) (string, string) {
	s, want := "{", ""
	for n := g.Int(4); n > 0; n-- {
		d, w := zzDef(g, world)
		s += g.Pick("", zzGap(g)) + d
		want += " [" + w + "]"
	}
	return s + g.Pick("", zzGap(g)) + "}", want
}

// zzDocument is the text of a document and the items it consists of.
func zzDocument(g *vspec.Gen) (string, []string) {
	s := g.Pick("", zzGap(g))
	pkg := "none"
	if g.Bool() {
		s += "package a:b" + g.Pick("", "@1.2.3") + ";"
		pkg = "package"
	}
	want := []string{pkg}
	for n := g.Int(5); n > 0; n-- {
		id := zzName(g)
		s += g.Pick("", zzGap(g))
		switch g.Int(3) {
		case 0:
			as := g.Pick("", zzName(g))
			s += "use " + id
			if as != "" {
				s += " as " + as
			}
			s += ";"
			want = append(want, "use "+id+" "+as)
		case 1:
			b, w := zzBody(g, true)
			s += "world " + id + " " + b
			want = append(want, "world "+id+w)
		case 2:
			b, w := zzBody(g, false)
			s += "interface" + zzGap(g) + id + b
			want = append(want, "interface "+id+w)
		}
	}
	return s + g.Pick("", zzGap(g)), want
}

func zzSome(o types.Option[string]) string {
	if s, ok := o.(types.Some[string]); ok {
		return s.Value
	}
	return ""
}

func zzShown(d any) string {
	switch d := d.(type) {
	case *ast.Use:
		return "use " + d.From.Id
	case ast.Resource:
		return "resource " + d.ID
	case *ast.Record:
		return "record " + d.ID
	case *ast.Variant:
		return "variant " + d.ID
	case *ast.Flags:
		return "flags " + d.ID
	case *ast.Enum:
		return "enum " + d.ID
	case *ast.TypeItem:
		return "type " + d.ID
	case *ast.FuncItem:
		return "func " + d.ID
	case *ast.Include:
		return "include " + d.From.Id
	case *ast.Export:
		return "export " + zzShown(d.ExternType)
	case *ast.Import:
		return "import " + zzShown(d.ExternType)
	case *ast.ExternTypeUsePath:
		return "path " + d.UsePath.Id
	case *ast.ExternTypeFunc:
		return "func " + d.ID
	case *ast.ExternTypeInterface:
		s := "interface " + d.ID
		for _, x := range d.InterfaceItems {
			s += " [" + zzShown(x) + "]"
		}
		return s
	case ast.AstItem:
		s := ""
		if d.Use != nil {
			s += "use " + d.Use.Item.Id + " " + zzSome(d.Use.As)
		}
		if d.World != nil {
			s += "world " + d.World.Id
			for _, x := range d.World.Items {
				s += " [" + zzShown(x) + "]"
			}
		}
		if d.Interface != nil {
			s += "interface " + d.Interface.Name
			for _, x := range d.Interface.Items {
				s += " [" + zzShown(x) + "]"
			}
		}
		return s
	}
	return fmt.Sprintf("%T", d)
}

// Well-formed documents.
//
//verif:bounded 4000
//verif:props C20
func bounded_Document(seed uint64) {
	g := vspec.NewGen(seed)
	text, want := zzDocument(g)
	var a *ast.Ast
	var err error
	vspec.Ensures("parsing a document ends", zzEnds(func() { a, err = Parse(text) }) == "")
	vspec.Ensures("a document is accepted", err == nil && a != nil)
	_, has := a.PackageDeclaration.(types.Some[ast.PackageDeclaration])
	vspec.Ensures("the package declaration", has == (want[0] == "package"))
	have := want[:1:1]
	for _, it := range a.Items {
		have = append(have, zzShown(it))
	}
	vspec.Ensures("the items of the text in their order", strings.Join(have, "\n") == strings.Join(want, "\n"))
	bad := g.Pick("}", "{", ";", "x", "12", "func", "type t = u8;", "record r {}", "package a:b; package c:d;", "->", "%w", "*", "export a;", "@", "(", "world", "interface x", "use")
	_, err = Parse(text + " " + bad)
	vspec.Ensures("what cannot start an item is an error", err != nil)
}

// zzItems counts the items at the top of a text that is accepted: what follows
// an optional package declaration up to a semicolon or a closing brace.
func zzItems(text string) (int, bool) {
	l := lex.New(text)
	depth, n, open, first := 0, 0, false, true
	pkg := false
	for {
		t, err := l.Next()
		if err != nil {
			return n, false
		}
		switch t.Type {
		case token.EndOfStream:
			return n, depth == 0 && !open
		case token.Whitespace, token.LineComment, token.BlockComment:
			continue
		}
		if depth == 0 && !open {
			open = true
			pkg = first && t.Type == token.Package
			if !pkg {
				if t.Type != token.Use && t.Type != token.World && t.Type != token.Interface {
					return n, false
				}
				n++
			}
			first = false
		}
		switch t.Type {
		case token.OpenBrace:
			depth++
		case token.CloseBrace:
			depth--
			if depth < 0 {
				return n, false
			}
			if depth == 0 {
				open = false
			}
		case token.Semicolon:
			if depth == 0 {
				open = false
			}
		}
	}
}

// Any text: parsing ends with a tree or an error and a document that is
// accepted consists of as many items as the tree.
//
//verif:bounded 12000
//verif:props C20
func bounded_Text(seed uint64) {
	g := vspec.NewGen(seed)
	words := strings.Fields("use type func u8 u32 s64 float32 char resource own borrow record flags variant enum union bool string option result future stream list _ as from static interface tuple world import export package constructor include with { } { } ( ) < > , ; : . = -> @ / * + - % %x // /* */ 1 99999999999999999999 x y-z \x00 \xff é [ !")
	var text string
	switch g.Int(4) {
	case 0:
		for n := g.Int(40); n > 0; n-- {
			text += words[g.Int(len(words))] + g.Pick(" ", " ", "", "\n")
		}
	case 1:
		text = string(g.Bytes(g.Int(30)))
	default:
		text, _ = zzDocument(g)
		for n := 1 + g.Int(3); n > 0 && len(text) > 0; n-- {
			at := g.Int(len(text))
			switch g.Int(4) {
			case 0:
				text = text[:at]
			case 1:
				text = text[:at] + text[at+1:]
			case 2:
				text = text[:at] + " " + words[g.Int(len(words))] + " " + text[at:]
			case 3:
				end := at + g.Int(len(text)-at+1)
				text = text[:at] + text[end:]
			}
		}
	}
	var a *ast.Ast
	var err error
	vspec.Ensures("parsing any text ends without a panic", zzEnds(func() { a, err = Parse(text) }) == "")
	if err != nil {
		return
	}
	vspec.Ensures("a tree or an error", a != nil)
	for _, it := range a.Items {
		vspec.Ensures("no item is empty", it.Use != nil || it.World != nil || it.Interface != nil)
	}
	n, whole := zzItems(text)
	vspec.Ensures("a document that is accepted consists of items", whole)
	vspec.Ensures("as many items as there are in the text", n == len(a.Items))
}
