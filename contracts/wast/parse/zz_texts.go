package parse

import (
	"fmt"
	"strings"
	"time"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wat"
	watast "github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	watparse "github.com/patrickhuber/go-wasm/wat/parse"
)

// zzEnds runs f and says whether it ends without a panic.
func zzEnds(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panic: ", r)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(5 * time.Second):
		return "does not end"
	}
}

func zzGap(g *vspec.Gen) string {
	return g.Pick(" ", " ", " ", "\n", "\t ", " ;; ) (\n", " (; ( ;) ", "\r\n")
}

func zzValType(g *vspec.Gen) string { return g.Pick("i32", "i64", "f32", "f64") }

func zzConst(g *vspec.Gen) string {
	return g.Pick("(i32.const 1)", "(i32.const -0x7f)", "(i64.const 12)", "(f32.const 1.5)", "(f64.const -2)")
}

func zzInst(g *vspec.Gen, depth int) string {
	if depth == 0 {
		return g.Pick("(drop)", "(return)", "(i32.const 7)", "(local.get 0)", "(br $l)", "(call $f)", "(i32.add)", "(select)")
	}
	sub := func() string {
		s := ""
		for n := g.Int(3); n > 0; n-- {
			s += zzGap(g) + zzInst(g, depth-1)
		}
		return s
	}
	switch g.Int(6) {
	case 0:
		return "(block $l" + g.Pick("", " (result i32)") + sub() + ")"
	case 1:
		return "(loop" + sub() + ")"
	case 2:
		return "(if (i32.const 1) (then" + sub() + ")" + g.Pick("", " (else"+sub()+")") + ")"
	case 3:
		return "(i32.add" + zzGap(g) + zzInst(g, depth-1) + zzGap(g) + zzInst(g, depth-1) + ")"
	}
	return zzInst(g, 0)
}

// zzItem is an item of a module: its kind and the name it is given.
type zzItem struct{ kind, id string }

// zzModule is the text of a module and the items it contains.
func zzModule(g *vspec.Gen) (string, []zzItem) {
	var items []zzItem
	s := "(" + g.Pick("", " ") + "module"
	for n := g.Int(7); n > 0; n-- {
		it := zzItem{kind: g.Pick("func", "type", "table", "global", "memory")}
		name := ""
		if g.Chance(3, 4) {
			it.id = fmt.Sprintf("$%c%d", 'a'+g.Int(26), len(items))
			name = zzGap(g) + it.id
		}
		s += zzGap(g) + "(" + it.kind + name
		switch it.kind {
		case "func":
			if g.Bool() {
				s += ` (export "e")`
			}
			for k := g.Int(3); k > 0; k-- {
				s += zzGap(g) + g.Pick("(param $p "+zzValType(g)+")", "(param i32 i64)", "(param)")
			}
			if g.Bool() {
				s += " (result " + zzValType(g) + ")"
			}
			if g.Bool() {
				s += " (local " + zzValType(g) + ")"
			}
			for k := g.Int(3); k > 0; k-- {
				s += zzGap(g) + zzInst(g, 2)
			}
			if g.Chance(1, 3) {
				s += zzGap(g) + "i32.const 3" + zzGap(g) + "drop"
			}
		case "type":
			if g.Bool() {
				s += " (func (param i32) (result f32))"
			}
		case "table":
			s += zzGap(g) + g.Pick("", "1 ", "1 20 ") + g.Pick("funcref", "externref") + g.Pick("", " (elem $f)")
		case "global":
			s += zzGap(g) + g.Pick("i32", "(mut i64)") + zzGap(g) + zzConst(g)
		case "memory":
			s += zzGap(g) + g.Pick("1", "1 2", "0x10")
		}
		s += g.Pick("", zzGap(g)) + ")"
		items = append(items, it)
	}
	return s + g.Pick("", zzGap(g)) + ")", items
}

// zzHas says that a module has the items with the names in their order.
func zzHas(m *watast.Module, items []zzItem) bool {
	want := map[string]string{}
	for _, it := range items {
		want[it.kind] += "|" + it.id
	}
	have := map[string]string{}
	add := func(kind string, id types.Option[string]) {
		name := ""
		if some, ok := id.(types.Some[string]); ok {
			name = some.Value
		}
		have[kind] += "|" + name
	}
	for _, x := range m.Functions {
		add("func", x.ID)
	}
	for _, x := range m.Types {
		add("type", x.ID)
	}
	for _, x := range m.Tables {
		add("table", x.ID)
	}
	for _, x := range m.Globals {
		add("global", x.ID)
	}
	for _, x := range m.Memory {
		add("memory", x.ID)
	}
	return fmt.Sprint(want) == fmt.Sprint(have)
}

// zzWhole is a decoder that reads a whole text.
func zzDecode(text string) error {
	_, err := wat.NewDecoder(nil).Decode(strings.NewReader(text))
	return err
}

// Well-formed modules.
//
//verif:bounded 3000
//verif:props C18
func bounded_Module(seed uint64) {
	g := vspec.NewGen(seed)
	text, items := zzModule(g)
	lead := g.Pick("", zzGap(g))
	trail := g.Pick("", zzGap(g), zzGap(g)+zzGap(g))
	var d watast.Directive
	var err error
	vspec.Ensures("parsing a module ends", zzEnds(func() { d, err = watparse.Parse(lex.New(lead + text + trail)) }) == "")
	vspec.Ensures("a module is accepted", err == nil)
	m, ok := d.(*watast.Module)
	vspec.Ensures("a module is a module", ok && m != nil)
	vspec.Ensures("the items of the text in their order", zzHas(m, items))
	vspec.Ensures("the decoder takes a module", zzDecode(lead+text+trail) == nil)
	more, _ := zzModule(g)
	rest := g.Pick(")", "(", "x", more, `"s"`, "1", "()", "$id", "(;", "\"", text)
	vspec.Ensures("text after the module is an error", zzDecode(lead+text+trail+rest) != nil)
	cut := g.Int(len(text))
	vspec.Ensures("a part of a module is an error", zzDecode(lead+text[:cut]) != nil)
	vspec.Ensures("two closing parentheses are an error", zzDecode(text+g.Pick("", " ")+")") != nil)
}

// zzDirective is the text of a directive of a script and what it is.
func zzDirective(g *vspec.Gen) (string, string) {
	module := func() (string, string) {
		switch g.Int(4) {
		case 0:
			return `(module quote "(func)")`, "*ast.QuoteModule"
		case 1:
			return `(component quote "c")`, "*ast.QuoteComponent"
		case 2:
			if g.Bool() {
				return "(component)", "*ast.Wat"
			}
		}
		s, _ := zzModule(g)
		return s, "*ast.Wat"
	}
	consts := func() (string, int) {
		s, n := "", g.Int(3)
		for i := 0; i < n; i++ {
			s += zzGap(g) + zzConst(g)
		}
		return s, n
	}
	invoke := func() (string, string) {
		name := fmt.Sprintf("f%d", g.Int(100))
		c, n := consts()
		return "(invoke" + g.Pick("", " $m") + ` "` + name + `"` + c + ")", fmt.Sprint(name, "/", n)
	}
	why := fmt.Sprintf("w%d", g.Int(100))
	switch g.Int(5) {
	case 0:
		s, k := invoke()
		c, n := consts()
		return "(assert_return" + zzGap(g) + s + c + ")", fmt.Sprint("return ", k, " ", n)
	case 1:
		s, k := module()
		return "(assert_invalid" + zzGap(g) + s + zzGap(g) + `"` + why + `")`, "invalid " + k + " " + why
	case 2:
		s, k := module()
		return "(assert_malformed" + zzGap(g) + s + zzGap(g) + `"` + why + `")`, "malformed " + k + " " + why
	case 3:
		s, k := invoke()
		return "(assert_trap" + zzGap(g) + s + zzGap(g) + `"` + why + `")`, "trap " + k + " " + why
	}
	s, k := module()
	return s, "module " + k
}

func zzCalled(a ast.Action) string {
	if i, ok := a.(ast.Invoke); ok {
		return fmt.Sprint(i.String, "/", len(i.Const))
	}
	return fmt.Sprintf("%T", a)
}

func zzShown(d ast.Directive) string {
	switch d := d.(type) {
	case ast.AssertReturn:
		return fmt.Sprint("return ", zzCalled(d.Action), " ", len(d.Results))
	case ast.AssertTrap:
		return "trap " + zzCalled(d.Action) + " " + d.Failure
	case ast.AssertInvalid:
		return fmt.Sprintf("invalid %T %s", d.Module, d.Failure)
	case ast.AssertMalformed:
		return fmt.Sprintf("malformed %T %s", d.Module, d.Failure)
	case ast.WatDirective:
		return fmt.Sprintf("module %T", d.Wat)
	}
	return fmt.Sprintf("%T", d)
}

func zzScript(g *vspec.Gen, n int) (string, []string) {
	s := ""
	var want []string
	for ; n > 0; n-- {
		d, k := zzDirective(g)
		s += g.Pick("", zzGap(g)) + d
		want = append(want, k)
	}
	return s + g.Pick("", zzGap(g)), want
}

// Well-formed scripts.
//
//verif:bounded 3000
//verif:props C18
func bounded_Script(seed uint64) {
	g := vspec.NewGen(seed)
	text, want := zzScript(g, g.Int(6))
	var w *ast.Wast
	var err error
	vspec.Ensures("parsing a script ends", zzEnds(func() { w, err = Parse(text) }) == "")
	vspec.Ensures("a script is accepted", err == nil && w != nil)
	var have []string
	for _, d := range w.Directives {
		have = append(have, zzShown(d))
	}
	vspec.Ensures("the directives of the text in their order", strings.Join(have, "\n") == strings.Join(want, "\n"))
	_, err = Parse(text + g.Pick(")", "(", "x", "()", `"s"`, "(assert_return", "(module", "1", "(x)"))
	vspec.Ensures("text that is no directive is an error", err != nil)
}

// zzGroups counts the groups in parentheses at the top of a text. It says no
// for a text that has something else there or is not balanced.
func zzGroups(s string) (n int, ok bool) {
	depth := 0
	for i := 0; i < len(s); {
		switch {
		case strings.HasPrefix(s[i:], ";;"):
			k := strings.IndexByte(s[i:], '\n')
			if k < 0 {
				k = len(s) - i - 1
			}
			i += k + 1
			continue
		case strings.HasPrefix(s[i:], "(;"):
			k := strings.Index(s[i+2:], ";)")
			if k < 0 {
				return n, false
			}
			i += k + 4
			continue
		case s[i] == '"':
			k := strings.IndexByte(s[i+1:], '"')
			if k < 0 || depth == 0 {
				return n, false
			}
			i += k + 2
			continue
		case s[i] == '(':
			if depth == 0 {
				n++
			}
			depth++
		case s[i] == ')':
			depth--
			if depth < 0 {
				return n, false
			}
		case strings.IndexByte(" \t\r\n\f\v", s[i]) < 0 && depth == 0:
			return n, false
		}
		i++
	}
	return n, depth == 0
}

// Any text: parsing ends with a tree or an error and a text that is accepted
// consists of as many groups as the tree has directives.
//
//verif:bounded 12000
//verif:props C18
func bounded_Text(seed uint64) {
	g := vspec.NewGen(seed)
	words := []string{"(", ")", "(", ")", "module", "component", "func", "type", "table", "global", "memory", "param", "result", "local", "export", "import", "elem", "mut", "quote", "i32", "f64", "funcref", "i32.const", "f32.const", "block", "loop", "if", "then", "else", "call", "call_indirect", "br_table", "local.get", "drop", "0", "-1", "0x", "99999999999999999999", "1.5", "nan", "inf", "$x", "$", "\"s\"", "\"", "(;", ";)", ";;", "assert_return", "assert_trap", "assert_invalid", "assert_malformed", "invoke", "\x00", "\xff", "é", "\\", "[", ",", ";"}
	var text string
	switch g.Int(4) {
	case 0:
		for n := g.Int(40); n > 0; n-- {
			text += words[g.Int(len(words))] + g.Pick(" ", " ", "", "\n")
		}
	case 1:
		text = string(g.Bytes(g.Int(30)))
	default:
		if g.Bool() {
			text, _ = zzScript(g, 1+g.Int(2))
		} else {
			text, _ = zzModule(g)
		}
		for n := 1 + g.Int(3); n > 0 && len(text) > 0; n-- {
			at := g.Int(len(text))
			switch g.Int(4) {
			case 0:
				text = text[:at]
			case 1:
				text = text[:at] + text[at+1:]
			case 2:
				text = text[:at] + " " + words[g.Int(len(words))] + " " + text[at:]
			case 3:
				end := at + g.Int(len(text)-at+1)
				text = text[:at] + text[end:]
			}
		}
	}
	var w *ast.Wast
	var d watast.Directive
	var err, werr, derr error
	how := zzEnds(func() {
		w, err = Parse(text)
		d, werr = watparse.Parse(lex.New(text))
		derr = zzDecode(text)
	})
	vspec.Ensures("parsing any text ends without a panic", how == "")
	vspec.Ensures("a script or an error", err != nil || w != nil)
	vspec.Ensures("a module or an error", werr != nil || d != nil)
	n, balanced := zzGroups(text)
	vspec.Ensures("a script that is accepted is balanced", err != nil || balanced)
	vspec.Ensures("as many directives as there are groups", err != nil || len(w.Directives) == n)
	vspec.Ensures("a module that is accepted is one group", derr != nil || balanced && n == 1)
}
