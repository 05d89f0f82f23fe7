package lex

import (
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wat/token"
)

// spLine and spCol are the line and column of position i.
//
//verif:spec
func spLine(s string, i int) int {
	if i <= 0 {
		return 0
	}
	if s[i-1] == '\n' {
		return spLine(s, i-1) + 1
	}
	return spLine(s, i-1)
}

//verif:spec
func spCol(s string, i int) int {
	if i <= 0 || s[i-1] == '\n' {
		return 0
	}
	return spCol(s, i-1) + 1
}

// zzPlaced says that the lexer has delivered exactly the first offset bytes.
func zzPlaced(l *Lexer) bool {
	return l != nil && spPlaced(l.input, l.offset, l.position, l.line, l.column)
}

//verif:def
func spPlaced(input string, offset, position, line, column int) bool {
	return offset >= 0 && offset <= position && position <= len(input) && line == spLine(input, offset) && column == spCol(input, offset)
}

// zzRules says that the rules of the lexer are usable.
func zzRules(l *Lexer) bool {
	return registry[DfaRuleType] != nil && registry[StringRuleType] != nil && spRules(l.Rules)
}

//verif:def
func spRules(rules []Rule) bool {
	return vspec.Forall(0, len(rules), func(i int) bool { return rules[i] != nil })
}

// zzToken says that a token is the text of the input from its position to end.
func zzToken(t *token.Token, in string, end int) bool {
	return t != nil && t.Position >= 0 && t.Position <= end && end <= len(in) && spToken(t.Capture, t.Position, t.Line, t.Column, in, end)
}

//verif:def
func spToken(capture string, position, line, column int, in string, end int) bool {
	return position >= 0 && position <= end && end <= len(in) && capture == in[position:end] && line == spLine(in, position) && column == spCol(in, position)
}

// zzRead is the number of bytes that have been read.
func zzRead(l *Lexer) int {
	if l.peekToken != nil {
		return l.peekToken.Position
	}
	return l.offset
}

func genp_Lexer(g *vspec.Gen) *Lexer {
	l := New(zzText(g))
	for n := g.Int(6); n > 0; n-- {
		l.Next()
	}
	if g.Bool() {
		l.Peek()
	}
	return l
}

func zzText(g *vspec.Gen) string {
	s := ""
	for n := g.Int(8); n > 0; n-- {
		s += g.Pick("module", "modules", "component", "func", "$", "$a", "$a.b", "-", "+", "0", "1_000", "0x", "0x1F", "0x1.8p+3", "1.5", "1e+5", "1e", "nan", "nan:0x1", "nan:0xzz", "inf", "-inf", ";", ";;", ";; x\n", "(;", ";)", "(; a ;)", "(;;)", "\"", "\"a b\"", "\"a\\\"b\"", " ", "\n", "\t\r\n", "(", ")", "[", "{", ",", "é", "\xff", "\x00")
	}
	return s
}

type zzStart int

//verif:contract num
//verif:props C16
func c_num(s string, i int) (int, bool) {
	vspec.Requires(i >= 0 && i <= len(s))
	vspec.Bind(zzStart(i))
	n, ok := num(s, i)
	vspec.Ensures("an index of the text", n >= i && n <= len(s))
	vspec.Ensures("at least one digit", !ok || n > i)
	return n, ok
}

//verif:loop num
func loop_num(s string, i int, start zzStart) bool { return i >= int(start) && i <= len(s) }

//verif:contract hexnum
//verif:props C16
func c_hexnum(s string, i int) (int, bool) {
	vspec.Requires(i >= 0 && i <= len(s))
	vspec.Bind(zzStart(i))
	n, ok := hexnum(s, i)
	vspec.Ensures("an index of the text", n >= i && n <= len(s))
	vspec.Ensures("at least one digit", !ok || n > i)
	return n, ok
}

//verif:loop hexnum
func loop_hexnum(s string, i int, start zzStart) bool { return i >= int(start) && i <= len(s) }

//verif:contract frac
//verif:props C16
func c_frac(s string, i int) (int, bool) {
	vspec.Requires(i >= 0 && i <= len(s))
	vspec.Bind(zzStart(i))
	n, ok := frac(s, i)
	vspec.Ensures("an index of the text", n >= i && n <= len(s))
	vspec.Ensures("at least one digit", !ok || n > i)
	return n, ok
}

//verif:loop frac
func loop_frac(s string, i int, start zzStart) bool { return i >= int(start) && i <= len(s) }

//verif:contract hexfrac
//verif:props C16
func c_hexfrac(s string, i int) (int, bool) {
	vspec.Requires(i >= 0 && i <= len(s))
	vspec.Bind(zzStart(i))
	n, ok := hexfrac(s, i)
	vspec.Ensures("an index of the text", n >= i && n <= len(s))
	vspec.Ensures("at least one digit", !ok || n > i)
	return n, ok
}

//verif:loop hexfrac
func loop_hexfrac(s string, i int, start zzStart) bool { return i >= int(start) && i <= len(s) }

//verif:contract float
//verif:props C16
func c_float(s string, i int) (int, bool) {
	vspec.Requires(i == 0)
	return float(s, i)
}

//verif:contract hexfloat
//verif:props C16
func c_hexfloat(s string, i int) (int, bool) {
	vspec.Requires(i == 0)
	return hexfloat(s, i)
}

//verif:contract isInteger
//verif:props C16
func c_isInteger(s string) bool { return isInteger(s) }

//verif:contract isFloat
//verif:props C16
func c_isFloat(s string) bool { return isFloat(s) }

//verif:loop token
func loop_Line(l *Lexer, i int) bool {
	return l.line == spLine(l.input, i) && i >= l.offset && i <= l.position
}

//verif:loop token
func loop_Col(l *Lexer, i int) bool { return l.column == spCol(l.input, i) }

// One character.
//
//verif:contract Lexer.readRune
//verif:props C16
func c_readRune(l *Lexer) types.Option[byte] {
	vspec.Requires(l != nil && l.position >= 0 && l.position <= len(l.input))
	vspec.Modifies(&l.position)
	pos, in := l.position, l.input
	res := l.readRune()
	some, ok := res.(types.Some[byte])
	_, none := res.(types.None[byte])
	vspec.Ensures("a character or none", ok != none)
	vspec.Ensures("a character is taken unless the input has ended", ok == (pos < len(in)))
	vspec.Ensures("the character at the position", !ok || some.Value == in[pos])
	vspec.Ensures("the position moves past the character", l.position >= pos && l.position <= len(in) && (l.position > pos) == ok)
	return res
}

//verif:contract Lexer.peekRune
//verif:props C16
func c_peekRune(l *Lexer) types.Option[byte] {
	vspec.Requires(l != nil && l.position >= 0 && l.position <= len(l.input))
	res := l.peekRune()
	some, ok := res.(types.Some[byte])
	_, none := res.(types.None[byte])
	vspec.Ensures("a character or none", ok != none)
	vspec.Ensures("a character unless the input has ended", ok == (l.position < len(l.input)))
	vspec.Ensures("the character at the position", !ok || some.Value == l.input[l.position])
	return res
}

// The token between the offset and the position.
//
//verif:contract Lexer.token
//verif:props C16
func c_token(l *Lexer, ty token.Type) types.Result[*token.Token] {
	vspec.Requires(l != nil && l.offset >= 0 && l.offset <= l.position && l.position <= len(l.input) && l.line == spLine(l.input, l.offset) && l.column == spCol(l.input, l.offset))
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	off, line, col := l.offset, l.line, l.column
	res := l.token(ty)
	ok, is := res.(types.Ok[*token.Token])
	vspec.Ensures("a token", is && ok.Value != nil)
	tok := ok.Value
	vspec.Ensures("of this kind, unless it is classified further", tok.Type == ty || ty == token.Reserved)
	vspec.Ensures("starting at the offset", tok.Position == off && tok.Line == line && tok.Column == col)
	vspec.Ensures("with the text up to the position", tok.Capture == l.input[off:l.position])
	vspec.Ensures("the offset moves to the position", l.offset == l.position)
	vspec.Ensures("the line and column follow", l.line == spLine(l.input, l.offset) && l.column == spCol(l.input, l.offset))
	return res
}

//verif:iface wat/lex.Rule.Check trusted
func i_Check(x Rule, r byte) bool { return x.Check(r) }

//verif:iface wat/lex.Rule.Type trusted
func i_Type(x Rule) token.Type { return x.Type() }

//verif:iface wat/lex.Rule.RuleType trusted
func i_RuleType(x Rule) RuleType {
	t := x.RuleType()
	vspec.Ensures("a registered type", t == DfaRuleType || t == StringRuleType)
	return t
}

//verif:iface wat/lex.Factory.Lexeme trusted
func i_Lexeme(f Factory, x Rule) Lexeme {
	l := f.Lexeme(x)
	vspec.Ensures("a lexeme", l != nil)
	return l
}

//verif:iface wat/lex.Lexeme.Eat trusted
func i_Eat(x Lexeme, ch byte) bool {
	vspec.ModifiesKind((*DfaLexeme)(nil), (*StringLexeme)(nil))
	return x.Eat(ch)
}

//verif:iface wat/lex.Lexeme.Accepted trusted
func i_Accepted(x Lexeme) bool { return x.Accepted() }

//verif:iface wat/lex.Lexeme.Rule trusted
func i_Rule(x Lexeme) Rule {
	r := x.Rule()
	vspec.Ensures("a rule", r != nil)
	return r
}

func zzLexemes(ls []Lexeme) bool {
	return vspec.Forall(0, len(ls), func(i int) bool { return ls[i] != nil })
}

//verif:loop next
func loop_Place(l *Lexer, next int) bool {
	return l.position > l.offset && l.position <= len(l.input) && next >= 0
}

//verif:loop next
func loop_Round(l *Lexer, lexemes []Lexeme) bool {
	return l.position > l.offset && l.position <= len(l.input) && zzLexemes(lexemes)
}

//verif:loop next
func loop_Matched(matched []Lexeme, next int) bool { return next >= 0 && zzLexemes(matched) }

// One token, or an error.
//
//verif:contract Lexer.next
//verif:hide spLine spCol
//verif:props C16
func c_next(l *Lexer) types.Result[*token.Token] {
	vspec.Requires(zzPlaced(l) && zzRules(l))
	vspec.ModifiesKind((*DfaLexeme)(nil), (*StringLexeme)(nil))
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	in, off, line, col := l.input, l.offset, l.line, l.column
	res := l.next()
	ok, is := res.(types.Ok[*token.Token])
	e, failed := res.(types.Error[*token.Token])
	vspec.Ensures("a token or an error", is != failed)
	if !is {
		vspec.Ensures("an error is not empty", e.Value != nil)
		vspec.Ensures("an error delivers nothing", zzPlaced(l) && l.offset == off && l.line == line && l.column == col)
		return res
	}
	tok := ok.Value
	vspec.Ensures("a token", tok != nil)
	vspec.Ensures("the token starts where the last one ended", tok.Position == off)
	vspec.Ensures("the position of its first character", tok.Line == line && tok.Column == col)
	vspec.Ensures("the lexer stands at the end of the token", zzPlaced(l) && l.offset >= off && l.position == l.offset)
	vspec.Ensures("the text is the input from there to the end of the token", tok.Capture == in[off:l.offset])
	vspec.Ensures("every token but the last takes up input", l.offset > off || tok.Type == token.EndOfStream && off == len(in))
	return res
}

// ZZReady is the state of a lexer between two reads, ZZRead the number of bytes
// that have been read and ZZLeft the number of those that are left.
func ZZReady(l *Lexer) bool {
	if l == nil {
		return false
	}
	ty, position, line, column, capture := zzShown(l)
	return spReady(l.input, l.offset, l.position, l.line, l.column, l.peekToken != nil, ty, position, line, column, capture, l.Rules, registry[DfaRuleType] != nil && registry[StringRuleType] != nil) && ZZLeft(l) >= 0
}

//verif:def
func spReady(input string, offset, position, line, column int, peeked bool, ty token.Type, pposition, pline, pcolumn int, capture string, rules []Rule, registered bool) bool {
	return spPlaced(input, offset, position, line, column) && spRules(rules) && registered && (!peeked || position == offset && spToken(capture, pposition, pline, pcolumn, input, offset) && (offset > pposition || ty == token.EndOfStream && offset == len(input)))
}

func zzShown(l *Lexer) (ty token.Type, position, line, column int, capture string) {
	if t := l.peekToken; t != nil {
		return t.Type, t.Position, t.Line, t.Column, t.Capture
	}
	return
}

func ZZRead(l *Lexer) int { return zzRead(l) }
func ZZLeft(l *Lexer) int {
	_, position, _, _, _ := zzShown(l)
	return spLeft(l.input, l.offset, l.peekToken != nil, position)
}

//verif:def
func spLeft(input string, offset int, peeked bool, position int) int {
	if peeked {
		return len(input) - position
	}
	return len(input) - offset
}

// ZZModifies lists what reading changes.
func ZZModifies(l *Lexer) {
	ZZModifiesLexemes()
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	vspec.Modifies(&l.peekToken)
}

func ZZModifiesLexemes() { vspec.ModifiesKind((*DfaLexeme)(nil), (*StringLexeme)(nil)) }

// ZZModifiesAll lists all fields of a lexer.
func ZZModifiesAll(l *Lexer) {
	ZZModifies(l)
	vspec.Modifies(&l.input)
	vspec.Modifies(&l.Rules)
}

// Reading a token.
//
//verif:contract Lexer.Next
//verif:hide spLine spCol
//verif:props C16 C18
func c_Next(l *Lexer) (*token.Token, error) {
	vspec.Requires(ZZReady(l))
	vspec.ModifiesKind((*DfaLexeme)(nil), (*StringLexeme)(nil))
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	vspec.Modifies(&l.peekToken)
	in, at, peeked, left := l.input, zzRead(l), l.peekToken, ZZLeft(l)
	tok, err := l.Next()
	vspec.Ensures("the lexer stays usable", ZZReady(l) && l.peekToken == nil)
	if err != nil {
		vspec.Ensures("nothing is delivered with an error", zzRead(l) == at && ZZLeft(l) == left && peeked == nil)
		return tok, err
	}
	vspec.Ensures("the token starts where the last one ended", tok != nil && tok.Position == at)
	vspec.Ensures("the token has the text, line and column of its position", zzToken(tok, in, zzRead(l)))
	vspec.Ensures("every token but the last takes up input", zzRead(l) > at || tok.Type == token.EndOfStream && at == len(in))
	text := in[at:zzRead(l)]
	vspec.Assert("the text is that long", tok.Capture == text && len(text) == zzRead(l)-at)
	vspec.Ensures("less is left", ZZLeft(l) <= left && (ZZLeft(l) < left || tok.Type == token.EndOfStream && len(tok.Capture) == 0))
	vspec.Ensures("a token that was peeked is the one that is read", peeked == nil || tok == peeked)
	return tok, err
}

// Peeking at a token.
//
//verif:contract Lexer.Peek
//verif:hide spLine spCol
//verif:props C16 C18
func c_Peek(l *Lexer) (*token.Token, error) {
	vspec.Requires(ZZReady(l))
	vspec.ModifiesKind((*DfaLexeme)(nil), (*StringLexeme)(nil))
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	vspec.Modifies(&l.peekToken)
	in, at, peeked, pos, left := l.input, zzRead(l), l.peekToken, l.position, ZZLeft(l)
	tok, err := l.Peek()
	vspec.Ensures("the lexer stays usable", ZZReady(l))
	vspec.Ensures("peeking reads nothing", zzRead(l) == at && ZZLeft(l) == left)
	if err != nil {
		vspec.Ensures("peeking in vain changes nothing", l.peekToken == nil && l.position == pos)
		return tok, err
	}
	vspec.Ensures("the next token is shown", tok != nil && tok == l.peekToken && zzToken(tok, in, l.offset) && tok.Position == at)
	vspec.Ensures("the same token is shown again", peeked == nil || tok == peeked)
	return tok, err
}

// A token that has been peeked at is read next.
//
//verif:lemma
//verif:hide spLine spCol
//verif:props C16
func lemma_PeekNext(l *Lexer) {
	vspec.Requires(ZZReady(l))
	tok, err := l.Peek()
	if err != nil {
		return
	}
	again, err := l.Next()
	vspec.Ensures("and then read", err == nil && again == tok)
}

// A copy is in the same state and shares nothing that reading changes.
//
//verif:contract Lexer.Clone
//verif:hide spReady
//verif:props C16 C18
func c_Clone(l *Lexer) *Lexer {
	vspec.Requires(ZZReady(l))
	c := l.Clone()
	vspec.Ensures("the copy is another lexer", c != nil && c != l && vspec.Fresh(c))
	vspec.Ensures("the copy is in the same state", c.input == l.input && c.offset == l.offset && c.position == l.position && c.line == l.line && c.column == l.column && c.peekToken == l.peekToken && len(c.Rules) == len(l.Rules))
	vspec.Ensures("the copy is usable", ZZReady(c))
	return c
}

//verif:loop New
func loop_Rules(rules []Rule) bool {
	return vspec.Forall(0, len(rules), func(i int) bool { return rules[i] != nil })
}

// A new lexer stands at the start of its input.
//
//verif:contract New
//verif:props C16 C18
func c_New(input string) *Lexer {
	vspec.Assume("the factories of both kinds of rules stay registered", registry[DfaRuleType] != nil && registry[StringRuleType] != nil)
	l := New(input)
	vspec.Ensures("at the start of the input", l != nil && l.input == input && l.offset == 0 && l.position == 0 && l.line == 0 && l.column == 0 && l.peekToken == nil)
	vspec.Ensures("a new lexer", vspec.Fresh(l))
	vspec.Ensures("with rules", vspec.Forall(0, len(l.Rules), func(i int) bool { return l.Rules[i] != nil }))
	vspec.Ensures("the lexer is usable", ZZReady(l))
	return l
}

// zzKind is the kind and the length of
// the token that starts at the beginning of a text. A literal is one of the
// words that are not keywords.
func zzKind(s string) (token.Type, int) {
	if s == "" {
		return token.EndOfStream, 0
	}
	space := func(ch byte) bool { return strings.IndexByte(" \t\n\f\r\v", ch) >= 0 }
	idchar := func(ch byte) bool {
		return ch >= '0' && ch <= '9' || ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z' || strings.IndexByte("!#$%&'*+-./:<=>?@\\^_`|~", ch) >= 0
	}
	run := func(f func(ch byte) bool) int {
		n := 0
		for n < len(s) && f(s[n]) {
			n++
		}
		return n
	}
	switch {
	case space(s[0]):
		return token.Whitespace, run(space)
	case strings.HasPrefix(s, ";;"):
		if n := strings.IndexByte(s, '\n'); n >= 0 {
			return token.LineComment, n + 1
		}
		return token.LineComment, len(s)
	case strings.HasPrefix(s, "(;"):
		if n := strings.Index(s[2:], ";)"); n >= 0 {
			return token.BlockComment, n + 4
		}
		return "", 0
	case s[0] == '(':
		return token.OpenParen, 1
	case s[0] == ')':
		return token.CloseParen, 1
	case s[0] == '"':
		if n := strings.IndexByte(s[1:], '"'); n >= 0 {
			return token.String, n + 2
		}
		return "", 0
	case idchar(s[0]):
		n := run(idchar)
		switch {
		case s[0] == '$' && n > 1:
			return token.Id, n
		case s[:n] == "module":
			return token.Module, n
		case s[:n] == "component":
			return token.Component, n
		}
		return token.Reserved, n
	}
	return "", 0
}

func zzSameKind(ty, want token.Type) bool {
	return ty == want || want == token.Reserved && (ty == token.Integer || ty == token.Float || ty == token.Keyword)
}

// Any text, any sequence of reads, peeks and copies.
//
//verif:bounded 20000
//verif:props C16
func bounded_Lexer(seed uint64) {
	g := vspec.NewGen(seed)
	in := zzText(g)
	l := New(in)
	at := 0
	for n := 0; n < 40; n++ {
		ty, width := zzKind(in[at:])
		switch g.Int(4) {
		case 0:
			tok, err := l.Peek()
			vspec.Ensures("a peek fails when no token starts here", (err != nil) == (ty == ""))
			if err == nil {
				vspec.Ensures("a peek shows the next token", zzSameKind(tok.Type, ty) && tok.Position == at && tok.Capture == in[at:at+width])
			}
			continue
		case 1:
			l = l.Clone()
			continue
		case 2:
			l.Clone().Next()
			continue
		}
		tok, err := l.Next()
		vspec.Ensures("a read fails when no token starts here", (err != nil) == (ty == ""))
		if err != nil {
			return
		}
		vspec.Ensures("the kind of token", zzSameKind(tok.Type, ty))
		vspec.Ensures("the text of the token", tok.Position == at && tok.Capture == in[at:at+width])
		vspec.Ensures("the line of the token", tok.Line == strings.Count(in[:at], "\n"))
		vspec.Ensures("the column of the token", tok.Column == at-1-strings.LastIndex(in[:at], "\n"))
		at += width
	}
}

// ZZPeeked is the token that is read next if it is known.
func ZZPeeked(l *Lexer) *token.Token { return l.peekToken }
