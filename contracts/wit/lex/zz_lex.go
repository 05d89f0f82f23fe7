package lex

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/token"
)

// spLine and spCol are the line and column of position i.
//
//verif:spec
func spLine(s string, i int) int {
	if i <= 0 {
		return 0
	}
	if s[i-1] == '\n' {
		return spLine(s, i-1) + 1
	}
	return spLine(s, i-1)
}

//verif:spec
func spCol(s string, i int) int {
	if i <= 0 || s[i-1] == '\n' {
		return 0
	}
	return spCol(s, i-1) + 1
}

// zzPlaced says that the lexer has delivered exactly the first offset bytes.
func zzPlaced(l *Lexer) bool {
	return l != nil && spPlaced(l.input, l.offset, l.position, l.line, l.column)
}

//verif:def
func spPlaced(input string, offset, position, line, column int) bool {
	return offset >= 0 && offset <= position && position <= len(input) && line == spLine(input, offset) && column == spCol(input, offset)
}

// zzToken says that a token is the text of the input from its position to end.
func zzToken(t *token.Token, in string, end int) bool {
	return t != nil && t.Position >= 0 && t.Position <= end && end <= len(in) && spToken(t.Capture, t.Position, t.Line, t.Column, in, end)
}

//verif:def
func spToken(capture string, position, line, column int, in string, end int) bool {
	return position >= 0 && position <= end && end <= len(in) && capture == in[position:end] && line == spLine(in, position) && column == spCol(in, position)
}

// ZZReady is the state of a lexer between two reads and ZZLeft the number of
// bytes that are left.
func ZZReady(l *Lexer) bool {
	if l == nil {
		return false
	}
	ty, position, line, column, capture := zzShown(l)
	return spReady(l.input, l.offset, l.position, l.line, l.column, l.peekToken != nil, ty, position, line, column, capture) && ZZLeft(l) >= 0
}

//verif:def
func spReady(input string, offset, position, line, column int, peeked bool, ty token.TokenType, pposition, pline, pcolumn int, capture string) bool {
	return spPlaced(input, offset, position, line, column) && (!peeked || position == offset && spToken(capture, pposition, pline, pcolumn, input, offset) && (offset > pposition || ty == token.EndOfStream && offset == len(input)))
}

func zzShown(l *Lexer) (ty token.TokenType, position, line, column int, capture string) {
	if t := l.peekToken; t != nil {
		return t.Type, t.Position, t.Line, t.Column, t.Capture
	}
	return
}

func ZZPeeked(l *Lexer) *token.Token { return l.peekToken }

func ZZLeft(l *Lexer) int {
	_, position, _, _, _ := zzShown(l)
	return spLeft(l.input, l.offset, l.peekToken != nil, position)
}

//verif:def
func spLeft(input string, offset int, peeked bool, position int) int {
	if peeked {
		return len(input) - position
	}
	return len(input) - offset
}

// ZZModifies lists what reading changes.
func ZZModifies(l *Lexer) {
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	vspec.Modifies(&l.peekToken)
}

// ZZModifiesAll lists all fields of a lexer.
func ZZModifiesAll(l *Lexer) {
	ZZModifies(l)
	vspec.Modifies(&l.input)
}

// zzRead is the number of bytes that have been read.
func zzRead(l *Lexer) int {
	if l.peekToken != nil {
		return l.peekToken.Position
	}
	return l.offset
}

func genp_Lexer(g *vspec.Gen) *Lexer {
	l := New(zzText(g))
	for n := g.Int(6); n > 0; n-- {
		l.Next()
	}
	if g.Bool() {
		l.Peek()
	}
	return l
}

func zzText(g *vspec.Gen) string {
	s := ""
	for n := g.Int(8); n > 0; n-- {
		s += g.Pick("use", "useful", "u8", "_", "-", "->", "/", "//x\n", "/*", "*/", "/* a /* b */ c */", " ", "\n", "\t\r\n", "{", "}", "%", "%a", "é", "\xff", "9", "12", "a-b", "a_b", "=", "<", ">", "@", ":", ";", ",", ".", "(", ")", "*", "+", "!", "world")
	}
	return s
}

//verif:loop token
func loop_Line(l *Lexer, i int) bool {
	return l.line == spLine(l.input, i) && i >= l.offset && i <= l.position
}

//verif:loop token
func loop_Col(l *Lexer, i int) bool { return l.column == spCol(l.input, i) }

// One character.
//
//verif:contract Lexer.readRune
//verif:props C19
func c_readRune(l *Lexer) types.Option[rune] {
	vspec.Requires(l != nil && l.position >= 0 && l.position <= len(l.input))
	vspec.Modifies(&l.position)
	pos, in := l.position, l.input
	res := l.readRune()
	some, ok := res.(types.Some[rune])
	_, none := res.(types.None[rune])
	vspec.Ensures("a character or none", ok != none)
	vspec.Ensures("a character is taken unless the input has ended", ok == (pos < len(in)))
	vspec.Ensures("the character at the position", vspec.Imp(ok, zzRune(in, pos, some.Value)))
	vspec.Ensures("the position moves past the character", l.position >= pos && l.position <= len(in) && (l.position > pos) == ok)
	return res
}

func zzRune(in string, pos int, r rune) bool {
	if pos < 0 || pos >= len(in) {
		return false
	}
	got, _ := utf8.DecodeRuneInString(in[pos:])
	return got == r
}

//verif:contract Lexer.peekRune
//verif:props C19
func c_peekRune(l *Lexer) types.Option[rune] {
	vspec.Requires(l != nil && l.position >= 0 && l.position <= len(l.input))
	res := l.peekRune()
	some, ok := res.(types.Some[rune])
	_, none := res.(types.None[rune])
	vspec.Ensures("a character or none", ok != none)
	vspec.Ensures("a character unless the input has ended", ok == (l.position < len(l.input)))
	vspec.Ensures("the character at the position", vspec.Imp(ok, zzRune(l.input, l.position, some.Value)))
	return res
}

// The token between the offset and the position.
//
//verif:contract Lexer.token
//verif:props C19
func c_token(l *Lexer, ty token.TokenType) types.Result[*token.Token] {
	vspec.Requires(l != nil && l.offset >= 0 && l.offset <= l.position && l.position <= len(l.input) && l.line == spLine(l.input, l.offset) && l.column == spCol(l.input, l.offset))
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	off, line, col := l.offset, l.line, l.column
	res := l.token(ty)
	ok, is := res.(types.Ok[*token.Token])
	vspec.Ensures("a token", is && ok.Value != nil)
	tok := ok.Value
	vspec.Ensures("of this kind", tok.Type == ty)
	vspec.Ensures("starting at the offset", tok.Position == off && tok.Line == line && tok.Column == col)
	vspec.Ensures("with the text up to the position", tok.Capture == l.input[off:l.position])
	vspec.Ensures("the offset moves to the position", l.offset == l.position)
	vspec.Ensures("the line and column follow", l.line == spLine(l.input, l.offset) && l.column == spCol(l.input, l.offset))
	return res
}

//verif:contract Lexer.eat
//verif:props C19
func c_eat(l *Lexer, ch rune) types.Result[bool] {
	vspec.Requires(l != nil && l.position >= 0 && l.position <= len(l.input))
	vspec.Modifies(&l.position)
	pos := l.position
	res := l.eat(ch)
	ok, is := res.(types.Ok[bool])
	vspec.Ensures("no error", is)
	vspec.Ensures("the character is taken if it is there", ok.Value == zzRune(l.input, pos, ch))
	vspec.Ensures("the position moves past the character", l.position >= pos && l.position <= len(l.input) && (l.position > pos) == ok.Value)
	return res
}

//verif:loop next
func loop_Place(l *Lexer) bool {
	return l.position > l.offset && l.position <= len(l.input)
}

//verif:loop next
func loop_Depth(l *Lexer, depth int) bool {
	return l.position > l.offset && l.position <= len(l.input) && depth == depth
}

// One token, or an error.
//
//verif:contract Lexer.next
//verif:hide spLine spCol
//verif:props C19
func c_next(l *Lexer) types.Result[*token.Token] {
	vspec.Requires(zzPlaced(l))
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	in, off, line, col := l.input, l.offset, l.line, l.column
	res := l.next()
	ok, is := res.(types.Ok[*token.Token])
	e, failed := res.(types.Error[*token.Token])
	vspec.Ensures("a token or an error", is != failed)
	if !is {
		vspec.Ensures("an error is not empty", e.Value != nil)
		vspec.Ensures("an error delivers nothing", zzPlaced(l) && l.offset == off && l.line == line && l.column == col)
		return res
	}
	tok := ok.Value
	vspec.Ensures("a token", tok != nil)
	vspec.Ensures("the token starts where the last one ended", tok.Position == off)
	vspec.Ensures("the position of its first character", tok.Line == line && tok.Column == col)
	vspec.Ensures("the lexer stands at the end of the token", zzPlaced(l) && l.offset >= off && l.position == l.offset)
	vspec.Ensures("the text is the input from there to the end of the token", tok.Capture == in[off:l.offset])
	vspec.Ensures("every token but the last takes up input", l.offset > off || tok.Type == token.EndOfStream && off == len(in))
	return res
}

// Reading a token.
//
//verif:contract Lexer.Next
//verif:hide spLine spCol
//verif:props C19 C20
func c_Next(l *Lexer) (*token.Token, error) {
	vspec.Requires(ZZReady(l))
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	vspec.Modifies(&l.peekToken)
	in, at, peeked, left := l.input, zzRead(l), l.peekToken, ZZLeft(l)
	tok, err := l.Next()
	vspec.Ensures("the lexer stays usable", ZZReady(l) && l.peekToken == nil)
	if err != nil {
		vspec.Ensures("nothing is delivered with an error", zzRead(l) == at && ZZLeft(l) == left && peeked == nil)
		return tok, err
	}
	vspec.Ensures("the token starts where the last one ended", tok != nil && tok.Position == at)
	vspec.Ensures("the token has the text, line and column of its position", zzToken(tok, in, zzRead(l)))
	vspec.Ensures("every token but the last takes up input", zzRead(l) > at || tok.Type == token.EndOfStream && at == len(in))
	text := in[at:zzRead(l)]
	vspec.Assert("the text is that long", tok.Capture == text && len(text) == zzRead(l)-at)
	vspec.Ensures("less is left", ZZLeft(l) <= left && (ZZLeft(l) < left || tok.Type == token.EndOfStream && len(tok.Capture) == 0))
	vspec.Ensures("a token that was peeked is the one that is read", peeked == nil || tok == peeked)
	return tok, err
}

// Peeking at a token.
//
//verif:contract Lexer.Peek
//verif:hide spLine spCol
//verif:props C19 C20
func c_Peek(l *Lexer) (*token.Token, error) {
	vspec.Requires(ZZReady(l))
	vspec.Modifies(&l.position)
	vspec.Modifies(&l.offset)
	vspec.Modifies(&l.line)
	vspec.Modifies(&l.column)
	vspec.Modifies(&l.peekToken)
	in, at, peeked, pos, left := l.input, zzRead(l), l.peekToken, l.position, ZZLeft(l)
	tok, err := l.Peek()
	vspec.Ensures("the lexer stays usable", ZZReady(l))
	vspec.Ensures("peeking reads nothing", zzRead(l) == at && ZZLeft(l) == left)
	if err != nil {
		vspec.Ensures("peeking in vain changes nothing", l.peekToken == nil && l.position == pos)
		return tok, err
	}
	vspec.Ensures("the next token is shown", tok != nil && tok == l.peekToken && zzToken(tok, in, l.offset) && tok.Position == at)
	vspec.Ensures("the same token is shown again", peeked == nil || tok == peeked)
	return tok, err
}

// A token that has been peeked at is read next.
//
//verif:lemma
//verif:hide spLine spCol
//verif:props C19
func lemma_PeekNext(l *Lexer) {
	vspec.Requires(ZZReady(l))
	tok, err := l.Peek()
	if err != nil {
		return
	}
	again, err := l.Next()
	vspec.Ensures("and then read", err == nil && again == tok)
}

// A copy is in the same state and shares nothing that reading changes.
//
//verif:contract Lexer.Clone
//verif:hide spReady
//verif:props C19 C20
func c_Clone(l *Lexer) *Lexer {
	vspec.Requires(ZZReady(l))
	c := l.Clone()
	vspec.Ensures("the copy is another lexer", c != nil && c != l && vspec.Fresh(c))
	vspec.Ensures("the copy is in the same state", c.input == l.input && c.offset == l.offset && c.position == l.position && c.line == l.line && c.column == l.column && c.peekToken == l.peekToken)
	vspec.Ensures("the copy is usable", ZZReady(c))
	return c
}

// A new lexer stands at the start of its input.
//
//verif:contract New
//verif:props C19 C20
func c_New(input string) *Lexer {
	l := New(input)
	vspec.Ensures("at the start of the input", l != nil && l.input == input && l.offset == 0 && l.position == 0 && l.line == 0 && l.column == 0 && l.peekToken == nil)
	vspec.Ensures("a new lexer", vspec.Fresh(l))
	vspec.Ensures("the lexer is usable", ZZReady(l))
	return l
}

// zzKind is the kind of token that starts at the beginning of a text and its length.
func zzKind(s string) (token.TokenType, int) {
	if s == "" {
		return token.EndOfStream, 0
	}
	run := func(n int, f func(r rune) bool) int {
		for n < len(s) {
			r, w := utf8.DecodeRuneInString(s[n:])
			if !f(r) {
				break
			}
			n += w
		}
		return n
	}
	letters := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-' }
	r, w := utf8.DecodeRuneInString(s)
	switch {
	case unicode.IsSpace(r):
		return token.Whitespace, run(0, unicode.IsSpace)
	case strings.HasPrefix(s, "//"):
		return token.LineComment, run(0, func(r rune) bool { return r != '\n' })
	case strings.HasPrefix(s, "/*"):
		depth := 1
		for n := 2; n < len(s); {
			switch {
			case strings.HasPrefix(s[n:], "/*"):
				depth, n = depth+1, n+2
			case strings.HasPrefix(s[n:], "*/"):
				depth, n = depth-1, n+2
			default:
				n++
			}
			if depth == 0 {
				return token.BlockComment, n
			}
		}
		return "", 0
	case strings.HasPrefix(s, "->"):
		return token.RightArrow, 2
	case strings.ContainsRune("=,:.;(){}<>*@-+/", r):
		return token.TokenType(s[:1]), 1
	case r == '%':
		if n := 1; n < len(s) {
			r, w := utf8.DecodeRuneInString(s[1:])
			if unicode.IsLetter(r) || r == '_' || r == '-' {
				return token.ExplicitId, run(n+w, letters)
			}
		}
		return token.ExplicitId, 1
	case unicode.IsLetter(r) || r == '_':
		n := run(w, letters)
		if kw, ok := zzWords[s[:n]]; ok {
			return kw, n
		}
		return token.Id, n
	case unicode.IsDigit(r):
		return token.Integer, run(0, unicode.IsDigit)
	}
	return "", 0
}

var zzWords = map[string]token.TokenType{}

func init() {
	for _, w := range strings.Fields("use type func u8 u16 u32 u64 s8 s16 s32 s64 float32 float64 char resource own borrow record flags variant enum union bool string option result future stream list _ as from static interface tuple world import export package constructor include with") {
		zzWords[w] = token.TokenType(w)
	}
}

// Any text, any sequence of reads, peeks and copies.
//
//verif:bounded 20000
//verif:props C19
func bounded_Lexer(seed uint64) {
	g := vspec.NewGen(seed)
	in := zzText(g)
	l := New(in)
	at := 0
	for n := 0; n < 40; n++ {
		ty, width := zzKind(in[at:])
		switch g.Int(4) {
		case 0:
			tok, err := l.Peek()
			vspec.Ensures("a peek fails when no token starts here", (err != nil) == (ty == ""))
			if err == nil {
				vspec.Ensures("a peek shows the next token", tok.Type == ty && tok.Position == at && tok.Capture == in[at:at+width])
			}
			continue
		case 1:
			l = l.Clone()
			continue
		case 2:
			l.Clone().Next()
			continue
		}
		tok, err := l.Next()
		vspec.Ensures("a read fails when no token starts here", (err != nil) == (ty == ""))
		if err != nil {
			return
		}
		vspec.Ensures("the kind of token", tok.Type == ty)
		vspec.Ensures("the text of the token", tok.Position == at && tok.Capture == in[at:at+width])
		vspec.Ensures("the line of the token", tok.Line == strings.Count(in[:at], "\n"))
		vspec.Ensures("the column of the token", tok.Column == at-1-strings.LastIndex(in[:at], "\n"))
		at += width
	}
}
