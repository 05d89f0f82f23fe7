package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

//verif:contract parseWast
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_parseWast(lexer *lex.Lexer) types.Result[*ast.Wast] {
	vspec.Requires(lex.ZZReady(lexer))
	zzReads(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))
	res := parseWast(lexer)
	vspec.Ensures("a value or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	if ok, is := res.(types.Ok[*ast.Wast]); is {
		vspec.Ensures("not nil", ok.Value != nil)
		tok := lex.ZZPeeked(lexer)
		vspec.Ensures("all of the text is accounted for", tok != nil && tok.Type == token.EndOfStream)
	}
	return res
}

//verif:contract Parse
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_Parse(input string) (*ast.Wast, error) {
	lex.ZZModifiesLexemes()
	script, err := Parse(input)
	vspec.Ensures("a tree or an error", err != nil || script != nil)
	return script, err
}
