package wit

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
)

//verif:contract eat
//verif:hide github.com/patrickhuber/go-wasm/wit/lex:spReady github.com/patrickhuber/go-wasm/wit/lex:spToken github.com/patrickhuber/go-wasm/wit/lex:spLeft
//verif:lazy
//verif:props C20
func c_eat(lexer *lex.Lexer, tokenType token.TokenType) types.Result[bool] {
	vspec.Requires(lex.ZZReady(lexer) && tokenType != token.EndOfStream)
	lex.ZZModifies(lexer)
	left := lex.ZZLeft(lexer)
	res := eat(lexer, tokenType)
	vspec.Ensures("an answer or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	if ok, is := res.(types.Ok[bool]); is {
		vspec.Ensures("a token that is eaten takes up input", !ok.Value || lex.ZZLeft(lexer) < left)
	}
	return res
}
