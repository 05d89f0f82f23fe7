package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

//verif:contract eat
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_eat(lexer *lex.Lexer, ty token.Type) types.Result[bool] {
	vspec.Requires(lex.ZZReady(lexer) && ty != token.EndOfStream)
	lex.ZZModifies(lexer)
	left := lex.ZZLeft(lexer)
	res := eat(lexer, ty)
	vspec.Ensures("an answer or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	if ok, is := res.(types.Ok[bool]); is {
		vspec.Ensures("a token that is eaten takes up input", !ok.Value || lex.ZZLeft(lexer) < left)
	}
	return res
}
