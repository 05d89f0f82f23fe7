package wit

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
)

//verif:contract expect
//verif:hide github.com/patrickhuber/go-wasm/wit/lex:spReady github.com/patrickhuber/go-wasm/wit/lex:spToken github.com/patrickhuber/go-wasm/wit/lex:spLeft
//verif:lazy
//verif:props C20
func c_expect(lexer *lex.Lexer, tokenType token.TokenType) types.Result[any] {
	vspec.Requires(lex.ZZReady(lexer) && tokenType != token.EndOfStream)
	lex.ZZModifies(lexer)
	left := lex.ZZLeft(lexer)
	res := expect(lexer, tokenType)
	vspec.Ensures("done or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	vspec.Ensures("the token takes up input", !zzOk(res) || lex.ZZLeft(lexer) < left)
	return res
}
