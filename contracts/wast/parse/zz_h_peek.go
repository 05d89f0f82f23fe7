package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

//verif:contract peek
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_peek(lexer *lex.Lexer) types.Result[*token.Token] {
	vspec.Requires(lex.ZZReady(lexer))
	lex.ZZModifies(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))
	res := peek(lexer)
	vspec.Ensures("a token or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	if ok, is := res.(types.Ok[*token.Token]); is {
		vspec.Ensures("a token that is no space", ok.Value != nil && !zzSpace(ok.Value.Type))
		vspec.Ensures("the token is read next", lex.ZZPeeked(lexer) == ok.Value)
	}
	return res
}
