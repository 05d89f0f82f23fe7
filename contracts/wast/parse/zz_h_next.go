package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

//verif:contract next
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_next(lexer *lex.Lexer) types.Result[*token.Token] {
	vspec.Requires(lex.ZZReady(lexer))
	lex.ZZModifies(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))
	res := next(lexer)
	vspec.Ensures("a token or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	if ok, is := res.(types.Ok[*token.Token]); is {
		vspec.Ensures("a token that is no space", ok.Value != nil && !zzSpace(ok.Value.Type))
		vspec.Ensures("every token but the last takes up input", ok.Value.Type == token.EndOfStream || lex.ZZLeft(lexer) < left)
		vspec.Ensures("a token with text takes up input", len(ok.Value.Capture) == 0 || lex.ZZLeft(lexer) < left)
	}
	return res
}
