package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

//verif:contract expectValue
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_expectValue(lexer *lex.Lexer, ty token.Type, capture string) types.Result[any] {
	vspec.Requires(lex.ZZReady(lexer) && ty != token.EndOfStream)
	lex.ZZModifies(lexer)
	left := lex.ZZLeft(lexer)
	res := expectValue(lexer, ty, capture)
	vspec.Ensures("done or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	vspec.Ensures("the token takes up input", !zzOk(res) || lex.ZZLeft(lexer) < left)
	return res
}
