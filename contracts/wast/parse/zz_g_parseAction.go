// Written by tools/genparse.py.

package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
)

//verif:contract parseAction
//verif:hide github.com/patrickhuber/go-wasm/wat/lex:spReady github.com/patrickhuber/go-wasm/wat/lex:spToken github.com/patrickhuber/go-wasm/wat/lex:spLeft
//verif:lazy
//verif:props C18
func c_parseAction(lexer *lex.Lexer) types.Result[ast.Action] {
	vspec.Requires(lex.ZZReady(lexer))
	zzReads(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))
	res := parseAction(lexer)
	vspec.Ensures("a value or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	vspec.Ensures("what is accepted takes up input", !zzOk(res) || lex.ZZLeft(lexer) < left)
	return res
}
