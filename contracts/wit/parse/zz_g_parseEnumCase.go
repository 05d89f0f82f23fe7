// Written by tools/genparse.py.

package wit

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
)

//verif:contract parseEnumCase
//verif:hide github.com/patrickhuber/go-wasm/wit/lex:spReady github.com/patrickhuber/go-wasm/wit/lex:spToken github.com/patrickhuber/go-wasm/wit/lex:spLeft
//verif:lazy
//verif:props C20
func c_parseEnumCase(lexer *lex.Lexer) types.Result[ast.EnumCase] {
	vspec.Requires(lex.ZZReady(lexer))
	zzReads(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))
	res := parseEnumCase(lexer)
	vspec.Ensures("a value or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	vspec.Ensures("what is accepted takes up input", !zzOk(res) || lex.ZZLeft(lexer) < left)
	return res
}
