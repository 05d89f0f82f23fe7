package wit

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
)

// zzFull says that every item of a document is something.
func zzFull(items []ast.AstItem) bool {
	return vspec.Forall(0, len(items), func(i int) bool {
		return items[i].Use != nil || items[i].World != nil || items[i].Interface != nil
	})
}

//verif:loop
func loop_Items(n *ast.Ast) bool { return zzFull(n.Items) }

//verif:contract parseAst
//verif:hide github.com/patrickhuber/go-wasm/wit/lex:spReady github.com/patrickhuber/go-wasm/wit/lex:spToken github.com/patrickhuber/go-wasm/wit/lex:spLeft
//verif:lazy
//verif:props C20
func c_parseAst(lexer *lex.Lexer) types.Result[*ast.Ast] {
	vspec.Requires(lex.ZZReady(lexer))
	zzReads(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))
	res := parseAst(lexer)
	vspec.Ensures("a value or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)
	if ok, is := res.(types.Ok[*ast.Ast]); is {
		vspec.Ensures("not nil", ok.Value != nil)
		vspec.Ensures("no item is empty", zzFull(ok.Value.Items))
	}
	return res
}

//verif:contract Parse
//verif:hide github.com/patrickhuber/go-wasm/wit/lex:spReady github.com/patrickhuber/go-wasm/wit/lex:spToken github.com/patrickhuber/go-wasm/wit/lex:spLeft
//verif:lazy
//verif:props C20
func c_Parse(input string) (*ast.Ast, error) {
	tree, err := Parse(input)
	vspec.Ensures("a tree or an error", err != nil || tree != nil)
	return tree, err
}
