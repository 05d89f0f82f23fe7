package wit

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/internal/vspec"
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
)

// zzOk says that a result is a value, zzSettled that it is a value or an error.
func zzOk[T any](res types.Result[T]) bool {
	_, ok := res.(types.Ok[T])
	return ok
}

func zzSettled[T any](res types.Result[T]) bool {
	if zzOk(res) {
		return true
	}
	e, ok := res.(types.Error[T])
	return ok && e.Value != nil
}

func zzSpace(t token.TokenType) bool {
	return t == token.Whitespace || t == token.BlockComment || t == token.LineComment
}

//verif:loop
func loop_Lexer(lexer *lex.Lexer) bool { return lex.ZZReady(lexer) }

type zzLeft int

//verif:loop
func loop_Left(lexer *lex.Lexer, left zzLeft) bool { return lex.ZZLeft(lexer) <= int(left) }

//verif:loop
func loop_Less(lexer *lex.Lexer, left zzLeft) bool { return lex.ZZLeft(lexer) < int(left) }

//verif:measure
func loop_Measure(lexer *lex.Lexer) int { return lex.ZZLeft(lexer) }

//verif:loop
func loop_Clone(clone *lex.Lexer, lexer *lex.Lexer) bool {
	return clone != lexer && vspec.Fresh(clone) && lex.ZZReady(clone) && lex.ZZLeft(clone) <= lex.ZZLeft(lexer)
}

func zzReads(lexer *lex.Lexer) { lex.ZZModifiesAll(lexer) }





