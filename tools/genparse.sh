L=github.com/patrickhuber/go-wasm/wat/lex
python3 tools/genparse.py /repo wat/parse contracts/wat/parse/zz_g C18 $L lax=parseInstructions,parseOptionalId,parseBlockType,parseBlock,parseLoop,parseIf group=parseThen,parseElse,parseInstructions,parseBlock,parseLoop,parseIf,parseInstruction
python3 tools/genparse.py /repo wast/parse contracts/wast/parse/zz_g C18 $L lax=parseWast,parseConsts,parseResults skip=parseGet,parseWast
python3 tools/genparse.py /repo wit/parse contracts/wit/parse/zz_g C20 github.com/patrickhuber/go-wasm/wit/lex package=wit lax=parseStream,parseFuture,parseResult,parseOptionalVersion group=parseStream,parseFuture,parseList,parseOption,parseTuple,parseResult,parseType trusted=parseResource skip=parseOptionalVersion,parseAst,parseParameters,parseResourceMethod
