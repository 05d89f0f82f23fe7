#!/usr/bin/env python3
"""genparse.py REPO PKG OUT PROP LEXPKG: contracts that say that the parse
functions of a package return a value or an error and use up input."""
import re,sys
repo,pkg,out,prop,lexp,*rest=sys.argv[1:]
opts=dict(r.split('=',1) for r in rest)
done=set(opts.get('skip','').split(','))
trusted=set(opts.get('trusted','').split(','))
lax=set(opts.get('lax','').split(','))          # may read nothing
group={n:i for i,n in enumerate(opts.get('group','').split(',')) if n}
extra=opts.get('import','').split(',')
src=open(f'{repo}/{pkg}/parser.go').read()
name=pkg.replace('/','_')
import glob,os
for old in glob.glob(f'{out}_*.go'): os.remove(old)
count=0
for m in re.finditer(r'^func (parse\w*)\(lexer \*lex\.Lexer(, [^)]*)?\) \(res types\.Result\[(.*)\]\) \{$',src,re.M):
    f,more,t=m.group(1),m.group(2) or '',m.group(3)
    if f in done: continue
    o=[]
    args=''.join(', '+a.strip().split()[0] for a in more.split(',') if a.strip())
    o.append(f'''//verif:{'trusted' if f in trusted else 'contract'} {f}
//verif:hide {lexp}:spReady {lexp}:spToken {lexp}:spLeft
//verif:lazy
//verif:props {prop}
func c_{f}(lexer *lex.Lexer{more}) types.Result[{t}] {{
	vspec.Requires(lex.ZZReady(lexer))
	zzReads(lexer)
	left := lex.ZZLeft(lexer)
	vspec.Bind(zzLeft(left))''')
    if f in group:
        o.append(f'	vspec.Descends(left, {group[f]})')
    o.append(f'''	res := {f}(lexer{args})
	vspec.Ensures("a value or an error", zzSettled(res))
	vspec.Ensures("the lexer stays usable", lex.ZZReady(lexer) && lex.ZZLeft(lexer) <= left)''')
    if f not in lax:
        o.append('	vspec.Ensures("what is accepted takes up input", !zzOk(res) || lex.ZZLeft(lexer) < left)')
    if t.startswith('*'):
        o.append(f'	if ok, is := res.(types.Ok[{t}]); is {{\n		vspec.Ensures("not nil", ok.Value != nil)\n	}}')
    if t.startswith('types.Option['):
        o.append(f'	if ok, is := res.(types.Ok[{t}]); is {{\n		vspec.Ensures("some or none", ok.Value != nil)\n	}}')
    o.append('	return res\n}\n')
    txt='\n'.join(o)
    imps=['github.com/patrickhuber/go-types','github.com/patrickhuber/go-wasm/internal/vspec',lexp]
    if 'ast.' in txt: imps.append('github.com/patrickhuber/go-wasm/'+pkg.rsplit('/',1)[0]+'/ast')
    for e in extra:
        if e and (e.rsplit('/',1)[1]+'.') in txt: imps.append(e)
    open(f'{out}_{f}.go','w').write('// Written by tools/genparse.py.\n\npackage '+opts.get('package','parse')+'\n\nimport (\n'+''.join(f'	"{i}"\n' for i in sorted(imps))+')\n\n'+txt)
    count+=1
print(count)
