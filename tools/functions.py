import re,glob
out=set()
for pat,pk in (('/repo/*.go','water'),('/repo/binding/*.go','binding')):
    for f in glob.glob(pat):
        if f.endswith('_test.go'): continue
        for l in open(f):
            m=re.match(r'func (?:\(\s*(?:\w+\s+)?\*?(\w+)\s*\) )?(\w+)\(',l)
            if m: out.add(f"{pk}.{m[1] or ''}.{m[2]}")
open('/verif/checker/functions.txt','w').write('\n'.join(sorted(out))+'\n')
print(len(out))
