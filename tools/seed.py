#!/usr/bin/env python3
"""Builds and confirms planted bugs: seed.py SPEC.py [ID...]
SPEC.py defines SEEDS, a list of dicts: id, property, pkg ('.' or 'binding'),
edits [(file, old, new)], needs, breaks, test (Go source of a test file with TestDemo).
A bug is kept under /verif/seeded only if it builds, passes the stable tests,
and its demonstration passes without it and fails with it."""
import sys,os,subprocess,shutil,json,tempfile
ROOT='/verif/seeded'
BASE=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',GOFLAGS='-mod=mod')
DEMO='''#!/bin/bash
# run with cwd at the repository: runs demo_test.go inside package %(pkg)s through an overlay
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cp go.mod "$tmp/demo.mod" && cp go.sum "$tmp/demo.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/demo.mod" TMPDIR=$tmp
GO=$(command -v go1.27.3 || command -v go)
echo "{\\"Replace\\":{\\"$PWD/%(dir)szz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
"$GO" test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s %(tags)s-run '^TestDemo$' ./%(pkg)s
'''
def run(cmd,cwd,env=ENV):
    return subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def stable():
    b=json.load(open('/opt/vp/BASELINE.json'))
    return b
def tests(cwd,mod):
    r=run(['go1.27.3','test','-vet=off','-count=1','-modfile='+mod,'./...'],cwd)
    return r
def one(sd):
    tmp=tempfile.mkdtemp(prefix='seed')
    try:
        m=tmp+'/repo'
        subprocess.check_call(['cp','-a','/repo',m])
        for f,old,new in sd['edits']:
            p=m+'/'+f; s=open(p).read()
            if s.count(old)!=1: return 'edit matches %d times in %s: %r'%(s.count(old),f,old[:60])
            open(p,'w').write(s.replace(old,new))
        patch=subprocess.check_output(['git','-C',m,'diff'],text=True)
        # lines removed must be original ones
        for f in sorted({e[0] for e in sd['edits']}):
            bl=subprocess.check_output(['git','-C','/repo','blame','-s','-l','--line-porcelain','HEAD','--',f],text=True).split('\n')
            org=[l.split()[0] for l in bl if len(l.split())>=3 and len(l.split()[0])==40 and l.split()[1].isdigit()]
            d=subprocess.check_output(['git','-C',m,'diff','-U0','--',f],text=True)
            rem=0
            import re
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',d,re.M):
                a=int(h.group(1)); n=int(h.group(2) or 1)
                for k in range(a,a+n):
                    rem+=1
                    if org[k-1]!=BASE: return 'changes a line of a fix: %s:%d'%(f,k)
            if rem==0: print('  note: only additions in',f)
        shutil.copy('/repo/go.mod',tmp+'/t.mod'); shutil.copy('/repo/go.sum',tmp+'/t.sum')
        r=run(['go1.27.3','build','-modfile='+tmp+'/t.mod','./...'],m)
        if r.returncode: return 'does not build: '+r.stdout[-800:]
        r=tests(m,tmp+'/t.mod')
        if r.returncode: return 'tests fail: '+r.stdout[-1500:]
        d=tmp+'/seed'; os.makedirs(d)
        pkg=sd.get('pkg','.')
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg if pkg!='.' else '',dir='' if pkg=='.' else pkg+'/',tags=sd.get('tags','')))
        os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go','w').write(sd['test'])
        open(d+'/patch.diff','w').write(patch)
        json.dump(dict(property=sd['property'],needs=sd['needs'],what_it_breaks=sd['breaks']),open(d+'/meta.json','w'),indent=1)
        r=run(['bash',d+'/demo.sh'],'/repo')
        if r.returncode: return 'demo fails on the unchanged tree: '+r.stdout[-1500:]
        r=run(['bash',d+'/demo.sh'],m)
        if r.returncode==0: return 'demo passes with the bug'
        if 'build failed' in r.stdout or 'setup failed' in r.stdout: return 'demo does not build with the bug: '+r.stdout[-800:]
        dst=ROOT+'/'+sd['id']
        shutil.rmtree(dst,ignore_errors=True); os.makedirs(ROOT,exist_ok=True)
        shutil.copytree(d,dst)
        # does the check catch it
        r=run(['/verif/.build/watercheck','-repo',m,'-prop',sd['property'],'-tier','quick','-known','/verif/KNOWN_FINDINGS'],'/verif')
        first=[l for l in r.stdout.split('\n') if l][:2]
        return 'kept; '+('CAUGHT ' if r.returncode==1 and 'VIOLATION property='+sd['property'] in r.stdout else 'MISSED ')+' | '.join(first)[:200]
    finally:
        shutil.rmtree(tmp,ignore_errors=True)
ns={}
exec(open(sys.argv[1]).read(),ns)
for sd in ns['SEEDS']:
    if len(sys.argv)>2 and sd['id'] not in sys.argv[2:]: continue
    print(sd['id'],sd['property'],one(sd),flush=True)
