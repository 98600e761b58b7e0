#!/usr/bin/env python3
"""seed.py SPEC.py: builds /verif/seeded/<id> from a spec defining
id, prop, needs, breaks, edits=[(file, old, new)], test (Go test source), pkg (directory of the package, default '.').
Confirms in a scratch copy that the change builds, passes the tests, and that the demonstration tells the two trees apart."""
import os,subprocess,sys,json,shutil,re
env=dict(os.environ,PATH="/opt/veriftools/go1.25.14/bin:/usr/bin:/bin",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",HOME="/root")
DEMO='''#!/bin/bash
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd,cwd,timeout=600):
    return subprocess.run(cmd,cwd=cwd,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=timeout)
for spec in sys.argv[1:]:
    g={}
    exec(open(spec).read(),g)
    wc='/tmp/seedwc_'+g['id']
    shutil.rmtree(wc,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',wc])
    d='/verif/seeded/'+g['id']
    ok=True
    try:
        for f,a,b in g['edits']:
            p=wc+'/'+f; s=open(p).read()
            if s.count(a)!=1:
                print(g['id'],'EDIT matches',s.count(a),'times in',f,repr(a[:60])); ok=False; break
            open(p,'w').write(s.replace(a,b))
        if not ok: continue
        # changed lines must be lines of the original
        diff=sh('git diff',wc).stdout
        base=sh('git rev-list --max-parents=0 HEAD',wc).stdout.split()[-1]
        removed=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for f in {e[0] for e in g['edits']}:
            old=sh('git show %s:%s'%(base,f),wc).stdout.splitlines()
            for l in removed:
                if l.strip() and l not in old: print(g['id'],'NOT ORIGINAL:',l)
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(g['test'].lstrip())
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=g.get('pkg','.'),flags=g.get('flags','')))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | tail -20; exit ${PIPESTATUS[0]}',wc)
        r=sh('go build ./... && go test -vet=off -count=1 ./...',wc)
        if r.returncode: print(g['id'],'TESTS FAIL\n','\n'.join(l for l in r.stdout.splitlines() if 'FAIL' in l or 'panic' in l)[:800]); ok=False
        r=sh('bash %s/demo.sh'%d,wc)
        if r.returncode==0: print(g['id'],'DEMO PASSES WITH PATCH'); ok=False
        elif 'TestDemo' not in r.stdout: print(g['id'],'DEMO odd:',r.stdout[:800]); ok=False
        else: print(g['id'],'demo:',[l for l in r.stdout.splitlines() if 'demo_test' in l][:2])
        r=sh('bash %s/demo.sh'%d,'/repo')
        if r.returncode!=0: print(g['id'],'DEMO FAILS ON CLEAN\n',r.stdout[:1500]); ok=False
        if ok and '--nocheck' not in os.environ.get('SEED',''):
            os.makedirs('/tmp/ev',exist_ok=True)
            for p in [g['prop']]+g.get('also',[]):
                r=subprocess.run(['/verif/bin/gotextcheck','check',p],cwd='/verif',env=dict(env,GOTEXT_REPO=wc,GOTEXT_VERIF='/tmp/ev'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
                print(g['id'],p,'rc',r.returncode,[l[:200] for l in r.stdout.splitlines() if not l.startswith('ok')][:2])
        print(g['id'],'OK' if ok else 'BAD')
    finally:
        shutil.rmtree(wc,ignore_errors=True)
