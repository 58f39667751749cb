#!/usr/bin/env python3
"""Plants bugs: mkseed.py SPEC.py [ID...]
SPEC.py fills SEEDS with dicts id, prop, needs, breaks, edits=[(file, old, new)], pkg,
test (Go source with func TestSeedDemo), optional flags, checks. Works in a scratch copy of
/repo: applies the change, checks that it builds, passes the stable tests and that the
demonstration tells the difference, writes seeded/<id> and runs the checks on the copy."""
import sys, os, json, subprocess, shutil, tempfile, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g={}
exec(open(sys.argv[1]).read(), g)
R=tempfile.mkdtemp(prefix='seed.')
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def sub(s,to):  # the toolchain scripts on the scratch copy
    b=open(s).read().replace('. /opt/vp/env.sh','. /opt/vp/env.sh; export GOWORK=%s/go.work.scratch'%R).replace('/repo',R)
    open(to,'w').write(b); return to
def one(s):
    print('=====',s['id'],flush=True)
    d=os.path.join(V,'seeded',s['id']); os.makedirs(d,exist_ok=True)
    pkg=s['pkg']; m='kem/mkem' if pkg.startswith('kem/mkem') else '.'
    open(d+'/demo_test.go','w').write(s['test'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
[ -n "$SEED_GOWORK" ] && export GOWORK=$SEED_GOWORK
O=$(mktemp)
echo "{\\"Replace\\":{\\"$R/%s/zz_seed_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$O"
cd "$R/%s" && go test %s -overlay "$O" -vet=off -count=1 -timeout 250s -run '^TestSeedDemo$' ./%s
''' % (pkg,m,s.get('flags',''),os.path.relpath(pkg,m)))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    demo='SEED_GOWORK=%s/go.work.scratch bash %s/demo.sh'%(R,d)
    bad=lambda *a: (print(*a), shutil.rmtree(d), sh('git checkout -- .',cwd=R))
    r=sh(demo,cwd=R)
    if r.returncode or 'no tests to run' in r.stdout: return bad('DEMO FAILS UNCHANGED',r.stdout[-3000:])
    for f,o,n in s['edits']:
        p=os.path.join(R,f); t=open(p).read()
        if t.count(o)!=1: return bad('EDIT',f,t.count(o),o)
        open(p,'w').write(t.replace(o,n))
    open(d+'/patch.diff','w').write(sh('git diff',cwd=R).stdout)
    r=sh('bash '+sub('/opt/vp/build.sh',R+'/.git/vbuild.sh'))
    if r.returncode: return bad('BUILD FAILS',r.stdout[-2000:])
    r=sh(demo,cwd=R)
    if r.returncode==0: return bad('DEMO PASSES WITH BUG',r.stdout[-500:])
    print('demo with bug:',r.stdout[-300:].replace('\n',' | '))
    for k in range(2):
        sh('bash '+sub('/opt/vp/test.sh',R+'/.git/vtest.sh')+' '+R+'/.git/t.json')
        j=json.load(open(R+'/.git/t.json'))
        if not j['failed'] and len(j['passed'])>=217: break
    else: return bad('TESTS FAIL',j['failed'],len(j['passed']))
    for c in s.get('checks',[s['prop']]):
        r=sh('VERIF_REPO=%s %s/scripts/check %s quick'%(R,V,c),cwd=V)
        print('check',c,'rc',r.returncode); print('\n'.join(l[:220] for l in r.stdout.splitlines() if 'VIOL' in l or 'real build' in l or 'INCONC' in l or ' quick:' in l)[-900:],flush=True)
    sh('git checkout -- .',cwd=R)
try:
    shutil.rmtree(R); sh('cp -a /repo '+R)
    open(R+'/go.work.scratch','w').write(open('/opt/vp/go.work').read().replace('/repo',R))
    shutil.copy('/opt/vp/go.work.sum',R+'/go.work.scratch.sum') if os.path.exists('/opt/vp/go.work.sum') else 0
    for s in g['SEEDS']:
        if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
        one(s)
finally:
    shutil.rmtree(R,ignore_errors=True)
