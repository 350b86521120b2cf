#!/usr/bin/env python3
"""mkseed.py SEEDS.py [id...]: makes /verif/seeded/<id>/ from a description and confirms it in a scratch copy of /repo."""
import sys,os,json,subprocess,shutil,textwrap
W='/tmp/seedwt'
def run(c,cwd=W,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 when the property holds
set -u
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestZZDemo' "./%(pkg)s" > "$t/log" 2>&1
rc=$?
tail -15 "$t/log"
rm -rf "$t"
exit $rc
'''
def make(s,tests=True):
    if not os.path.isdir(W):
        subprocess.run(['cp','-a','/repo',W],check=True)
    run('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for f,old,new in s['edits']:
        p=W+'/'+f; t=open(p).read()
        assert t.count(old)==1,(s['id'],f,t.count(old))
        open(p,'w').write(t.replace(old,new))
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    diff=run('git diff').stdout
    demo=d+'/demo.sh'
    open(demo,'w').write(DEMO%{'pkg':s['pkg']}); os.chmod(demo,0o755)
    open(d+'/demo_test.go.txt','w').write(s['demo'].strip()+'\n')
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=run('. /opt/vp/env.sh; cd %s; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...'%W)
    if b.returncode: print(s['id'],'BUILD FAILS',b.stderr[-400:]); return
    w=run('bash '+demo)
    run('git stash -q')
    u=run('bash '+demo)
    run('git stash pop -q')
    msg=[s['id'],'demo patched rc',w.returncode,'clean rc',u.returncode]
    if u.returncode: msg.append(u.stdout[-800:])
    if w.returncode==0: msg.append('NOT BROKEN')
    elif '--- FAIL' not in w.stdout and 'panic' not in w.stdout: msg.append(w.stdout[-500:])
    if tests:
        r=run('. /opt/vp/env.sh; cd %s; go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files\\|^ok"'%W)
        msg.append('TESTS '+('pass' if not r.stdout.strip() else r.stdout[-600:]))
    print(*msg,flush=True)
    run('git checkout -q -- .')
if __name__=='__main__':
    ns={}
    exec(open(sys.argv[1]).read(),ns)
    for s in ns['SEEDS']:
        if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
        make(s)
