#!/usr/bin/env python3
"""mk.py ID... : builds seeded/<id> from specs, validates, runs check"""
import sys,os,subprocess,json,shutil,importlib.util,glob,tempfile
SEED='/verif/seeded'
DEMO_SH='''#!/bin/bash
# Runs the demonstration against the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} PATH="/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
export GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mod="$repo/@MODDIR@"
cp "$mod/go.mod" "$tmp/go.mod"
cp "$mod/go.sum" "$tmp/go.sum" 2>/dev/null
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$repo/@PKG@/zz_demo_test.go": "$here/demo_test.go"@EXTRA@}}
EOF
cd "$mod" || exit 2
go test @RACE@-vet=off -count=1 -timeout 120s -mod=mod -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -run '^TestDemo' ./@SUB@ > "$tmp/out" 2>&1
rc=$?
grep -aE 'demo_test|^--- |FAIL|panic|DATA RACE|ok ' "$tmp/out" | cut -c1-300 | tail -n 20
exit $rc
'''
def run(cmd,cwd=None,**k):
    return subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
sys.path.insert(0,'/tmp/seed')
def load():
    bugs={}
    for f in sorted(glob.glob('/tmp/seed/specs_*.py')):
        s=importlib.util.spec_from_file_location('x',f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in bugs,b['id']
            bugs[b['id']]=b
    return bugs
def make(b):
    d=f"{SEED}/{b['id']}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seedwt',dir='/tmp')
    repo=w+'/repo'
    run(f'cp -a /repo {repo}')
    # edits
    for f,old,new in b['edits']:
        p=f'{repo}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'EDIT COUNT',s.count(old),repr(old)[:80]); shutil.rmtree(w); return False
        open(p,'w').write(s.replace(old,new))
    diff=run('git diff',repo).stdout
    open(d+'/patch.diff','w').write(diff)
    # blame check on removed lines
    files=sorted({e[0] for e in b['edits']}); bad=[];removed=0
    for f in files:
        df=run(f'git diff -U0 -- {f}',repo).stdout
        bl=run(f'git blame -s --root HEAD -- {f}',repo).stdout.split('\n')
        for l in df.split('\n'):
            if l.startswith('@@'):
                a=l.split()[1][1:].split(','); st=int(a[0]); n=int(a[1]) if len(a)>1 else 1
                for i in range(st,st+n):
                    removed+=1
                    if not bl[i-1].lstrip('^').startswith('1c01064'): bad.append((f,i,bl[i-1][:90]))
    if removed==0: print(b['id'],'NOTE: only additions')
    if bad: print(b['id'],'NOT ORIGINAL LINES:',bad)
    open(d+'/demo_test.go','w').write(b['demo'])
    pkg=b['pkg']; moddir='nurbs' if pkg=='nurbs' else '.'
    sub='' if pkg=='nurbs' else pkg
    extra=''
    if pkg=='triangulate3': extra=', "$repo/triangulate3/englober_test.go": ""'
    sh=DEMO_SH.replace('@PKG@',pkg).replace('@MODDIR@',moddir).replace('@SUB@',sub).replace('@EXTRA@',extra).replace('@RACE@','-race ' if b.get('race') else '')
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/meta.json','a').write('\n')
    # demo elsewhere
    shutil.copytree(d,w+'/demo',ignore=shutil.ignore_patterns('*.diff','meta.json'))
    dp=run(f'bash {w}/demo/demo.sh',repo)
    dc=run(f'bash {w}/demo/demo.sh','/repo')
    # stable tests on patched: apply to /repo
    ok=True
    st=run('git status --short','/repo').stdout
    assert st=='',st
    try:
        r=run(f'git apply {d}/patch.diff','/repo'); assert r.returncode==0,r.stdout
        bld=run('bash /opt/vp/build.sh','/repo')
        t=run('bash /opt/vp/test.sh /tmp/o.json','/repo')
        tests=json.load(open('/tmp/o.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        chk=run(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {b['property']}",'/verif')
        others=[]
        for o in b.get('also',[]):
            c2=run(f"VERIF_SEED=1 timeout 900 python3 check.py {o}",'/verif'); others.append((o,c2.returncode))
    finally:
        run('git checkout -- .','/repo')
    shutil.rmtree(w)
    def passed(x):
        return x
    caught=chk.returncode==1 and f"VIOLATION property={b['property']}" in chk.stdout
    v='OK' if dp.returncode!=0 and dc.returncode==0 and bld.returncode==0 else 'BAD'
    print(f"{b['id']:34s} {b['property']} {v} demo clean={dc.returncode} patched={dp.returncode} build={bld.returncode} tests={t.stdout.strip().splitlines()[-1][:60]} CAUGHT={caught} (rc {chk.returncode}) {others}")
    if v=='BAD':
        print('--- clean:',dc.stdout[-1500:]); print('--- patched:',dp.stdout[-1500:]); print(bld.stdout[-800:] if bld.returncode else '')
    if not caught: print('   check out:',chk.stdout[-400:])
    return v=='OK' and caught
if __name__=='__main__':
    bugs=load(); ids=sys.argv[1:] or list(bugs)
    for i in ids:
        if i not in bugs:
            ids2=[k for k in bugs if k.startswith(i)]
        else: ids2=[i]
        for k in ids2: make(bugs[k]); sys.stdout.flush()
