import os,subprocess,json,sys,shutil
REPO='/repo'; SC=os.environ.get('SC','/tmp/plant/repo')
def fresh():
    shutil.rmtree(SC,ignore_errors=True); subprocess.check_call(['cp','-a',REPO,SC])
DEMO='''#!/bin/bash
# Runs the demonstration test inside the package (through an overlay).
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo.gotest"}}' "$PWD" "$dir" > "$tmp/overlay.json"
go test %s -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
'''
def plant(id,prop,edits,test,needs,breaks,flags=''):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    fresh()
    for f,old,new,*nth in edits:
        p=SC+'/'+f; s=open(p).read()
        n=nth[0] if nth else 0
        parts=s.split(old)
        assert len(parts)>n+1,(id,f,old,len(parts))
        if not nth: assert len(parts)==2,(id,f,old,'ambiguous',len(parts)-1)
        s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
        open(p,'w').write(s)
    diff=subprocess.check_output(['git','-C',SC,'diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO%flags); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.gotest','w').write(test)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
def verify(id):
    d='/verif/seeded/'+id
    env=dict(os.environ)
    fresh()
    run=lambda c:subprocess.run(c,cwd=SC,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    r0=run('bash %s/demo.sh'%d)
    a=run('git apply %s/patch.diff'%d)
    r1=run('bash %s/demo.sh'%d)
    b=run('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./...')
    ok=r0.returncode==0 and a.returncode==0 and r1.returncode!=0 and b.returncode==0
    print(id,'OK' if ok else 'BAD','clean',r0.returncode,'apply',a.returncode,'bug',r1.returncode,'tests',b.returncode,flush=True)
    if not ok: print(r0.stdout.decode()[-1500:],r1.stdout.decode()[-1500:],b.stdout.decode()[-800:])
    return ok
def check(id):
    d='/verif/seeded/'+id; prop=json.load(open(d+'/meta.json'))['property']
    fresh(); subprocess.check_call(['git','-C',SC,'apply',d+'/patch.diff'])
    r=subprocess.run([os.environ.get('BIN','/verif/bin/amtcheck'),'-repo',SC,'-depth','140','-replay','/tmp/plant/r.json'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    out=r.stdout.decode().splitlines()
    v=[l for l in out if '[C' in l and not l.startswith('UNDECIDED')]
    hit=[l for l in v if prop in l.rsplit('[',1)[1]]
    print(id,prop,'CAUGHT' if hit else 'MISSED','viol',len(v),'und',sum(l.startswith('UNDECIDED') for l in out),out[-1][-8:])
    for l in (hit or out)[:3]: print('    ',l[:260])
