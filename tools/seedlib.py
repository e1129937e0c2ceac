"""Makes and validates planted bugs: /verif/seeded/<id>/.

Used by hand while building the checks (no check reads /verif/seeded):
  seed(id, property, [(file, old, new[, count])], package dir, demo test source, needs, breaks)
applies the edits to a scratch clone of /repo, keeps the diff, confirms that it
builds, passes the stable tests, that the demonstration fails with it and passes
without it, and runs the check of the property (and others asked for) against it.
"""
import json, os, re, shutil, subprocess, time
import concurrent.futures as cf
OUT='/verif/seeded'; WORK='/tmp/seedwork'
BASE='7408c75'
ENV=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off')
DEMO='''#!/bin/bash
# Runs the demonstration in the package it concerns, from an overlay.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
: "${HOME:=/root}"; export HOME
here="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp)" || exit 3
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_seed_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$o"
go test -vet=off -count=1 -timeout 240s -overlay "$o" -run '^TestSeedDemo$' ./%(pkg)s
'''
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
POOL=cf.ThreadPoolExecutor(int(os.environ.get('JOBS','3')))
def seed(*a,**k): POOL.submit(guarded,*a,**k)
def guarded(id,*a,**k):
    try: seed1(id,*a,**k)
    except BaseException as e: print('!!',id,repr(e),flush=True)
def seed1(id,prop,edits,pkg,demo,needs,breaks,also=()):
    repo=os.path.join(WORK,id); shutil.rmtree(repo,ignore_errors=True); os.makedirs(WORK,exist_ok=True)
    subprocess.check_call(['git','clone','-q','/repo',repo])
    def sh(cmd): return subprocess.run(cmd,shell=True,cwd=repo,env=ENV,capture_output=True,text=True)
    d=os.path.join(OUT,id); notes=''
    try:
        for e in edits:
            f,x,y=e[:3]; n=e[3] if len(e)>3 else 1
            s=open(os.path.join(repo,f)).read()
            assert s.count(x)==n,(id,f,x,s.count(x))
            open(os.path.join(repo,f),'w').write(s.replace(x,y))
        g=sh('gofmt -l detour recast sample cmd').stdout
        if g: notes+=' gofmt:'+g
        diff=sh('git diff').stdout
        # the changed lines must be lines of the original repository
        for f in {e[0] for e in edits}:
            hunks=sh('git diff -U0 -- '+f).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',hunks,re.M):
                a=int(m.group(1)); c=int(m.group(2) or 1)
                if c==0: continue
                bl=sh('git blame -s -L%d,%d HEAD -- %s'%(a,a+c-1,f)).stdout.splitlines()
                own=[l for l in bl if not l.startswith('^') and sh('git merge-base --is-ancestor %s %s'%(l.split()[0],BASE)).returncode!=0]
                if own: notes+=' TOUCHES LINES OF FIXES:'+str(own[:2])
        os.makedirs(d,exist_ok=True)
        open(os.path.join(d,'patch.diff'),'w').write(diff)
        open(os.path.join(d,'demo_test.go'),'w').write(demo)
        open(os.path.join(d,'demo.sh'),'w').write(DEMO%dict(pkg=pkg)); os.chmod(os.path.join(d,'demo.sh'),0o755)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(os.path.join(d,'meta.json'),'w'),indent=1)
        b=sh('go build ./... && go vet ./... ')
        if sh('go build ./...').returncode: print(id,'DOES NOT BUILD',b.stderr[-500:],flush=True); return
        o=sh('go test -json -vet=off -count=1 -timeout 2m ./...').stdout
        ok=set()
        for l in o.split('\n'):
            if l.startswith('{'):
                x=json.loads(l)
                if x.get('Action')=='pass' and x.get('Test'): ok.add(x['Package']+'/'+x['Test'])
        if not STABLE<=ok: print(id,'FAILS TESTS',sorted(STABLE-ok)[:5],flush=True); return
        p=sh('bash %s/demo.sh'%d)
        if p.returncode==0: print(id,'DEMO PASSES WITH THE BUG',p.stdout[-800:],flush=True); return
        pm=[l.strip() for l in p.stdout.splitlines() if 'demo' in l or 'panic' in l or '.go:' in l][:2] or [(p.stdout+p.stderr)[-900:]]
        cs=[]
        for i in [prop]+list(also):
            t=time.time(); r=sh('/verif/tools/against.sh %s %s'%(repo,i))
            cs.append((i,r.returncode,('VIOLATION property='+i) in r.stdout,round(time.time()-t),[l[:200] for l in (r.stdout+r.stderr).splitlines() if l][:2]))
        sh('git checkout -q -- .')
        u=sh('bash %s/demo.sh'%d)
        if u.returncode!=0: print(id,'DEMO FAILS WITHOUT THE BUG',(u.stdout+u.stderr)[-1500:],flush=True); return
        print('%s %s %s\n   demo: %s'%('OK ' if cs[0][2] else 'MISSED',id,notes,pm))
        for c in cs: print('  ',*c,flush=True)
    finally:
        shutil.rmtree(repo,ignore_errors=True)
