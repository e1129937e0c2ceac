#!/usr/bin/env python3
"""Development only: run.py MUTANTS.jsonl COVERAGE.txt RESULTS.jsonl PER_FILE SEED JOBS [file...]
Plants sampled mutants in scratch copies of /repo, runs the tests, then the
checks until one notices; writes the outcome of each."""
import json,os,random,shutil,subprocess,sys,collections,concurrent.futures as cf,threading,time
mf,cov,out,per,seed,jobs=sys.argv[1:7]; only=sys.argv[7:]
per,seed,jobs=int(per),int(seed),int(jobs)
covered=collections.defaultdict(list)
for l in open(cov):
    if 'go-detour/' not in l or l.rstrip().endswith(' 0'): continue
    p,r=l.split('go-detour/')[-1].split(':'); a,b=r.split(',')[0],r.split(',')[1].split()[0]
    covered[p].append((tuple(map(int,a.split('.'))),tuple(map(int,b.split('.')))))
ms=collections.defaultdict(list)
for l in open(mf):
    m=json.loads(l)
    if any(a[0]<=m['line']<=b[0] for a,b in covered[m['file']]): ms[m['file']].append(m)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
Dq='D09 D10 D07 D11 D14 D12 D13 D15 D17 D08 D16 D01 D02 D04 D19 D20 D21 D03 D05 D06 D18'.split()
Dm='D02 D01 D16 D21 D12 D03 D04 D05 D06 D17 D20 D09 D13 D11 D14 D18 D07 D08 D10 D15'.split()
Dc='D20 D16 D04 D12 D21 D02 D01 D03 D05 D13 D15'.split()
Sx='S05 S04 S02 S01 R14 S03 D18'.split()
R={'rasterization':'R02 R01','heightfield':'R01 R05 R02','filter':'R04','area':'R07 R06 S04','region':'R08 R09','contour':'R09 R10','mesh':'R10 R11','polymesh':'R10','meshdetail':'R11','chunkytrimesh':'R12','inputgeom':'R13 R12 S04 S05 S03','meshloaderobj':'R13','recast':'R16 R03 R05 R02','buildcontext':'R15 R14','config':'S03 S01','dump':'R15 R14 S03'}
def order(f):
    if f.startswith('detour/'):
        b=os.path.basename(f)[:-3]
        if b in('query','node','nodequeue','queryfilter','polyquery','common','poly'): o=(['D19']if b=='node' else ['D22','D12','D13','D14'] if b in('common','poly') else [])+Dq
        elif b=='navmeshcreate': o=Dc
        elif b in('tile','structs'): o='D04 D05 D06 D01 D02 D03 D12 D20'.split()
        else: o=Dm
        return o+['S02','S01']
    if f.startswith('recast/'):
        o=R.get(os.path.basename(f)[:-3],'').split()
        rest=[x for x in 'R01 R02 R03 R04 R05 R06 R07 R08 R09 R10 R11 R12 R13 R14 S01 S02 S03 S04 S05'.split() if x not in o]
        return o+[x for x in rest if x[0]=='S' or x=='R14']
    if f.startswith('cmd/'): return ['S03']
    return Sx
env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off')
pk=[('detour','detour'),('recast','recast'),('sample/solomesh','solomesh'),('sample/tilemesh','tilemesh'),('cmd/recast/cmd','cmd')]
lock=threading.Lock()
dirs=[]
for j in range(jobs):
    d='/tmp/mut/%d'%j; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['git','clone','-q',os.environ.get('MUT_REPO','/repo'),d+'/repo'])
    for p,n in pk: open(d+'/repo/'+p+'/verif_zero.go','w').write('package %s\n\nvar verifZero int\n'%n)
    os.makedirs(d+'/v'); shutil.copy('/verif/KNOWN_FINDINGS.txt',d+'/v')
    shutil.copytree('/verif/harness',d+'/h')
    g=open(d+'/h/go.mod').read().replace('=> /repo','=> '+d+'/repo'); open(d+'/h/go.mod','w').write(g)
    dirs.append(d)
def sh(cmd,cwd,e,to):
    p=subprocess.Popen(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True,errors='replace')
    try: o,_=p.communicate(timeout=to); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -9,'timeout'
def run(m,d):
    src=subprocess.check_output(['git','show','HEAD:'+m['file']],cwd=d+'/repo')
    new=src[:m['start']]+m['new'].encode()+src[m['end']:]
    fp=d+'/repo/'+m['file']
    open(fp,'wb').write(new)
    try:
        rc,o=sh(['go','build','./...'],d+'/repo',env,120)
        if rc: return dict(m,res='nobuild')
        rc,o=sh(['go','test','-json','-vet=off','-count=1','-timeout','60s','./...'],d+'/repo',env,150)
        ok=set()
        for l in o.split('\n'):
            if l.startswith('{'):
                try: x=json.loads(l)
                except ValueError: continue
                if x.get('Action')=='pass' and x.get('Test'): ok.add(x['Package']+'/'+x['Test'])
        if not stable<=ok: return dict(m,res='tests')
        e=dict(env,VERIF_DIR=d+'/v',VERIF_REPO=d+'/repo',GOFLAGS='-mod=mod')
        rc,o=sh(['go','build','-o',d+'/v/vh','.'],d+'/h',e,200)
        if rc: return dict(m,res='harness: '+o[-300:])
        ids=order(m['file'])
        if 'S03' in ids: sh(['go','build','-o',d+'/v/tool','github.com/arl/go-detour/cmd/recast'],d+'/h',e,200); e['VERIF_TOOL']=d+'/v/tool'
        for stage in range(int(os.environ.get('STAGES','2'))):
            for i in ids:
                ee=dict(e)
                if stage==1 and m['file'][:6] in('detour','recast') and i in('S01','S02','S03','S04','S05','R14','D18') and not (i=='R14' and 'buildcontext' in m['file']): continue
                if stage==0:
                    if i=='D18': continue
                    ee['VERIF_CASES']='30' if i[0]=='S' else '100' if i=='R14' else '800'
                rc,o=sh([d+'/v/vh','check',i,'quick','1'],d,ee,600)
                if 'VIOLATION' in o:
                    l=[x for x in o.split('\n') if x.strip() and 'VIOLATION' not in x and 'KNOWN' not in x]
                    return dict(m,res='caught',by=i,stage=stage,what=l[0][:160] if l else '')
        return dict(m,res='SURVIVED')
    finally: open(fp,'wb').write(src)
todo=[]
rnd=random.Random(seed)
for f in sorted(ms):
    if only and f not in only: continue
    l=ms[f]; rnd.shuffle(l); todo+=l[:per]
rnd.shuffle(todo)
done=set()
if os.path.exists(out):
    for l in open(out): x=json.loads(l); done.add((x['file'],x['start'],x['end'],x['new']))
todo=[m for m in todo if (m['file'],m['start'],m['end'],m['new']) not in done]
print(len(todo),'mutants',flush=True)
fh=open(out,'a')
free=list(dirs)
def job(m):
    with lock: d=free.pop()
    try: r=run(m,d)
    except Exception as ex: r=dict(m,res='error '+repr(ex))
    with lock:
        free.append(d); fh.write(json.dumps(r)+'\n'); fh.flush()
with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(job,todo))
