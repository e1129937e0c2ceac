"""Runs the check of its property against each planted bug (or those named):
prints which are caught; the results go to tools/catches_seeded.json."""
import json, os, shutil, subprocess, sys, time
import concurrent.futures as cf
OUT='/verif/seeded'; WORK='/tmp/seedwork'; RES='/verif/tools/catches_seeded.json'
ids=sys.argv[1:] or sorted(os.listdir(OUT))
def one(id):
    repo=os.path.join(WORK,'re-'+id); shutil.rmtree(repo,ignore_errors=True); os.makedirs(WORK,exist_ok=True)
    try:
        subprocess.check_call(['git','clone','-q','/repo',repo])
        p=subprocess.run(['git','apply',f'{OUT}/{id}/patch.diff'],cwd=repo,capture_output=True,text=True)
        if p.returncode: return id,None,'PATCH DOES NOT APPLY '+p.stderr[:200]
        prop=json.load(open(f'{OUT}/{id}/meta.json'))['property']
        t=time.time(); r=subprocess.run(['/verif/tools/against.sh',repo,prop],capture_output=True,text=True)
        return id,prop if f'VIOLATION property={prop}' in r.stdout and r.returncode==1 else '',[l[:220] for l in (r.stdout+r.stderr).splitlines() if l][:3]+[round(time.time()-t)]
    finally: shutil.rmtree(repo,ignore_errors=True)
res=json.load(open(RES)) if os.path.exists(RES) else {}
with cf.ThreadPoolExecutor(int(os.environ.get('JOBS','3'))) as ex:
    for f in cf.as_completed([ex.submit(one,i) for i in ids]):
        id,c,x=f.result(); print(id,'caught' if c else 'MISSED',x,flush=True)
        if c: res[id]=c
        else: res.pop(id,None)
json.dump({k:res[k] for k in sorted(res) if os.path.isdir(os.path.join(OUT,k))},open(RES,'w'),indent=1)
