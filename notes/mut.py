"""notes/mut.py MUTFILE [ids...]: for every mutant M(id, props, [(file, old, new)...]) build a clone with it and run the quick checks of its properties.
Works in /tmp/mut (clone + own build directory); /repo is only read."""
import os, subprocess, sys, json, time, tempfile, shutil
sys.path.insert(0, '/verif')
from spec import PROPS
R='/tmp/mut/repo'; B='/tmp/mut/build'
MUT=[]
def M(id, props, edits): MUT.append((id, props.split(), edits))
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def env():
    e=dict(os.environ); e.update(ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', VERIF_BUILD=B, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    return e
def prepare():
    os.makedirs('/tmp/mut', exist_ok=True)
    if not os.path.isdir(R): sh('git','clone','-q','/repo',R)
    sh('git','-C',R,'fetch','-q'); sh('git','-C',R,'checkout','-q','--','.'); sh('git','-C',R,'checkout','-q','--detach','origin/HEAD')
def apply(edits):
    touched=[]
    for f,o,n in edits:
        p=os.path.join(R,f); s=open(p,newline='',errors='surrogateescape').read()
        if s.count(o)!=1: return 'edit matches %d times in %s: %r' % (s.count(o), f, o[:60])
        open(p,'w',newline='',errors='surrogateescape').write(s.replace(o,n)); touched.append(p)
def revert(edits):
    for f in {e[0] for e in edits}:
        sh('git','-C',R,'checkout','--',f); os.utime(os.path.join(R,f))
def build(bins):
    t=[os.path.join(B,'pymod.stamp' if b.endswith('.py') else b) for b in bins]
    return sh('make','-C','/verif/harness','-j8','REPO='+R,'B='+B,*t)
def run(pid, cases=None, seed=1):
    p=PROPS[pid]; T=tempfile.mkdtemp()
    cmd=['python3','/verif/harness/'+p['bin']] if p['bin'].endswith('.py') else [os.path.join(B,p['bin'])]
    t=time.time()
    r=sh(*cmd,'--prop',pid,'--cases',str(cases or p['cases']),'--seed',str(seed),'--tmp',T,'--out',T+'/o.json','--replay-out',T+'/rep',env=env(),cwd=T)
    try: d=json.load(open(T+'/o.json')); v=bool(d['violated']); m=(d['message'] or '').strip().split('\n')
    except Exception as e: v=None; m=[r.stdout[-500:]]
    shutil.rmtree(T)
    return v, m, time.time()-t
if __name__=='__main__':
    prepare()
    sel=sys.argv[2:]
    exec(open(sys.argv[1]).read())
    for id,props,edits in MUT:
        if sel and id not in sel: continue
        e=apply(edits)
        if e: print(id,'SKIP',e,flush=True); revert(edits); continue
        try:
            b=build({PROPS[p]['bin'] for p in props})
            if b.returncode: print(id,'BUILD FAILED', [l for l in b.stdout.splitlines() if 'error' in l][:3],flush=True); continue
            for p in props:
                v,m,t=run(p)
                k=[l for l in m if 'FAIL' in l or 'violat' in l or 'expected' in l or 'instead' in l]
                print('%-28s %s %s %.0fs  %s' % (id,p,'caught' if v else 'MISSED' if v is False else 'ERROR',t,(m[-1] if m else '')[:150]),flush=True)
        finally: revert(edits)
