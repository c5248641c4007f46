#!/usr/bin/env python3
"""Runs the check of each planted change's property (or the checks given) against it, in a copy of /repo.
usage: sens.py SEEDED-DIR[:CHECK,CHECK]...   (works under /tmp/sens, results appended to /tmp/sens/results.jsonl)
Not part of any check."""
import sys,os,json,subprocess,shutil,time,threading,queue
W=int(os.environ.get('SENS_WORKERS','2')); ROOT='/tmp/sens'; os.makedirs(ROOT,exist_ok=True)
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='1.99.1-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',VERIF_SEED=os.environ.get('VERIF_SEED','1'),VERIF_TIER='quick')
def sh(c,cwd,t=1000,env=ENV):
    try: r=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace'); return r.returncode,r.stdout
    except subprocess.TimeoutExpired as e: return 124,str(e.stdout)[-2000:]
Q=queue.Queue(); [Q.put(a) for a in sys.argv[1:]]; lock=threading.Lock(); RES=open(ROOT+'/results.jsonl','a')
def work(k):
    d=f'{ROOT}/w{k}'
    shutil.rmtree(d,True); os.makedirs(d+'/verif')
    sh(f'git clone -q /repo {d}/repo',ROOT)
    for n in ('harness','regress','tools'): shutil.copytree('/verif/'+n,d+'/verif/'+n)
    for n in ('run.sh','known_findings.md'): shutil.copy('/verif/'+n,d+'/verif/'+n)
    t=open(d+'/verif/harness/Cargo.toml').read().replace('/repo/',d+'/repo/'); open(d+'/verif/harness/Cargo.toml','w').write(t)
    shutil.copytree('/verif/target/debug',d+'/verif/target/debug',symlinks=True)
    env=dict(ENV,VERIF_REPO=d+'/repo')
    while True:
        try: a=Q.get_nowait()
        except queue.Empty: return
        s,_,checks=a.partition(':'); s=s.rstrip('/'); m=json.load(open(s+'/meta.json'))
        rc,o=sh(f'git apply {s}/patch.diff',d+'/repo')
        res=[]
        if rc: res=[('apply',rc,o[-200:],0)]
        else:
            for c in (checks.split(',') if checks else [m['property']]):
                t0=time.time(); rc,o=sh(f'bash {d}/verif/run.sh {c}',d,950,env)
                v=[l for l in o.split('\n') if 'VIOLATION' in l]
                res.append((c,rc,(v or [o[-300:]])[0],round(time.time()-t0)))
        sh('git checkout -q -- .',d+'/repo')
        with lock:
            for r in res: print(os.path.basename(s),*r,flush=True)
            RES.write(json.dumps([os.path.basename(s),res])+'\n'); RES.flush()
T=[threading.Thread(target=work,args=(k,)) for k in range(W)]; [t.start() for t in T]; [t.join() for t in T]
