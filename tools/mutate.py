#!/usr/bin/env python3
"""Mutation campaign: plants small changes in copies of /repo, looks which checks report them.
usage: mutate.py WORKERS SEED COUNT [FILE-SUBSTRING...]   (works under /tmp/mut, results in /tmp/mut/results.jsonl)
Not part of any check."""
import re,os,sys,random,subprocess,shutil,json,threading,queue,time
W,SEED,COUNT=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]); only=sys.argv[4:]
ROOT='/tmp/mut'; os.makedirs(ROOT,exist_ok=True)
FILES=['packages/compiler/src/circom.rs','packages/compiler/src/halo2.rs','packages/compiler/src/lib.rs','packages/compiler/src/regex.rs','packages/compiler/src/wasm.rs','packages/apis/src/extract_substrs.rs','packages/apis/src/padding.rs','packages/apis/src/wasm.rs','packages/compiler/src/bin/compiler.rs','packages/circom/circuits/regex_helpers.circom','packages/compiler/src/structs.rs']
OPS=[(r'==','!='),(r'!=','=='),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r'&&','||'),(r'\|\|(?=[ \n])','&&'),(r' \+ 1\b',' + 2'),(r' \+ 1\b',''),(r' - 1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\.max\(\)','.min()'),(r'\.min\(\)','.max()'),(r'\bbreak;','continue;'),(r'\bcontinue;','break;'),(r'\.\.=','..'),(r'\bif (?!let)(?=[^{]*\{$)','if !('),(r'\.rev\(\)',''),(r'\.is_empty\(\)','.len() == 1'),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b2\b','3'),(r'\b255\b','254'),(r'\b254\b','255'),(r'\bany\(','all('),(r'\ball\(','any('),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),(r'\bstart\b','end'),(r'\bend\b','start'),(r'\.start\b','.end'),(r' - ',' + '),(r' \+ ',' - '),(r'\.sort\w*\([^)]*\);',';'),(r'\.dedup\(\);',';'),(r'from_zero','zero_from'),(r'"accept"','"acceptx"'),(r'Some\(true\)','Some(false)'),(r'\.skip\(1\)',''),(r'\.insert\(','.remove(&'),(r'\bAND\b','OR'),(r'MultiOR','MultiAND')]
def mutants(f):
    src=open('/repo/'+f).read().split('\n'); out=[]
    for n,l in enumerate(src):
        if 'cfg(test)' in l: break
        s=l.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('*') or s.startswith('#'): continue
        for a,b in OPS:
            for m in re.finditer(a,l):
                if b=='if !(':
                    new=re.sub(r'\bif (.*) \{$',r'if !(\1) {',l)
                else: new=l[:m.start()]+b+l[m.end():]
                if new!=l: out.append((f,n,l,new))
        if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and not s.startswith('}') and s.count('(')==s.count(')') and ('(' in s or '=' in s):
            out.append((f,n,l,''))
        if s.startswith('.') and s.count('(')==s.count(')') and not s.endswith(';'):
            out.append((f,n,l,''))
    return out
M=[]
for f in FILES:
    if only and not any(o in f for o in only): continue
    M+=mutants(f)
M=sorted(set(M)); random.Random(SEED).shuffle(M); print(len(M),'mutants, taking',COUNT); M=M[:COUNT]
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='1.99.1-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never')
def sh(c,cwd,t=900,env=None):
    try: r=subprocess.run(c,shell=True,cwd=cwd,env=env or ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace'); return r.returncode,r.stdout
    except subprocess.TimeoutExpired as e: return 124,str(e.stdout)[-2000:]
FAST=dict(C01='3000',C02='2500',C03='1200',C04='1200',C05='800',C06='800',C07='1500',C08='500',C09='500',C10='2000',C11='1000',C12='4000',C13='1000',C14='4000',C15='200',C17='4000',C18='1500',C19='500',C20='6000',C21='12000',C22='2000')
def order(f):
    c=list(FAST)
    pre=['C12','C20','C14','C22'] if 'apis' in f else ['C18'] if 'bin/' in f else ['C21'] if 'helpers' in f else ['C10','C11'] if 'halo2' in f else ['C17','C03','C02','C04','C10']
    return pre+[x for x in c if x not in pre]
lock=threading.Lock(); Q=queue.Queue(); [Q.put(m) for m in enumerate(M)]
RES=open(ROOT+'/results.jsonl','a')
def setup(k):
    d=f'{ROOT}/w{k}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d+'/verif')
    sh(f'git clone -q /repo {d}/repo',ROOT); shutil.copytree('/verif/harness',d+'/verif/harness'); shutil.copytree('/verif/regress',d+'/verif/regress')
    t=open(d+'/verif/harness/Cargo.toml').read().replace('/repo/',d+'/repo/'); open(d+'/verif/harness/Cargo.toml','w').write(t)
    shutil.copytree('/verif/target/debug',d+'/verif/target/debug',symlinks=True)
def work(k):
    d=f'{ROOT}/w{k}'; setup(k)
    env=dict(ENV,VERIF_DIR=d+'/verif',VERIF_REPO=d+'/repo',VERIF_SEED='1',VERIF_SHRINK_S='0')
    while True:
        try: i,(f,n,old,new)=Q.get_nowait()
        except queue.Empty: return
        p=f'{d}/repo/{f}'; orig=open(p).read(); L=orig.split('\n'); L[n]=new; open(p,'w').write('\n'.join(L))
        t0=time.time(); st,by,why='survived',None,''
        rc,o=sh(f'cargo build --offline --target-dir {d}/verif/target && cargo build --offline -p zk-regex-compiler --bin zk-regex --target-dir {d}/verif/target',d+'/verif/harness')
        if rc: st='no-compile'
        else:
            for full in (0,):
                for c in order(f):
                    rc,o=sh(f'timeout -k 5 800 {d}/verif/target/debug/vharness check {c}',d,900,env if full else dict(env,VERIF_CASES=FAST[c]))
                    if rc==1: st,by,why='caught',c,next((x for x in o.split('\n') if x.strip()),'')[:200]; break
                    if rc not in(0,1): why+=f'[{c} rc={rc} {o[-200:]}]'
                if st=='caught': break
            if st=='survived':
                rc,o=sh('cargo test --workspace --no-fail-fast --offline',d+'/repo')
                if rc: st='tests-fail'
        open(p,'w').write(orig)
        with lock:
            RES.write(json.dumps(dict(i=i,status=st,by=by,full=False,f=f,line=n+1,old=old.strip(),new=new.strip(),why=why,t=round(time.time()-t0)))+'\n'); RES.flush()
T=[threading.Thread(target=work,args=(k,)) for k in range(W)]; [t.start() for t in T]; [t.join() for t in T]
