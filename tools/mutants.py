#!/usr/bin/env python3
"""Looks for gaps of the checks with small changes of the repository (dev tool, not a check).
   mutants.py filter IN OUT   keeps the changes that compile and pass the stable tests
   mutants.py check IN OUT    runs the checks on each until one reports a violation
"""
import re, json, os, shutil, subprocess, sys, threading, queue, random, time
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
MOD='github.com/GannettDigital/jstransform'
def sh(cmd, cwd, timeout=300):
    try:
        r=subprocess.run(['bash','-c','. /opt/vp/env.sh\n'+cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,errors='replace',start_new_session=True)
        return r.returncode,r.stdout
    except subprocess.TimeoutExpired:
        return 124,''
PK={'transform':['./transform'],'jsonschema':['./jsonschema','./transform','./generate'],'generate':['./generate'],'main.go':['.']}
def survives(m,d):
    p=f'{d}/{m["File"]}'; src=open(p,'rb').read()
    open(p,'wb').write(src[:m['From']]+m['Text'].encode()+src[m['To']:])
    try:
        rc,_=sh('go build ./...',d)
        if rc: return 'build'
        for pk in PK[m['File'].split('/')[0]]:
            ex='-exec "bash /opt/vp/start_of_second.sh"' if pk=='./transform' else ''
            rc,out=sh(f"unshare -Urn bash -c 'ip link set lo up; go test -json -vet=off -count=1 -timeout 60s {ex} {pk}'",d,200)
            if rc:
                bad=False
                seen=False
                for l in out.splitlines():
                    try: j=json.loads(l)
                    except ValueError: continue
                    if j.get('Action')=='fail':
                        if 'Test' in j:
                            seen=True
                            if j['Package']+'/'+j['Test'] in STABLE: bad=True
                if bad or not seen: return 'test'
        return 'survived'
    finally:
        sh('git checkout -q -- . && git clean -fdq',d)
def workers(items,n,work,done):
    q=queue.Queue()
    for i in items: q.put(i)
    lock=threading.Lock()
    def run(w):
        while True:
            try: it=q.get_nowait()
            except queue.Empty: return
            r=work(it,w)
            with lock: done(it,r)
    ts=[threading.Thread(target=run,args=(w,)) for w in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
def filt(inp,outp):
    items=[json.loads(l) for l in open(inp)]
    items=[m for m in items if not m['What'].startswith('zero')]
    prev=set()
    if os.path.exists(outp):
        for l in open(outp):
            j=json.loads(l); prev.add((j['File'],j['From'],j['To'],j['Text']))
    items=[m for m in items if (m['File'],m['From'],m['To'],m['Text']) not in prev]
    random.Random(1).shuffle(items)
    n=int(os.environ.get('J','4'))
    for w in range(n):
        d=f'/tmp/mw{w}'; shutil.rmtree(d,ignore_errors=True); sh(f'git clone -q /repo {d}','/tmp')
    f=open(outp,'a')
    def done(m,r):
        m['result']=r; f.write(json.dumps(m)+'\n'); f.flush()
    workers(items,n,lambda m,w:survives(m,f'/tmp/mw{w}'),done)
COVER={}
def order(m):
    """the checks that reach the function of the change, fewest seconds first"""
    return [p for p in COVER.get(m['File'],[])]
def errish(m):
    """a change of an error path or message only"""
    return bool(re.search(r'err != nil|fmt\.Errorf|errors\.New|: err ->|nil, err|deleted: fmt\.Printf|PrintDefaults',m['What']))
PKG={'transform':['C%02d'%i for i in range(1,18)],'jsonschema':['C21','C20','C22','C23','C24','C25','C01','C04','C07','C12','C31','C34','C38'],
     'generate':['C%d'%i for i in range(31,41)],'main.go':['C37']}
def check(inp,outp):
    items=[m for m in map(json.loads,open(inp)) if m['result']=='survived']
    prev=set()
    if os.path.exists(outp):
        for l in open(outp):
            j=json.loads(l); prev.add((j['File'],j['From'],j['To'],j['Text']))
    only=os.environ.get('FILES','')
    items=[m for m in items if (m['File'],m['From'],m['To'],m['Text']) not in prev and only in m['File']]
    if 'ERR' not in os.environ: items=[m for m in items if not errish(m)]
    random.Random(2).shuffle(items)
    n=int(os.environ.get('J','4')); secs=os.environ.get('SECS','25')
    for w in range(n):
        d=f'/tmp/mc{w}'; shutil.rmtree(d,ignore_errors=True); sh(f'git clone -q /repo {d}','/tmp')
    reach={}
    for e in os.listdir('/verif/evidence'):
        ev=json.load(open('/verif/evidence/'+e)); reach[e[:-5]]={x.rsplit('.',1)[-1].split('$')[0] for x in ev['coverage']['functions_encoded']}
    kills={}
    f=open(outp,'a')
    def work(m,w):
        d=f'/tmp/mc{w}'; p=f'{d}/{m["File"]}'; src=open(p,'rb').read()
        open(p,'wb').write(src[:m['From']]+m['Text'].encode()+src[m['To']:])
        log=[]
        try:
            cand=[p for p in sorted(reach) if m['Func'] in reach[p]]
            cand.sort(key=lambda p:-kills.get((m['File'],m['Func'],p),0)*100-kills.get((m['File'],p),0))
            cand+=[p for p in PKG[m['File'].split('/')[0]] if p not in cand]
            if 'avro' in m['File']: cand=['C33','C39']+[p for p in cand if p not in ('C33','C39')]
            for c in cand:
                rc,out=sh(f'/tmp/mverif/bin/verif -n -prop {c} -repo {d} -verif /tmp/mverif -time {secs} -j 2','/verif',400)
                if rc==1 and 'VIOLATION' in out:
                    kills[(m['File'],m['Func'],c)]=kills.get((m['File'],m['Func'],c),0)+1
                    kills[(m['File'],c)]=kills.get((m['File'],c),0)+1
                    return 'killed '+c
                if rc not in (0,): log.append(f'{c}:{rc}')
            return 'missed '+' '.join(cand)+(' !! '+' '.join(log) if log else '')
        finally:
            sh('git checkout -q -- .',d)
    def done(m,r):
        m['checked']=r; f.write(json.dumps(m)+'\n'); f.flush()
        print(m['File'],m['Line'],m['Func'],m['What'][:100].replace('\n',' '),'=>',r,flush=True)
    workers(items,n,work,done)
{'filter':filt,'check':check}[sys.argv[1]](sys.argv[2],sys.argv[3])
