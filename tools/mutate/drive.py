#!/usr/bin/env python3
"""drive.py MUTANTS.jsonl OUT.jsonl [workers] [runs]: builds the simulation with each
small change and records whether a check or the repository's tests notice it."""
import json,os,subprocess,sys,threading,queue,shutil
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; W=int(sys.argv[3]) if len(sys.argv)>3 else 7; RUNS=sys.argv[4] if len(sys.argv)>4 else '2500'
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['file'],d['from'],d['to'],d['text']))
base='/tmp/mt'; os.makedirs(base,exist_ok=True)
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
C=['C01','C02','C03','C04','C05','C06']; R=['R01','R02','R03','R04','R05','R06','R07','R08']; P=['P02','P03','P04','P01','P05']; X=['X01','X02','X03','X04','X05','X06']
def order(f):
    if f in('cache/message.go','xxcache.go','command.go'): return ['X01','X05','X06','X02','X03','X04']
    if 'cachehash' in f: return ['C02','C06']
    if f.startswith('cache/'): return C+['X01','X06']
    if f in('redis/conn.go','redis/protocol.go'): return R+['P01','P04','P05','X02','X03']
    if f in('redis/pool.go','redis/redis.go','redis/command.go'): return ['R04','R03','R05','R06','R07','R08','R01','X02','X03']
    return P+['X01','X02','X03','X04']
env=dict(os.environ); env['GOMAXPROCS']='2'
lock=threading.Lock(); q=queue.Queue()
for m in muts:
    if (m['file'],m['from'],m['to'],m['text']) not in done: q.put(m)
of=open(out,'a')
def sh(cmd,cwd,t,e=env):
    try:
        r=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return r.returncode,r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
def work(i):
    d=f'{base}/w{i}'; repo=d+'/repo'; o=d+'/out'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(o); shutil.copytree('/repo',repo,ignore=shutil.ignore_patterns('.git'))
    e=dict(env); e['XX_REPO']=repo; e['XX_OUT']=o
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=f"{repo}/{m['file']}"; src=open(p,'rb').read()
        open(p,'wb').write(src[:m['from']]+m['text'].encode()+src[m['to']:])
        r=dict(m)
        try:
            c,t=sh('. /opt/vp/env.sh; go build ./...',repo,120)
            if c: 
                # tolerate unused variables/imports: not a candidate
                r['res']='nobuild'; continue
            c,t=sh('bash /verif/build.sh',d,180,e)
            if c: r['res']='simbuild'; r['log']=t[-600:]; continue
            r['res']=''
            for pr in order(m['file']):
                c,t=sh(f'{o}/dst -prop {pr} -runs {RUNS} -fast -workers 3 -verif {d}',d,280)
                if c==1 and 'VIOLATION' in t: r['res']='caught'; r['by']=pr; r['class']=[l for l in t.splitlines() if l.startswith('run ') or 'minimised' in l][:1]; break
                if c!=0: r['res']='error'; r['by']=pr; r['log']=t[-500:]; break
            if r['res']=='':
                c,t=sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 2m $(go list ./... | grep -vx github.com/liujiangwei/xxcache)",repo,200)
                ok=set()
                for l in t.splitlines():
                    try: j=json.loads(l)
                    except Exception: continue
                    if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test'])
                r['res']='survived' if all(s in ok for s in stable) else 'tests'
        finally:
            open(p,'wb').write(src)
            with lock: of.write(json.dumps(r)+'\n'); of.flush()
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
