#!/usr/bin/env python3
# cross.py [-all] LIST...: apply every behaviour-preserving entry (property ending in -REF; with -all every
# entry) of the mutation lists to a scratch copy of /repo and run all properties on it; print what is not quiet.
import sys,subprocess,os,shutil,threading,queue
N=int(os.environ.get('N','4'))
AN=os.environ.get('AN','/tmp/an_all')
allm='-all' in sys.argv
q=queue.Queue()
for f in sys.argv[1:]:
    if f=='-all': continue
    for i,m in enumerate(eval(open(f).read())):
        if allm or m[0].endswith('-REF'): q.put((os.path.basename(f),i,m))
lock=threading.Lock()
def say(*a):
    with lock: print(*a,flush=True)
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True,executable='/bin/bash')
def worker(w):
    M=f'/tmp/cross{os.getpid()}_{w}'
    subprocess.run(['cp','-a','/repo',M],check=True)
    while True:
        try: name,i,m=q.get_nowait()
        except queue.Empty: break
        props,f,old,new=m[:4]
        edits=[(f,old,new)]+[(f,)+tuple(x) if len(x)==2 else tuple(x) for x in m[5:]]
        saved={}
        ok=True
        for g,a,b in edits:
            p=f'{M}/{g}'; s=open(p).read(); saved.setdefault(p,s)
            if a not in s: say(name,i,'NOMATCH',a[:80]); ok=False; break
            many=len(m)>4 and m[4] and (g,a,b)==edits[0]
            open(p,'w').write(s.replace(a,b) if many else s.replace(a,b,1))
        if ok:
            for p in saved: sh('(. /opt/vp/env.sh; goimports -w %s)'%p)
            for mod in {p[len(M)+1:].split('/')[0] for p in saved}|{'msc_server','msc_client'}:
                r=sh(f'. /opt/vp/env.sh; export GOWORK={M}/go.work; cd {M}/{mod} && go build ./...')
                if r.returncode: say(name,i,'NOBUILD',r.stderr[:300]); ok=False; break
        if ok:
            codec=any(g.startswith(('codec/','utils/')) for g,_,_ in edits)
            props=os.environ.get('PROPS') or ('all' if codec else 'A01,C08,C11,E01,K01,K02,K03,K04,K05,K06,K07,S01,S02,S03,S04,S05,S06,S07,S08,S09,S10,S11,S12,S13,X01')
            r=subprocess.run([AN,'-property',props,'-verif',f'/tmp/vvc{os.getpid()}_{w}'],env=dict(os.environ,GOSMS_REPO=M,GOMAXPROCS='2'),capture_output=True,text=True)
            bad=[l[:260] for l in r.stdout.splitlines() if 'held on everything' not in l and l.strip()]
            say(name,i,'quiet' if r.returncode==0 else 'ALARM',repr(new)[:60])
            if r.returncode:
                for l in bad[:12]: say('    ',l)
                if r.stderr: say('     ',r.stderr[-300:])
        for p,s in saved.items(): open(p,'w').write(s)
    shutil.rmtree(M)
ts=[threading.Thread(target=worker,args=(w,)) for w in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
say('crossdone')
