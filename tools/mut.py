#!/usr/bin/env python3
# mut.py PROPS file<TAB>old<TAB>new ... from a python list file: each mutation [(props, file, old, new, count?)]
import sys,subprocess,os,shutil
muts=eval(open(sys.argv[1]).read())
M='/tmp/mut%d'%os.getpid()
subprocess.run(['cp','-a','/repo',M],check=True)
for a in sys.argv[2:]:
    f,o,n=a.split('::'); q=open(M+'/'+f).read(); assert o in q; open(M+'/'+f,'w').write(q.replace(o,n,1))
def build(f):
    mod=f.split('/')[0]
    r=subprocess.run(f'(. /opt/vp/env.sh; export GOWORK={M}/go.work; cd {M}/{mod} && go build ./... )',shell=True,capture_output=True,text=True,executable='/bin/bash')
    return r.returncode==0, r.stderr
for i,m in enumerate(muts):
    props,f,old,new=m[:4]
    p=f'{M}/{f}'; s=open(p).read()
    c=s.count(old)
    if c==0 or (c>1 and not(len(m)>4 and m[4])): print(i,'NOMATCH',c,old); continue
    t=s.replace(old,new)
    for a,b in m[5:]: assert a in t,(i,a); t=t.replace(a,b,1)
    open(p,'w').write(t); subprocess.run('(. /opt/vp/env.sh; goimports -w %s)'%p,shell=True,executable='/bin/bash')
    ok,err=build(f)
    if not ok: print(i,'NOBUILD',err[:300]); open(p,'w').write(s); continue
    env=dict(os.environ,GOSMS_REPO=M)
    r=subprocess.run(['/tmp/an','-property',props.split('-')[0],'-verif','/tmp/vv'],env=env,capture_output=True,text=True,timeout=600)
    lines=[l for l in r.stdout.splitlines() if l.strip()]
    print(i,'rc',r.returncode,f,repr(new)[:60],'|',(lines[0][:230] if r.returncode else ''))
    if r.returncode not in(0,1): print(r.stdout[-300:],r.stderr[-600:])
    open(p,'w').write(s)
shutil.rmtree(M)
