#!/usr/bin/env python3
"""mutrun.py FILE.py [ID...]: applies each change of FILE.py (list M of (id, property, [(path, old, new)...]))
to a scratch copy of /repo and runs the property's quick check against it. Prints what the check made of it."""
import sys,os,subprocess,shutil,runpy,re
f=sys.argv[1]; want=set(sys.argv[2:])
M=runpy.run_path(f)['M']
W='/tmp/mutwork.%d'%os.getpid()
res={}
for m in M:
    mid,prop,eds=m[:3]
    if want and mid not in want and prop not in want: continue
    shutil.rmtree(W,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',W],check=True)
    bad=None
    for p,old,new in eds:
        q=os.path.join(W,p); s=open(q).read()
        if s.count(old)<1: bad='edit not found in %s: %r'%(p,old[:50]); break
        s=s.replace(old,new,1); open(q,'w').write(s)
    if bad: print(mid,prop,'BAD',bad,flush=True); continue
    # does it build the way the real build does?
    b=subprocess.run('. /opt/vp/env.sh >/dev/null 2>&1; sed s#/repo/#%s/#g /opt/vp/overlay.json > /tmp/mutov.%d.json; cd %s && go vet -overlay /tmp/mutov.%d.json . ./golang ./java ./openapi ./graphql ./httptrace 2>&1 | grep -v "^#" | grep -v "fmt\\.\\|result of\\|composite\\|possible\\|self-assign\\|unusedresult" | head -3'%(W,os.getpid(),W,os.getpid()),shell=True,executable='/bin/bash',capture_output=True,text=True)
    env=dict(os.environ,SADL_REPO=W,VERIF_SEED='1')
    for pr in prop.split(','):
        c=subprocess.run(['bash','/verif/check.sh',pr,'quick','-evidence','','-replays','/tmp/mutrep'],env=env,capture_output=True,text=True)
        o=c.stdout+c.stderr
        l=[x for x in o.splitlines() if 'violated' in x or 'VIOLATION' in x or 'cannot' in x or 'error' in x]
        print(mid,pr,{0:'MISSED',1:'caught'}.get(c.returncode,'rc%d'%c.returncode),(l[0][:170] if l else ''),b.stdout.strip()[:120],flush=True)
shutil.rmtree(W,ignore_errors=True)
