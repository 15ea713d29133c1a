#!/usr/bin/env python3
"""mutone.py FILE NAME ARGS...: apply one mutant to /tmp/mm and run the checker there with ARGS."""
import sys,os,subprocess,shutil
d={}; exec(open(sys.argv[1]).read(),d)
m=[x for x in d['M'] if x[0]==sys.argv[2]][0]
W='/tmp/mm'; shutil.rmtree(W,ignore_errors=True)
shutil.copytree('/repo',W,ignore=shutil.ignore_patterns('.git','results','*.png'))
for ed in m[2]:
    f,o,n=ed[-3:]; k=int(ed[0][1:]) if len(ed)==4 else None
    p=os.path.join(W,f); s=open(p).read()
    if k:
        q=s.split(o); open(p,'w').write(o.join(q[:k])+n+o.join(q[k:])); continue
    assert s.count(o)==1,(f,s.count(o)); open(p,'w').write(s.replace(o,n))
os.makedirs('/tmp/mm.v',exist_ok=True); shutil.copy('/verif/known_findings.json','/tmp/mm.v')
sys.stdout.flush()
subprocess.run(['/verif/bin/gospncheck','-repo',W,'-verif','/tmp/mm.v']+sys.argv[3:])
