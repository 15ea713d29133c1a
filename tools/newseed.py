#!/usr/bin/env python3
"""newseed.py ID: reads a spec on stdin: JSON {property, needs, what_it_breaks, pkg, edits:[[file,old,new],...], test}
Writes seeded/ID and applies the edits in /tmp/w, then runs mkseed.sh."""
import sys, os, json, subprocess
id = sys.argv[1]
spec = {}
exec(sys.stdin.read(), spec)
W = '/tmp/w'
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
for f, old, new in spec['edits']:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
S = '/verif/seeded/' + id
os.makedirs(S, exist_ok=True)
json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['what_it_breaks']), open(S + '/meta.json', 'w'), indent=1)
d = open('/verif/tools/demo_template.sh').read().replace('PKG', spec['pkg'])
if spec.get('race'): d = d.replace('go test ', 'CGO_ENABLED=1 go test -race ')
open(S + '/demo.sh', 'w').write(d)
open(S + '/demo_test.go.txt', 'w').write(spec['test'])
sys.exit(subprocess.call(['bash', '/verif/tools/mkseed.sh', id]))
