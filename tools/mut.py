"""mut.py FILE OLD NEW PID..: runs checks on a private copy of /repo with a change."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
f, old, new, *pids = sys.argv[1:]
d = mkseed.fresh()
p = d + '/' + f
s = open(p).read()
assert s.count(old) >= 1, 'pattern not found'
open(p, 'w').write(s.replace(old, new, 1))
try:
  for pid in pids:
    r = mkseed.ns(d, 'cd /verif && python3 checks/%s.py quick' % pid)
    v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'CHECK-ERROR' in l or 'REJECTED' in l or 'crash' in l]
    print(pid, 'rc', r.returncode, *[x[:300] for x in v[:4]], sep='\n   ')
    if r.returncode == 2: print(r.stdout[-1500:])
finally:
  shutil.rmtree(d)
