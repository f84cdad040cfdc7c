"""mkseed.py ID: (re)validates /verif/seeded/ID in a private copy of /repo.

  mkseed.py new FILE.py   creates seeds from a list SEEDS = [dict(id, property,
     needs, breaks, edits=[(file, old, new)], demo=text, files={name: text})].
A seed is kept only if it applies, builds, passes the stable tests, and its demo
passes without it and fails with it.  With --check the property's check is run
on the changed copy as well.
"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'


def ns(copy, cmd, timeout=900, env=None):
  e = dict(os.environ); e.update(env or {})
  return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)


def fresh():
  d = tempfile.mkdtemp(prefix='rc.', dir='/tmp')
  subprocess.run(['cp', '-a', '/repo/.', d], check=True)
  subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])
  return d


def demo(copy, sid):
  t = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
  for n in os.listdir(V + '/seeded/' + sid):
    if not n.endswith(('.diff', '.json')):
      shutil.copy(os.path.join(V, 'seeded', sid, n), t)
  try:
    r = ns(copy, 'bash %s/demo.sh' % t, timeout=300)
    return r.returncode, r.stdout
  finally:
    shutil.rmtree(t)


def validate(sid, check=True):
  d = fresh()
  try:
    base = os.path.join(V, 'seeded', sid)
    r = ns(d, 'bash /opt/vp/build.sh >/dev/null 2>&1; true')
    rc, out = demo(d, sid)
    if rc != 0:
      return 'demo fails on the unchanged tree: ' + out[-1500:]
    r = ns(d, 'git apply %s/patch.diff' % base)
    if r.returncode: return 'does not apply ' + r.stdout
    r = ns(d, 'bash /opt/vp/test.sh %s/_build/o.json' % d)
    try:
      o = json.load(open(d + '/_build/o.json'))
    except OSError:
      return 'no test output ' + r.stdout[-1500:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = stable - set(o['passed'])
    if miss: return 'tests fail: %s' % sorted(miss)[:5]
    rc, out = demo(d, sid)
    if rc == 0: return 'demo passes with the change ' + out[-800:]
    res = 'ok'
    if check:
      pid = json.load(open(base + '/meta.json'))['property']
      r = ns(d, 'cd /verif && python3 checks/%s.py quick' % pid)
      v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
      try: rs = json.load(open(V + '/tools/seed_results.json'))
      except OSError: rs = {}
      rs[sid] = ('Caught by %s.' % pid) if r.returncode == 1 and v else 'Missed.'
      json.dump(rs, open(V + '/tools/seed_results.json', 'w'), indent=1, sort_keys=True)
      res = 'ok, check rc=%d %s' % (r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED\n' + r.stdout[-700:])
    return res
  finally:
    shutil.rmtree(d)


def new(path):
  g = {}
  exec(open(path).read(), g)
  for s in g['SEEDS']:
    d = fresh()
    base = os.path.join(V, 'seeded', s['id'])
    os.makedirs(base, exist_ok=True)
    try:
      for f, a, b in s['edits']:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(a) != 1:
          print(s['id'], 'PATTERN COUNT', t.count(a), f); break
        open(p, 'w').write(t.replace(a, b))
      else:
        diff = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(base + '/patch.diff', 'w').write(diff)
        open(base + '/demo.sh', 'w').write(s['demo'].lstrip('\n'))
        for n, t in s.get('files', {}).items():
          open(os.path.join(base, n), 'w').write(t.lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(base + '/meta.json', 'w'), indent=1)
        print(s['id'], validate(s['id']), flush=True)
    finally:
      shutil.rmtree(d)


if __name__ == '__main__':
  if sys.argv[1] == 'new':
    new(sys.argv[2])
  else:
    for sid in sys.argv[1:]:
      print(sid, validate(sid), flush=True)
