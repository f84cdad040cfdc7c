import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def codes(s):
  return [ord(c) for c in s]


def main(r):
  rng = r.rng
  exe = r.build('drv_expr')
  r.mc('MC_Signatures', cover=False) if r.quick else r.mc('MC_Signatures', 'MC_Signatures_deep', cover=False)
  NM = ['x', 'y', 'z', 'w', '_a', 'A9', 'long_name', 'x1', 'X']
  BADN = ['', '9', 'x y', 'x-', '*', '=', 'é'.encode().decode('latin-1'), 'x.', '|', 'x\x00', 'a:b']
  WS = ['', '', '', ' ', '  ', '\t', '\n ', '\x0b', '\x0c', '\r']
  w = lambda: rng.choice(WS)
  cmds = []

  def binds(names):
    res = []
    for _ in range(8):
      pool = names + NM[:3]
      kw = rng.sample(sorted(set(pool)), rng.randint(0, min(3, len(set(pool)))))
      res.append({'n': rng.randint(0, len(names) + 1), 'kw': [codes(k) for k in kw]})
    for n in range(len(names) + 2):
      # the rest by keyword, then with one too few and one too many
      res.append({'n': n, 'kw': [codes(k) for k in names[n:]]})
      if names[n:]:
        res.append({'n': n, 'kw': [codes(k) for k in names[n + 1:]]})
        res.append({'n': n, 'kw': [codes(k) for k in names[n:-1]]})
      if 0 < n <= len(names):
        res.append({'n': n, 'kw': [codes(k) for k in names[n - 1:]]})
    return res

  def names(k):
    ns = rng.sample(NM, k)
    if rng.random() < .06 and k > 1:
      ns[-1] = ns[0]
    if rng.random() < .08 and k:
      ns[rng.randrange(k)] = rng.choice(BADN)
    return ns

  aux = lambda: rng.choice(['', '', '', 'pol', 'pol:opt', ':opt', 'pol:', 'p q:o:p|q', ':', ' ', 'x, *y=', '=|'])
  for _ in range(1200 if r.quick else 20000):
    k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    ns = names(k)
    d = rng.randint(0, k) if rng.random() < .6 else 0
    var = rng.random() < .35
    parts, nd = [], 0
    for i, x in enumerate(ns):
      v = var and i == k - 1
      has = i >= k - d and (not v or rng.random() < .05)
      if rng.random() < .04:
        has = not has
      if rng.random() < .03:
        v = not v
      nd += has
      parts.append(w() + ('*' + w() if v else '') + x + (w() + '=' if has else '') + w())
    text = w() + ','.join(parts) + w()
    if rng.random() < .03:
      text += ','
    if rng.random() < .02:
      text = text.replace('=', '==', 1)
    a = aux()
    if a or rng.random() < .05:
      text += '|' + ':'.join(w() + p + w() for p in a.split(':'))
    if rng.random() < .06:
      nd = max(0, nd + rng.choice([-1, 1]))
    cmds.append({'op': 'sig', 'text': codes(text), 'ndef': nd, 'binds': binds(ns)})
  for _ in range(800 if r.quick else 15000):
    k = rng.choice([0, 1, 1, 2, 2, 3, 4])
    ns = names(k)
    d = rng.randint(0, k) if rng.random() < .6 else 0
    var = rng.random() < .35
    ps = []
    for i, x in enumerate(ns):
      v = (var and i == k - 1) != (rng.random() < .03)
      has = (i >= k - d and not v) != (rng.random() < .03)
      ps.append({'n': codes(x), 'd': 101 + i if has else 0, 'v': v})
    a = aux().split(':', 1)
    cmds.append({'op': 'sigv', 'params': ps, 'auxn': codes(a[0] if rng.random() < .95 else 'a:b'),
                 'auxo': codes(a[1] if len(a) > 1 else ''), 'binds': binds(ns)})
  for n in range(-1, 14):
    ns = ['args'] if n < 0 else ['arg'] if n == 1 else ['arg%d' % (i + 1) for i in range(n)]
    cmds.append({'op': 'sign', 'n': n, 'binds': binds(ns)})
  r.check('Trace_Signatures', [exe], mbt.each(cmds))


mbt.run('C26', main)
