import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt
KEYS = ['a', 'b', 'ab', 'pa', 'c', '']
PRE = ['', 'p', 'a', 'pa', 'q/']
SUF = ['', '', 'b', 'z', 'ab']
NAMES = ['a', 'b', 'ab', 'ba', 'p', 'pa', 'pb', 'c', 'd', '', 'aa', 'q/a', 'paz']
WIDE = ['f%d' % i for i in range(12)]


class Gen:
  def __init__(self, rng): self.rng, self.f = rng, 0

  def fields(self, n, types='iif'):
    r = self.rng
    names = r.sample(NAMES, n) if n <= 4 else r.sample(NAMES[:10] + WIDE, n)
    self.f += n
    return [{'n': x, 't': r.choice(types), 'f': self.f % 90 + i} for i, x in enumerate(names)]

  def leaf(self, listen):
    r = self.rng
    k = 'acc' if listen else r.choice(['acc', 'acc', 'acc', 'span', 'tuple', 'refs', 'wild', 'cb'])
    n = {'k': k}
    if k == 'acc':
      n['fs'] = self.fields(r.choice([0, 1, 1, 2, 2, 3, 3]))
      if len(n['fs']) > 1 and r.random() < .03: n['fs'][0]['n'] = n['fs'][-1]['n']
    if k == 'span': n['fs'] = self.fields(r.choice([1, 2, 3, 3, 7]), 'i')
    if k == 'refs': n['fs'] = self.fields(r.choice([1, 2, 3, 3, 7]), 'if')
    if k == 'tuple':
      n['fs'] = self.fields(2)
      n['fs'][0]['t'], n['fs'][1]['t'] = 'i', 'f'
      if r.random() < .04: n['fs'] = n['fs'][:1]
    if k in ('wild', 'cb'):
      n.update(pre=r.choice(PRE), suf=r.choice(SUF), own=r.random() < .5)
      if k == 'cb': n['fs'] = [{'n': x, 't': r.choice('if'), 'f': 0} for x in r.sample(KEYS, r.randint(0, 4))]
    return n

  def tree(self, d, listen=False):
    r = self.rng
    if d == 0 or r.random() < .15: return self.leaf(listen)
    k = r.choice(['chain', 'chain', 'chain', 'pre', 'pre', 'wrap'] if listen else ['chain', 'chain', 'chain', 'chain', 'filter', 'filter', 'pre', 'pre', 'wrap', 'dyn'])
    if k == 'chain':
      return {'k': k, 'subs': [self.tree(d - 1, listen) for _ in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4]))], 'inv': r.choice([0, 0, 1, 2])}
    if k == 'dyn':
      keys = r.sample('abpqf', r.randint(1, 3))
      return {'k': k, 'keys': keys, 'subs': [self.tree(d - 1) for _ in keys]}
    sub = self.tree(d - 1, listen)
    n = {'k': k, 'sub': sub}
    if k == 'filter':
      known = names(sub)
      n['names'] = [x for x in known if r.random() < .6] + r.sample(NAMES, 2)
    if k == 'pre': n.update(pre=r.choice(PRE), kid=r.choice([1, 2]))
    if k == 'wrap': n['own'] = r.random() < .5
    return n


def names(n):
  """Names worth asking for."""
  k = n['k']
  if k in ('acc', 'span', 'tuple', 'refs'): r = [f['n'] for f in n['fs']]
  elif k == 'wild': r = [n['pre'] + x + n['suf'] for x in KEYS]
  elif k == 'cb': r = [n['pre'] + f['n'] + n['suf'] for f in n['fs']]
  elif k in ('chain', 'dyn'): r = [x for s in n['subs'] for x in names(s)]
  elif k == 'pre': r = [n['pre'] + x for x in names(n['sub'])]
  else: r = names(n['sub'])
  if k == 'filter': r = [x for x in r if x in n['names']]
  if k == 'dyn': r = [x for x in r if x and x[0] in n['keys']]
  return list(dict.fromkeys(r))


def typ(n, x):
  """A guess of its type."""
  k = n['k']
  if k in ('acc', 'span', 'tuple', 'refs'): return next((f['t'] for f in n['fs'] if f['n'] == x), '')
  if k in ('wild', 'cb'):
    if len(x) < len(n['pre'] + n['suf']) or not x.startswith(n['pre']) or not x.endswith(n['suf']): return ''
    key = x[len(n['pre']):len(x) - len(n['suf'])]
    return 'i' if k == 'wild' else next((f['t'] for f in n['fs'] if f['n'] == key), '')
  if k == 'chain': return next((t for t in (typ(s, x) for s in n['subs']) if t), '')
  if k == 'dyn': return next((typ(s, x) for key, s in zip(n['keys'], n['subs']) if x[:1] == key), '')
  if k == 'pre': return typ(n['sub'], x[len(n['pre']):]) if x.startswith(n['pre']) else ''
  if k == 'filter' and x not in n['names']: return ''
  return typ(n['sub'], x)


def shapes(n):
  """What the leaves expect of the input."""
  if n['k'] == 'span': return [('vec', len(n['fs']))]
  if n['k'] == 'refs': return [('refs', [f['t'] for f in n['fs']])]
  if 'sub' in n: return shapes(n['sub'])
  return [x for s in n.get('subs', []) for x in shapes(s)]


def data(rng, n, ids, depth):
  s = shapes(n)
  vec = [v for k, v in s if k == 'vec']
  refs = [v for k, v in s if k == 'refs']
  ids[0] += 1
  i = ids[0]
  r = {'id': i, 'vec': rng.choice(vec) if vec and rng.random() < .95 else rng.randint(0, 4),
       'refs': list(rng.choice(refs)) if refs and rng.random() < .95 else [rng.choice('if') for _ in range(rng.randint(0, 3))],
       'map': [{'k': x, 'v': 1000 * i + 900 + j} for j, x in enumerate(KEYS) if rng.random() < .95], 'kids': []}
  if rng.random() < .05 and r['refs']: r['refs'][0] = rng.choice('if')
  if depth: r['kids'] = [data(rng, n, ids, depth - 1) for _ in range(2)]
  return r


def out(ids, depth):
  ids[0] += 1
  return {'id': ids[0], 'kids': [out(ids, depth - 1) for _ in range(2)] if depth else []}


def depth(n): return max([depth(s) for s in ([n['sub']] if 'sub' in n else n.get('subs', []))] or [0]) + (n['k'] == 'pre')


def main(r):
  rng = r.rng
  r.mc('MC_Loaders', 'MC_Loaders' if r.quick else 'MC_Loaders_thorough', cover=False)
  ev = []
  g = Gen(rng)
  for _ in range(6000 if r.quick else 80000):
    listen = rng.random() < .35
    n = g.tree(rng.choice([0, 1, 1, 2, 2, 3, 3]), listen)
    while depth(n) > 3: n = g.tree(2, listen)
    known = [x for x in names(n) if typ(n, x)]
    other = [x for x in NAMES if x not in known]
    ask = list(known) if rng.random() < .35 else rng.sample(known, min(len(known), rng.randint(1, 5)))
    partial = rng.random() < .4
    if rng.random() < (.7 if partial else .06): ask += rng.sample(other, min(len(other), 2))
    rng.shuffle(ask)
    ask = ask[:12]
    slots = [{'n': x, 't': (rng.random() < .98 and typ(n, x)) or rng.choice('iffdo')} for x in ask]
    q = list(dict.fromkeys(known[:10] + rng.sample(NAMES, 6) + [x[:-1] for x in known[:3]] + [rng.choice('pab') + x for x in known[:3]]))
    e = {'op': 'listen' if listen else 'load', 'n': n, 'queries': q, 'slots': slots, 'partial': partial}
    ids = [0]
    if listen:
      for i, s in enumerate(slots): s['v'] = 500 + i if s['t'] in 'if' else -9
      e['outs'] = [out(ids, depth(n)) for _ in range(rng.choice([1, 1, 2]))]
    else:
      e['ins'] = [data(rng, n, ids, depth(n)) for _ in range(rng.choice([1, 1, 2]))]
    ev.append(e)
  r.check('Trace_Loaders', [r.build('drv_loaders')], mbt.each(ev))


mbt.run('C35', main)
