import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt, arraysess
M = -99
SIGS = [('', 'i'), ('', 'io'), ('', 'o'), ('i', 'i'), ('o', 'i'), ('io', 'oi'), ('', '#i')]


def form(rng, v):
  n = len(v)
  if rng.random() < .4:
    return {'shift': rng.choice([0, 0, 1, 30, 31]), 'bm': rng.random() < .4, 'ids': list(range(n)), 'miss': M, 'off': 0, 'plain': 1}
  miss = rng.choice([M, M] + v) if n else rng.choice([M, 0, 5])
  need = [k for k in range(n) if v[k] != miss]
  ids = sorted(set(need) | set(arraysess.subset(rng, n))) if rng.random() < .6 else need
  if len(ids) == n and n:  # every id is listed: the value of the others is not used
    miss = rng.choice([M, 0, 700])
  return {'shift': rng.choice([0, 0, 1, 30, 31]), 'bm': rng.random() < .4, 'ids': ids, 'miss': miss, 'off': rng.choice([0, 0, 3])}


def arr(rng, v):
  return {'v': v, 'f': form(rng, v)}


def size(rng):
  return rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12, 33, 40, 66])


def split(rng, p, n):
  return [0] + sorted(rng.randint(0, n) for _ in range(p - 1)) + [n] if p else [0]


def mapping(rng, p, n):
  if not p:
    return [M] * n
  dens = rng.choice([.05, .5, .9, 1])
  if rng.random() < .25:
    return [rng.randrange(p)] * n
  v = [rng.randrange(p) if rng.random() < dens else M for _ in range(n)]
  if rng.random() < .4:
    v = sorted(x if x != M or rng.random() < .5 else 0 for x in v)
    if rng.random() < .7:
      v = [max(x, 0) for x in v]
  return v


def edge(rng, p=None, n=None):
  """A description of an edge, valid."""
  p = size(rng) if p is None else p
  how = rng.choice(['split', 'map', 'map', 'unif'])
  if n is None:
    n = size(rng)
    if how == 'unif':
      g = rng.choice([0, 1, 2, 3])
      d = {'how': 'unif', 'parent': p, 'group': g}
      n = p * g
  elif how == 'unif':
    how = 'map'
  if how == 'split' and p == 0 and n > 0:
    how = 'map'
  if how == 'split':
    d = dict(how='split', **arr(rng, split(rng, p, n)))
  if how == 'map':
    d = dict(how='map', parent=p, **arr(rng, mapping(rng, p, n)))
  if rng.random() < .4:
    d['via'] = rng.choice(['map', 'split', 'array'])
  return d, p, n


def anyedge(rng):
  """A description that need not be valid."""
  if rng.random() < .55:
    return edge(rng)[0]
  n = size(rng) % 9
  v = [rng.choice([0, 0, 1, 2, 3, -1, M, M]) for _ in range(n)]
  k = rng.random()
  if k < .4:
    if rng.random() < .6:
      v = sorted(abs(x) if x != M else rng.choice([0, 1]) for x in v)
      if v and rng.random() < .7:
        v[0] = 0
      if v and rng.random() < .4:
        v[rng.randrange(len(v))] = rng.choice([M, 0, 5, -1])
    return dict(how='split', **arr(rng, v))
  if k < .85:
    return dict(how='map', parent=rng.choice([-1, 0, 1, 2, 3, 4]), **arr(rng, v))
  return {'how': 'unif', 'parent': rng.choice([-1, 0, 2]), 'group': rng.choice([-1, 0, 3])}


def col(rng, n, vals, required=False):
  if rng.random() < .2 and n:
    return [rng.choice(vals)] * n
  dens = 1 if required else rng.choice([.05, .3, .9, 1])
  return [rng.choice(vals) if rng.random() < dens else M for _ in range(n)]


def off(rng, n):
  """Sometimes a wrong length."""
  return n if rng.random() < .96 else max(0, n + rng.choice([-1, 1]))


def gen(rng):
  k = rng.random()
  arr_ = rng.choice(['d', 'a'])
  base = {'arena': rng.random() < .3, 'arr': arr_}
  if k < .13:
    return dict(base, op='mk', e=anyedge(rng))
  if k < .2:
    es, p = [], size(rng) % 9
    for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4])):
      d, _, n = edge(rng, p, size(rng) % 13 if rng.random() < .6 else None)
      es.append(d)
      p = off(rng, n)
    return dict(base, op='compose', es=es)
  if k < .26:
    d, p, n = edge(rng)
    d2 = edge(rng, p, n)[0]
    if rng.random() < .6:
      d2 = dict(d)
      if d['how'] != 'unif':
        d2['f'] = form(rng, d['v'])
      elif rng.random() < .5:
        d2 = dict(how='map', parent=p, **arr(rng, [x // max(1, d['group']) for x in range(n)]))
      d2['via'] = rng.choice(['map', 'split', 'array'])
    return dict(base, op='equiv', e=d, e2=d2)
  if k < .55 or k < .72:
    e = dict(base)
    if arr_ == 'a' and rng.random() < .5:
      e['arr'] = 'r'
    scalar = rng.random() < .15
    if scalar:
      p, n = 1, size(rng)
      e['scalar'] = n
    else:
      e['e'], p, n = edge(rng)
    vals = list(range(8)) + ([99] if rng.random() < .06 else [])
    if k < .55:
      ps, cs = rng.choice(SIGS)
      e.update(op='group', kind=rng.choice(['agg', 'partial', 'full']), sig=ps + '-' + cs, ps=list(ps), cs=list(cs.replace('#', '')), withid=cs[0] == '#')
      args = [col(rng, 1 if scalar else off(rng, p), list(range(8)), scalar and t == 'i') for t in ps]
      args += [col(rng, off(rng, n), vals) for t in e['cs']]
    else:
      a = rng.choice(['count', 'cumcount', 'sum', 'sumopt', 'max', 'collapse', 'join', 'inverse', 'take'])
      e.update(op='lib', acc=a)
      c = off(rng, n)
      if a in ('count', 'cumcount'):
        args = [col(rng, c, [0])]
      elif a in ('inverse', 'take'):
        o = [M] * n
        m = None
        if not scalar:
          m = {'split': None}.get(e['e']['how'])
        rel = relation(e['e']) if not scalar else [0] * n
        for g in set(rel):
          rows = [x for x in range(n) if rel[x] == g]
          perm = list(range(len(rows)))
          rng.shuffle(perm)
          for x, y in zip(rows, perm):
            if rng.random() < .85:
              o[x] = y if a == 'inverse' or rng.random() < .5 else rng.randrange(len(rows))
        if n and rng.random() < .1:
          o[rng.randrange(n)] = rng.choice([-1, 0, 1, 40])
        o = (o + [M])[:c]
        args = [o] if a == 'inverse' else [col(rng, c, list(range(8))), o]
      else:
        args = [col(rng, c, rng.choice([[3], [2, 5], list(range(8))]))]
    e['args'] = [arr(rng, v) for v in args]
    if scalar and e['op'] == 'group':
      for j in range(len(e['ps'])):
        e['args'][j] = arr(rng, args[j])
    return e
  if k < .81:
    e = dict(base, op='expand', t=rng.choice('itu'))
    if rng.random() < .1:
      e['scalar'], p = size(rng), 1
    else:
      e['e'], p, _ = edge(rng)
      p = off(rng, p)
    e['args'] = [arr(rng, col(rng, p, [0] if e['t'] == 'u' else list(range(8))))]
    return e
  if k < .86:
    n = rng.choice([0, 1, 1, 2, 3, 4])
    v = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]
    if n and rng.random() < .25:
      v[rng.randrange(n)] = rng.choice([M, -1, -2])
    return dict(base, op='sized', f=rng.choice(['sizes', 'left', 'right']), args=[arr(rng, v)])
  if k < .91:
    e = dict(base, op='groupby', t=rng.choice('it'))
    if rng.random() < .2:
      n = e['scalar'] = size(rng)
    else:
      e['e'], _, n = edge(rng)
    e['args'] = [arr(rng, col(rng, off(rng, n), [1, 2, 3]))]
    return e
  if k < .95:
    p = size(rng) % 7
    d, _, n = edge(rng, p, size(rng) % 14)
    d2, _, n2 = edge(rng, off(rng, p), size(rng) % 14)
    rel, rel2 = relation(d), relation(d2)
    o = []
    for x in range(n2):
      c = rel.count(rel2[x]) if rel2[x] != M else 3
      o.append(rng.randrange(c) if c and rng.random() < .9 else M if rng.random() < .97 else c)
    return dict(base, op='takeoo', e=d, e2=d2, args=[arr(rng, col(rng, off(rng, n), list(range(8)))), arr(rng, (o + [M])[:off(rng, n2)])])
  e = dict(base, op='resize', side=rng.choice(['child', 'child', 'parent']))
  if rng.random() < .15:
    p = 1
    n = e['scalar'] = size(rng) % 9
    e['one'] = rng.choice([-1, 0, 1, 2, 3, 5])
    rel = [0] * n
  else:
    while True:
      e['e'], p, n = edge(rng, size(rng) % 6, size(rng) % 13)
      if e['e']['how'] == 'split' and e['e'].get('via') != 'map' or rng.random() < .1:
        break
    rel = relation(e['e'])
    if rng.random() < .4:
      e['one'] = rng.choice([0, 1, 2, 3, 5])
      if rng.random() < .1:
        e['one'] = -1
    else:
      v = [rng.choice([0, 1, 2, 2, 3]) for _ in range(off(rng, p))]
      if v and rng.random() < .15:
        v[rng.randrange(len(v))] = rng.choice([M, -1, -2])
      e['ns'] = arr(rng, v)
  if e['side'] == 'child':
    o = [M] * n
    for g in set(rel):
      rows = [x for x in range(n) if rel[x] == g]
      perm = list(range(len(rows) + 1))
      rng.shuffle(perm)
      for x, y in zip(rows, perm):
        if rng.random() < .85:
          o[x] = y
    if n and rng.random() < .1:
      o[rng.randrange(n)] = rng.choice([-1, 0, 1])
    e['offs'] = arr(rng, (o + [M])[:off(rng, n)])
  return e


def relation(d):
  if d['how'] == 'map':
    return d['v']
  if d['how'] == 'unif':
    return [p for p in range(d['parent']) for _ in range(d['group'])]
  return [p for p in range(len(d['v']) - 1) for _ in range(d['v'][p + 1] - d['v'][p])]


def main(r):
  r.mc('MC_Edges', *([] if r.quick else ['MC_Edges_thorough']), cover=False)
  r.check('Trace_Edges', [r.build('drv_edges')], mbt.each([gen(r.rng) for _ in range(20000 if r.quick else 200000)]))


mbt.run('C22', main)
