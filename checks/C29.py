import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt
M, NAN, NZ = -99, 99, 98
STEPS = [x for x in range(-30, 31) if abs(x) <= 28 or abs(x) == 30] + [33, -33]
EDGE = [-33, -30, -29, -27, -3, -1, 0, 1, 3, 4, 27, 29, 30, 33]


def fval(rng, near=()):
  k = rng.random()
  if near and k < .5:
    x = rng.choice(near)
    return rng.choice([y for y in (x - 1, x, x, x + 1) if y in STEPS] or [x])
  return rng.choice(STEPS if k < .8 else EDGE)


def cond(rng, i, t):
  if t == 'f':
    if rng.random() < .12:
      return {'k': 'fset', 'in': i, 'vs': sorted({fval(rng) for _ in range(rng.randint(0, 3))}), 'miss': rng.random() < .5}
    k = rng.random()
    a, b = fval(rng), fval(rng)
    if k < .25: a = -33
    elif k < .45: b = 33
    elif k < .65: b = a
    elif k < .95: a, b = min(a, b), max(a, b)
    if rng.random() < .02: a = rng.choice([NAN, NZ])
    if rng.random() < .02: b = rng.choice([NAN, NZ])
    return {'k': 'iv', 'in': i, 'a': a, 'b': b}
  pool = [-20, -19, -10, -2, -1, 0, 1, 2, 3, 10, 18, 19, 20]
  return {'k': 'iset' if t == 'i' else 'bset', 'in': i, 'vs': sorted(rng.sample(pool, rng.randint(0, 4))), 'miss': rng.random() < .4}


def tree(rng, types, pool):
  """A tree: its shape is random, oblivious, or a chain; conditions are often shared."""
  n = rng.choice([0, 1, 1, 2, 3, 3, 4, 6, 7, 7, 12])
  if rng.random() < .04:
    n = rng.choice([15, 30, 31, 32, 62, 63, 64, 70])
  kind = rng.choice(['rand', 'rand', 'obl', 'chain'])
  if kind == 'obl':
    n = 2 ** rng.choice([0, 1, 2, 3] + ([5, 6] if rng.random() < .1 else [])) - 1
  only = rng.choice(pool)['in'] if rng.random() < .35 else None
  fit = [c for c in pool if only is None or c['in'] == only]
  layer = [rng.choice(fit) for _ in range(8)]
  if rng.random() < .15 and kind == 'obl':
    layer[1] = layer[0]
  nodes = []
  if kind == 'obl':
    depth = [0] * n
    for x in range(1, n): depth[x] = depth[(x - 1) // 2] + 1
    kids = [[2 * x + 1, 2 * x + 2] for x in range(n)]
    nodes = [dict(f=k[0] if k[0] < n else None, t=k[1] if k[1] < n else None, c=layer[d]) for k, d in zip(kids, depth)]
    if n > 1 and rng.random() < .25:
      nodes[rng.randrange(n)]['c'] = rng.choice(fit)
  else:
    free = []
    for x in range(n):
      if x:
        at = free.pop(-1 if kind == 'chain' else rng.randrange(len(free)))
        nodes[at[0]][at[1]] = x
      nodes.append(dict(f=None, t=None, c=rng.choice(fit)))
      new = [(x, 'f'), (x, 't')]
      rng.shuffle(new)
      free += new
  # renumber the nodes after the root, and the leaves
  perm = [0] + rng.sample(range(1, n), n - 1) if n > 1 and rng.random() < .5 else list(range(n))
  leaves = list(range(n + 1))
  if rng.random() < .5: rng.shuffle(leaves)
  out = [None] * n
  for x, nd in enumerate(nodes):
    out[perm[x]] = {'c': nd['c'], **{s: -1 - leaves.pop() if nd[s] is None else perm[nd[s]] for s in 'ft'}}
  return {'nodes': out, 'adj': [rng.randint(-40, 40) for _ in range(n + 1)], 'w': rng.choice([1, 1, 1, 2, -1, 3]),
          'step': rng.choice([0, 0, 1, 2, 5]), 'sub': rng.choice([0, 0, 1, 2, 3])}


def filters(rng):
  k = rng.random()
  f = lambda a=0, b=-1, s=(): {'from': a, 'to': b, 'subs': list(s)}
  if k < .4: return [f()]
  if k < .55: return [f(0, 1), f(1)]
  if k < .7: return [f(s=[0]), f(s=[1, 2]), f(s=[3])]
  if k < .75: return [f(0, 2, [1]), f(2, 3, [0, 1]), f(0, 1, [0, 7])]
  if k < .78: return []
  return [f(rng.choice([0, 0, 1, 2]), rng.choice([-1, 0, 1, 3]), rng.sample(range(4), rng.randint(0, 2))) for _ in range(rng.randint(1, 3))]


def event(rng, trees, types, rows, fs=None):
  cfgs = []
  for how in (0, rng.choice([1, 2, 3])):
    cfgs.append({'how': how, 'out': int(how > 0), 'splits': rng.choice([500000, 1, 2, 3, 5, 9]), 'count': rng.random() < .5, 'op': rng.random() < .25})
  cfgs.append({'how': 0, 'out': 0, 'splits': rng.choice([1, 4, 20]), 'count': True, 'op': False})
  return {'op': 'forest', 'trees': trees, 'types': types, 'rows': rows, 'filters': filters(rng) if fs is None else fs, 'simple': rng.random() < .5, 'cfgs': cfgs}


def spoil(rng, e):
  t = rng.choice(e['trees'])
  n = len(t['nodes'])
  k = rng.randrange(6)
  if k == 0: t['step'] = -1
  if k == 1: t['sub'] = -2
  if k == 2: t['adj'].append(3)
  if k == 3: t['adj'].pop()
  if n and k == 4: rng.choice(t['nodes'])[rng.choice('ft')] = rng.choice([n, n + 3, -n - 2, -n - 5, 0, 0, rng.randint(-n - 1, n)])
  if n and k == 5:
    nd = rng.choice(t['nodes'])
    other = {'f': 'i', 'i': 't', 't': 'f'}[e['types'][nd['c']['in']]]
    nd['c'] = cond(rng, nd['c']['in'], other)


def gen(rng):
  types = [rng.choice('fffiit') for _ in range(rng.choice([1, 1, 2, 3, 4]))]
  pool = []
  for _ in range(rng.choice([1, 2, 4, 8, 20])):
    i = rng.randrange(len(types))
    pool.append(cond(rng, i, types[i]))
  near = [x for c in pool for x in ([c['a'], c['b']] if c['k'] == 'iv' else c['vs'] if c['k'] == 'fset' else []) if x not in (NAN, NZ)]
  ints = [x for c in pool if c['k'] in ('iset', 'bset') for x in c['vs']] + [0, 5, -20, 20]
  big = rng.random() < .03
  trees = [tree(rng, types, pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if not big else rng.choice([15, 16, 17, 33, 40]))]
  nrows = rng.choice([0, 1, 3, 6, 6, 10]) if rng.random() < .97 or big else rng.choice([63, 64, 65, 130])
  miss = rng.choice([0, .2, .2, .6])
  val = lambda t: M if rng.random() < miss else (rng.choice([NAN, NZ]) if rng.random() < .08 else fval(rng, near)) if t == 'f' else rng.choice(ints)
  e = event(rng, trees, types, [[val(t) for t in types] for _ in range(nrows)])
  if trees and rng.random() < .06:
    spoil(rng, e)
  return e


def main(r):
  rng = r.rng
  r.mc('MC_Forest', 'MC_Forest_deep' if r.quick else 'MC_Forest_thorough', cover=False)
  small = r.gen('Gen_Forest')
  rows = [[f, i] for f in (M, NAN, NZ, -33, -3, 0, 1, 3, 4, 33) for i in (M, 0, 1, 2)]
  ev = []
  if r.quick: small = rng.sample(small, 600)
  for t in small:
    t['adj'] = [rng.randint(-9, 9) for _ in t['adj']]
    ev.append(event(rng, [t], ['f', 'i'], rng.sample(rows, 12), [{'from': 0, 'to': -1, 'subs': []}]))
  ev += [gen(rng) for _ in range(4500 if r.quick else 60000)]
  r.check('Trace_Forest', [r.build('drv_forest')], mbt.each(ev))


mbt.run('C29', main)
