import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def E(k, t):
  return {'k': k, 't': t, 'f': False}


SINGLE = [E('reg', x) for x in 'abcde'] + [E('idx', 'a[0]'), E('idx', 'a[12]'), E('map', 'm["k"]'), E('map', 'm["k2"]'),
          E('deref', '*'), E('addr', '&'), E('struct', '&::a'), E('struct', '&::b'), E('ext', 'Ext::p.x'), E('ext', 'Ext::p.y'), E('ext', 'Ext::q.x')]
MULTI = [E('multi', x) for x in ('a[:]', 'r[:]', 's[:]', 'm[:]@key', 'm[:]@value')]
SIZE = [E('size', 'count(%s)' % x) for x in ('a[:]', 'r[:]', 's[:]')]


def close(els):
  """Marks the final extension element (it is checked for presence)."""
  els = [dict(e) for e in els]
  single_tail = els[-1]
  if single_tail['k'] == 'ext':
    single_tail['f'] = True
  return els


def main(r):
  rng = r.rng
  drv = mbt.pydrv('drv_plan')
  sessions = []

  def plan(mode, reqs, **kw):
    acc = []
    for i, q in enumerate(reqs):
      a = {'id': i + 1, 'pp': True, 'name': 'n%d' % i, 'dflt': '/d%d' % i, 'els': close(q), 'def': '', 'inc': []}
      if rng.random() < .2:
        a['name'] = ''
      if rng.random() < .3:
        a['inc'] = rng.sample(['x.h', 'y.h', 'z.h'], rng.randint(1, 2))
      if mode == 'single' and rng.random() < .3 and q[-1]['k'] != 'size':
        a['def'] = '7'
      if rng.random() < .06:
        a['pp'] = False
      a['eff'] = a['name'] or a['dflt']
      acc.append(a)
    if mode == 'multi' and rng.random() < .02 and acc:
      rng.choice(acc)['def'] = '1'
    sessions.append([{'op': 'plan', 'mode': mode, 'acc': acc}])

  for mode in ('single', 'multi'):
    hs = r.gen('Gen_Plan', env={'DEPTH': 3 if r.quick else 4, 'MODE': mode}, workers=4, timeout=900)
    if r.quick and len(hs) > 600:
      hs = rng.sample(hs, 600)
    elif len(hs) > 6000:
      hs = rng.sample(hs, 6000)
    for h in hs:
      plan(mode, [[{**e, 'f': False} for e in q['els']] for q in h['r']])

  def tree_paths(mode, n, fan, depth, pool):
    """Requests sharing prefixes: grown along a random trie."""
    prefixes = [[]]
    out = []
    for _ in range(n):
      p = list(rng.choice(prefixes)) if rng.random() < .8 else []
      while True:
        step = rng.choice(pool)
        if mode == 'multi' and rng.random() < .3:
          step = rng.choice(MULTI)
        p = p + [step]
        if len(p) >= depth or rng.random() < .4:
          break
        prefixes.append(p)
      if rng.random() < .15:
        p = p + [rng.choice(SIZE)]
      if mode == 'multi' and not any(e['k'] == 'multi' for e in p) and rng.random() < .8:
        p = [rng.choice(MULTI)] + p
      if mode == 'single' and rng.random() < .04:
        p = p[:1] + [rng.choice(MULTI)] + p[1:]
      out.append(p)
    return out

  for i in range(500 if r.quick else 6000):
    mode = ('single', 'multi')[i % 2]
    pool = rng.choice([SINGLE, SINGLE[:3], SINGLE[:2] + SINGLE[5:9], SINGLE[:1] + SINGLE[7:], SINGLE[-3:], SINGLE[:1]])
    ps = tree_paths(mode, rng.choice([1, 2, 3, 5, 8, 12, 20]), 0, rng.choice([2, 3, 4, 6]), pool)
    if rng.random() < .8:
      # longer requests first: nothing may be rejected.
      ps.sort(key=lambda p: -len(p))
    plan(mode, ps)
  # wide nodes whose children need different things (values, sizes, neither).
  for i in range(120 if r.quick else 1500):
    w = rng.choice([9, 10, 12, 17, 18, 25])
    pre = rng.choice([[], [MULTI[1]], [MULTI[1], SINGLE[0]], [SINGLE[1], MULTI[2], MULTI[3]]])
    ps = []
    for k in range(w):
      m = E('multi', 'f%d[:]' % k)
      c = rng.choice(['leaf', 'leaf', 'two', 'size', 'deep', 'single', 'both'])
      q = {'leaf': [[m]], 'two': [[m, SINGLE[0]], [m, SINGLE[1]]], 'size': [[E('size', 'count(f%d[:])' % k)]],
           'deep': [[SINGLE[2], m, MULTI[0]], [SINGLE[2], m, SINGLE[3]]], 'single': [[E('reg', 'g%d' % k)]],
           'both': [[m, MULTI[0], SINGLE[0]], [m, MULTI[0], SINGLE[1]]]}[c]
      ps += [pre + x for x in q]
    if rng.random() < .3:
      rng.shuffle(ps)
    plan('multi', ps)
  # wide nodes at several levels (grouping), with groups of every size.
  for w in [7, 8, 9, 15, 16, 17, 24, 25, 63, 64, 65, 66, 73] if r.quick else list(range(1, 140)):
    for mode in ('single', 'multi'):
      m = [MULTI[0]] if mode == 'multi' else []
      plan(mode, [m + [E('reg', 'f%d' % k)] for k in range(w)])
      plan(mode, [[E('reg', 'z')] + m + [E('reg', 'q'), E('reg', 'f%d' % k)] + ([E('reg', 'x')] if k % 3 == 0 else [SIZE[0]] if k % 3 == 1 else []) for k in range(w)])
      plan(mode, [[E('reg', 'g%d' % (k % 10))] + m + [E('reg', 'f%d' % (k // 10))] for k in range(w)])
      if mode == 'multi':
        plan(mode, [[E('multi', 'f%d[:]' % k)] for k in range(w)] + [[MULTI[1], E('multi', 'f%d[:]' % k), E('reg', 'y')] for k in range(w)])
  r.check('Trace_Plan', drv, sessions)


mbt.run('C11', main)
