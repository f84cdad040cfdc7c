import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def main(r):
  rng = r.rng
  exe = r.build('drv_dom')
  r.mc('MC_Dom', timeout=600)
  cmds = []

  def add(g, valid=True):
    n = max(len(g), 1)
    p = rng.choice([0, .2, .5, 1])
    glob = [v for v in range(n) if rng.random() < p]
    g = [list(x) for x in g]
    for x in g:
      if rng.random() < .5:
        rng.shuffle(x)
    cmds.append({'op': 'cfg', 'g': g, 'glob': glob})

  small = r.gen('Gen_Dom', env={'NMAX': 6})
  for g in small if not r.quick else [g for g in small if len(g) < 6] + rng.sample(small, 2500):
    add(g)
    if rng.random() < .3:  # parallel edges
      g = [x + [rng.choice(x)] if x and rng.random() < .6 else x for x in g]
      add(g)
  for _ in range(500 if r.quick else 5000):  # invalid descriptions
    g = [list(x) for x in rng.choice(small)]
    n = len(g)
    k = rng.random()
    if k < .3:
      v = rng.randrange(n)
      g[v].insert(rng.randint(0, len(g[v])), rng.choice([v, v - 1, 0, -1, -100]))
    elif k < .5:
      v = rng.randrange(n)
      g[v].insert(rng.randint(0, len(g[v])), rng.choice([n, n + 1, 10 ** 6]))
    elif k < .9:
      w = rng.randrange(n)
      g = [[x for x in s if x != w] for s in g]
    else:
      g = []
    add(g)
  for _ in range(250 if r.quick else 4000):  # larger graphs of several shapes
    n = rng.randint(6, 12 if r.quick else 18)
    kind = rng.choice(['sparse', 'dense', 'chain', 'layers'])
    g = [[] for _ in range(n)]
    for w in range(1, n):
      if kind == 'sparse':
        ps = {rng.randrange(w) for _ in range(rng.choice([1, 1, 1, 2, 3]))}
      elif kind == 'dense':
        ps = {v for v in range(w) if rng.random() < .5} or {rng.randrange(w)}
      elif kind == 'chain':
        ps = {w - 1} if rng.random() < .7 else {w - 1, max(0, w - rng.randint(1, 4))} if rng.random() < .5 else {max(0, w - 2)}
      else:
        lo = max(0, (w // 3) * 3 - 3)
        hi = max(1, (w // 3) * 3)
        ps = {rng.randrange(lo, hi) for _ in range(2)}
      for v in ps:
        g[v] += [w] * rng.choice([1, 1, 1, 2])
    add(g)
  r.check('Trace_Dom', [exe], mbt.each(cmds))


mbt.run('C38', main)
