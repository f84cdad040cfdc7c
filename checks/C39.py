import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt
from arraysess import subset
M = -99


def form(rng, v):
  n = len(v)
  if rng.random() < .4:
    return {'shift': rng.choice([0, 0, 1, 30, 31]), 'bm': rng.random() < .4, 'ids': list(range(n)), 'miss': M, 'off': 0, 'plain': 1}
  miss = rng.choice([M, M] + v) if n else rng.choice([M, 0, 5])
  need = [k for k in range(n) if v[k] != miss]
  ids = sorted(set(need) | set(subset(rng, n))) if rng.random() < .6 else need
  if len(ids) == n and n:
    miss = rng.choice([M, 0, 700])
  return {'shift': rng.choice([0, 0, 1, 30, 31]), 'bm': rng.random() < .4, 'ids': ids, 'miss': miss, 'off': rng.choice([0, 0, 3])}


def arr(rng, v):
  return {'v': v, 'f': form(rng, v)}


def edge(rng, sizes):
  """Some description of the edge with these sizes."""
  k = rng.random()
  if len(set(sizes)) == 1 and k < .2:
    d = {'how': 'unif', 'parent': len(sizes), 'group': sizes[0]}
  elif k < .6:
    d = dict(how='split', **arr(rng, [sum(sizes[:x]) for x in range(len(sizes) + 1)]))
  else:
    d = dict(how='map', parent=len(sizes), **arr(rng, [p for p, s in enumerate(sizes) for _ in range(s)]))
  if rng.random() < .3:
    d['via'] = rng.choice(['map', 'split', 'array'])
  return d


class Mirror:
  """Shapes of the registers as the generator believes them to be; only guides
  the choice of arguments."""

  def __init__(self, rng):
    self.rng, self.s, self.ev = rng, {i: [] for i in range(1, 5)}, []

  def size(self, s):
    return sum(s[-1]) if s else 1

  def dim(self, n):
    rng = self.rng
    m = rng.choice([0, 1, 2, 2, 3, 3, 5])
    if rng.random() < .3:
      return [m] * n if n * m < 50 else [1] * n
    v = [rng.randint(0, m) for _ in range(n)]
    while sum(v) > 50:
      v[rng.randrange(n)] = 0
    return v

  def dims(self, s, k):
    r = []
    n = self.size(s)
    for _ in range(k):
      d = self.dim(n)
      r.append(d)
      n = sum(d)
    return r

  def spoil(self, es):
    rng = self.rng
    k = rng.random()
    if not es:
      return
    x = rng.choice(es)
    if k < .3:
      es.reverse()
    elif k < .5:
      es.remove(x)
    elif 'v' in x and x['v'] and k < .95:
      p = rng.randrange(len(x['v']))
      x['v'][p] = rng.choice([M, 0, 1, -1, x['v'][p] + 1])
      x['f'] = form(rng, x['v'])
    elif x['how'] == 'map':
      x['parent'] += rng.choice([-1, 1])

  def step(self):
    rng = self.rng
    i, j = rng.randint(1, 4), rng.randint(1, 4)
    k = rng.random()
    if k < .3:
      op = 'edges' if k < .18 else 'add'
      base = [] if op == 'edges' else self.s[j]
      ds = self.dims(base, rng.choice([0, 1, 1, 2, 2, 3, 3]) if op == 'edges' else rng.choice([0, 1, 1, 2]))
      if op == 'edges' and rng.random() < .5:  # a variation of another register
        ds = [list(d) for d in self.s[j]]
        if len(ds) > 1 and rng.random() < .7:
          d = ds[-1]
          if len(d) > 1:
            x, y = rng.randrange(len(d)), rng.randrange(len(d))
            if d[x]:
              d[x] -= 1
              d[y] += 1
        elif ds and rng.random() < .5:
          ds[-1] = self.dim(len(ds[-1]))
      es = [edge(rng, d) for d in ds]
      e = {'op': op, 'i': i, 'es': es}
      if op == 'add':
        e['j'] = j
      if rng.random() < .15:  # may or may not be valid still: settle the register afterwards
        self.spoil(es)
        n = rng.choice([1, 2, 4])
        self.s[i] = [[n]]
        self.ev += [e, {'op': 'flat', 'i': i, 'n': n}]
        return
      if len(base) + len(ds) <= 5:
        self.s[i] = base + ds
      else:
        return
      self.ev.append(e)
    elif k < .34:
      n = rng.choice([0, 1, 2, 3, 7])
      self.s[i] = [[n]]
      self.ev.append({'op': 'flat', 'i': i, 'n': n})
    elif k < .38:
      self.s[i] = self.s[j]
      self.ev.append({'op': 'copy', 'i': i, 'j': j})
    elif k < .46:
      n = len(self.s[j])
      byop = rng.random() < .5
      f = rng.randint(-n - 2, n + 2) if byop else rng.randint(0, n)
      g = min(max(f + n if f < 0 else f, 0), n)
      self.s[i] = self.s[j][:g]
      self.ev.append({'op': 'remove', 'i': i, 'j': j, 'from': f, 'byop': byop})
    elif k < .64:
      s = self.s[j]
      n = len(s)
      byop = rng.random() < .5
      cl = lambda x: min(max(x + n if x < 0 else x, 0), n)
      if byop:
        f, t = rng.randint(-n - 2, n + 2), rng.randint(-n - 2, n + 2)
        if rng.random() < .5 and cl(t) < cl(f):
          f, t = t, f
      else:
        f, t = sorted((rng.randint(0, n), rng.randint(0, n)))
      a, z = cl(f), max(cl(f), cl(t))
      if n - (z - a) + 1 > 5:
        return
      if a == z:
        mid = [[1] * self.size(s[:a])]
      else:
        cur = s[z - 1]
        for d in reversed(s[a:z - 1]):
          it = iter(cur)
          cur = [sum(next(it) for _ in range(x)) for x in d]
        mid = [cur]
      self.s[i] = s[:a] + mid + s[z:]
      self.ev.append({'op': 'flatten', 'i': i, 'j': j, 'from': f, 'to': t, 'byop': byop})
    elif k < .69:
      n = len(self.s[j])
      self.ev.append({'op': 'edgeat', 'j': j, 'dim': rng.randint(-n - 1, n + 1)})
    else:
      stack = rng.random() < .45
      s = self.s[j]
      n = len(s) + stack
      d = rng.randint(0, n - 1) if n else 0
      if rng.random() < .05:
        d = rng.choice([-1, n])
      js = [j] + [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
      # prepare partners with the same prefix in the other registers
      used = {j}
      for p in range(1, len(js)):
        if rng.random() < .85:
          x = js[p]
          if x in used:
            continue
          used.add(x)
          t = [list(y) for y in s[:max(d, 0)]]
          t += self.dims(t, len(s) - len(t))
          self.s[x] = t
          self.ev.append({'op': 'edges', 'i': x, 'es': [edge(rng, y) for y in t]})
      if rng.random() < .02:
        js = []
      ss = [self.s[x] for x in js]
      if sum(map(self.size, ss)) > 90 or len(s) + stack > 5:
        return
      e = {'op': 'join', 'i': i, 'js': js, 'd': d, 'stack': stack}
      if rng.random() < .6:
        t = e['t'] = rng.choice('itu')
        vs = []
        for x in ss:
          m = self.size(x)
          if rng.random() < .04:
            m = max(0, m + rng.choice([-1, 1]))
          dens = rng.choice([0, .1, .5, .9, 1])
          c = rng.randrange(9) if rng.random() < .2 else None
          vs.append([0 if t == 'u' else rng.randrange(50) if c is None else c for _ in range(m)])
          if c is None:
            vs[-1] = [y if rng.random() < dens else M for y in vs[-1]]
        if rng.random() < .02 and vs:
          vs.pop()
        e['args'] = [arr(rng, v) for v in vs]
      self.ev.append(e)
      j2 = self.joined(ss, d, stack, e)
      if j2 is not None:
        self.s[i] = j2

  def joined(self, ss, d, stack, e):
    n = len(ss[0]) + stack if ss else 0
    if not ss or any(len(x) != len(ss[0]) or x[:d] != ss[0][:d] for x in ss) or not 0 <= d < n:
      return None
    if 'args' in e and [len(a['v']) for a in e['args']] != [self.size(x) for x in ss]:
      return None
    ts = [self.tree(s) for s in ss]

    def join(ts, d):
      if d == 0:
        return ts if stack else [x for t in ts for x in t]
      return [join([t[k] for t in ts], d - 1) for k in range(len(ts[0]))]
    t = join(ts, d)
    rows, r = [t], []
    for _ in range(n):
      r.append([len(x) for x in rows])
      rows = [y for x in rows for y in x]
    return r

  def tree(self, s):
    cur = [0] * self.size(s)
    for d in reversed(s):
      it = iter(cur)
      cur = [[next(it) for _ in range(x)] for x in d]
    return cur[0]


def session(rng):
  m = Mirror(rng)
  m.ev.append({'op': 'begin', 'arr': rng.choice('da'), 'arena': rng.random() < .3})
  for _ in range(rng.randint(4, 16)):
    m.step()
  return m.ev


def main(r):
  r.mc('MC_Jagged', *([] if r.quick else ['MC_Jagged_thorough']), cover=False)
  r.check('Trace_Jagged', [r.build('drv_jagged')], [session(r.rng) for _ in range(2500 if r.quick else 25000)], stateful=True)


mbt.run('C39', main)
