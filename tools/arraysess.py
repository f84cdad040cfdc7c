"""Sessions over arrays, shared by C20 and C21."""
import random
M = -1
REQ = {'inc': 1, 'inc0': 1, 'even': 1, 'not': 1, 'add': 2, 'add0': 2, 'or': 2, 'orreq': 2, 'drop': 2, 'div': 2, 'divopt': 2, 'add3': 3}


def contents(rng, n, kind):
  p = rng.choice([0, .1, .5, .9, 1])
  pool = rng.choice([[0], [2, 3], list(range(8)), [0, 5]])
  if kind == 'unit':
    pool = [0]
  return [rng.choice(pool) if rng.random() < p else M for _ in range(n)]


def subset(rng, n):
  k = rng.random()
  if k < .1:
    return []
  if k < .2:
    return list(range(n))
  if k < .5:
    return sorted(rng.sample(range(n), min(n, rng.randint(0, 2))))
  p = rng.choice([.1, .5, .9])
  return [x for x in range(n) if rng.random() < p]


def lit(rng, i, n, kind):
  v = contents(rng, n, kind)
  if rng.random() < .25 and n:
    v = [rng.choice(v)] * n
    if rng.random() < .5:
      v[rng.randrange(n)] = M
  c = {'op': 'lit', 'i': i, 'v': v, 'how': rng.choice([0, 0, 0, 0, 1, 2]), 'shift': rng.choice([0, 0, 1, 5, 30, 31, 32, 40]), 'bm': rng.random() < .4}
  if i <= 4:
    miss = rng.choice([M, M] + v) if n else rng.choice([M, 0, 2 if kind != 'unit' else 0])
    need = [k for k in range(n) if v[k] != miss]
    extra = subset(rng, n) if rng.random() < .4 else []
    c.update(miss=miss, ids=sorted(set(need) | set(extra)) if rng.random() < .8 else list(range(n)), off=rng.choice([0, 0, 1, 7, 100]))
    if len(c['ids']) == n:
      c['miss'] = M if n else miss
  return c


def session(rng, kind, steps, pw):
  s = [{'op': 'begin', 'kind': kind, 'fac': rng.choice(['heap', 'arena'])}]
  size = {i: 0 for i in range(1, 7)}
  base = rng.choice([0, 1, 2, 3, 4, 5, 7, 12, 20, 31, 32, 33, 40, 64, 65, 70])
  val = lambda: 0 if kind == 'unit' else rng.choice([0, 2, 3, 5])
  opt = lambda: rng.choice([M, val()])
  same = lambda i: [j for j in range(1, 5) if size[j] == size[i]]
  for t in range(steps):
    i = t + 1 if t < 4 and rng.random() < .8 else rng.randint(1, 4) if rng.random() < .75 else rng.randint(5, 6)
    j = rng.randint(1, 4) if i <= 4 else rng.randint(5, 6)
    n = base if rng.random() < .9 else rng.randint(0, 10)
    k = rng.random()
    build = k < (.8 if t < 4 else .12)
    c = None
    if build:
      kk = rng.random()
      if kk < .15:
        c = {'op': 'const', 'i': i, 'n': n, 'v': opt()}
      elif kk < .7:
        c = lit(rng, i, n, kind)
      elif i <= 4:
        ids = subset(rng, n)
        c = {'op': rng.choice(['create', 'sparse']), 'i': i, 'n': n, 'ids': ids, 'vs': [opt() if rng.random() < .5 else val() for _ in ids], 'max': len(ids) + rng.choice([0, 0, 1, 40]), 'late': rng.random() < .3}
      else:
        mx = n + rng.choice([0, 0, 1, 33])
        c = {'op': 'build', 'i': i, 'max': mx, 'n': n if rng.random() < .5 else mx, 'steps': []}
        for _ in range(rng.randint(0, 6)):
          if mx:
            at = rng.randrange(mx)
            w = min(mx - at, rng.choice([1, 1, 0, 2, 32, 40]))
            c['steps'].append({'at': at, 'n': w, 'v': opt(), 'how': rng.randint(0, 3 if w == 1 else 2)})
        n = c['n']
      size[i] = n
    elif k < (.35 if pw else .75):
      kk = rng.random()
      if i <= 4 and kk < .3:
        c = {'op': 'with', 'i': i, 'j': j, 'm': opt(), 'off': rng.choice([0, 0, 1, 50]), 'ids': subset(rng, size[j]), 'k': 0}
        if rng.random() < .4:
          c['k'] = rng.choice(same(j))
        size[i] = size[j]
      elif kk < .6:
        how = rng.choice((['dense', 'sparse', 'sparse', 'sparse', 'of'] if i <= 4 else ['force', 'of', 'of']) + ['owned', 'unowned', 'copy'])
        if how == 'of':
          j = rng.randint(5, 6) if i <= 4 else rng.randint(1, 4)
        c = {'op': 'same', 'i': i, 'j': j, 'how': how, 'm': opt()}
        size[i] = size[j]
      else:
        off = rng.choice([0, rng.randint(0, size[j])])
        n = rng.choice([size[j] - off, rng.randint(0, size[j] - off)])
        c = {'op': 'slice', 'i': i, 'j': j, 'off': off, 'n': n}
        size[i] = n
    elif k < (.8 if pw else .8):
      f = rng.choice(sorted(REQ))
      js = [j]
      while len(js) < REQ[f]:
        js.append(rng.choice(same(j)) if i <= 4 and rng.random() < .9 else rng.randint(1, 4) if i <= 4 else rng.randint(5, 6))
      c = {'op': 'pw', 'i': i, 'f': f, 'js': js}
      if all(size[x] == size[js[0]] for x in js):
        # whether it succeeds is decided by the model; keep sizes unambiguous
        if f in ('div', 'divopt') and size[i] != size[js[0]]:
          c = None
        else:
          size[i] = size[js[0]]
    else:
      j = rng.randint(1, 4)
      k2 = rng.choice(same(j))
      kk = rng.choice(['mask', 'ends', 'subset', 'buffer', 'ids'] if not pw else ['iter', 'rows', 'rows'])
      c = {'op': kk, 'j': j, 'k': k2}
      if kk == 'mask' and rng.random() < .4: c['j'] = rng.randint(5, 6)
      if kk == 'ends': c['n'] = rng.choice([-1, 0, 1, 2, 5, 1000])
      if kk == 'subset': c.update(ids=subset(rng, size[j]), off=rng.choice([0, 0, 3]), wide=rng.random() < .5)
      if kk == 'iter': c['dense'] = rng.random() < .3
      if kk == 'rows':
        lo = rng.choice([0, rng.randint(0, size[j])])
        c.update(dense=rng.random() < .2, to=rng.choice([size[j], rng.randint(lo, size[j])]))
        c['from'] = lo
    if c:
      s.append(c)
    if c and c['op'] == 'lit' and 0 < len(c.get('ids', [])) < 4 < size[i] and rng.random() < .3:
      # two windows of one array
      w = rng.randint(2, size[i] - 1)
      for _ in range(2):
        x = rng.choice([x for x in range(1, 5) if x != i])
        s.append({'op': 'slice', 'i': x, 'j': i, 'off': rng.randint(0, size[i] - w), 'n': w})
        size[x] = w
    if c and c['op'] == 'lit' and c.get('miss', M) != M and 0 < len(c['ids']) < size[i] and not pw:
      # the value elsewhere is also stored, next to missing rows
      if rng.random() < .4:
        n = size[i]
        x = rng.choice([0, c['miss']])
        c['v'] = [rng.choice([M, x, c['miss']]) if k in c['ids'] else c['miss'] for k in range(n)]
      if rng.random() < .5:
        x = rng.randint(1, 4)
        s.append({'op': 'same', 'i': x, 'j': i, 'how': 'sparse', 'm': c['miss']})
        size[x] = size[i]
  return s


def sessions(rng, n, pw):
  return [session(rng, rng.choice(['i32', 'i32', 'text', 'unit']), rng.randint(4, 16), pw) for _ in range(n)]
