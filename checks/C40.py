import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt
P, N, LOW, NAN = 9999, -9999, -8000, 8888
KINDS = {'lin': ['PWLCurve'], 'log': ['LogPWLCurve'], 'log1p': ['Log1pPWLCurve', 'LogP1PWLCurve'], 'sym': ['Symlog1pPWLCurve', 'SymmetricLogP1PWLCurve']}


def xnum(kind, u):
  if u == P: return 'inf'
  if u == NAN: return 'nan'
  if u == N: return {'log': '0', 'log1p': '-1'}.get(kind, '-inf')
  if u == LOW: return {'log': '-1'}.get(kind, '-1.5')
  x = {'lin': lambda: u / 4, 'log': lambda: 2 ** (u / 4), 'log1p': lambda: 2 ** (u / 4) - 1,
       'sym': lambda: 2 ** (u / 4) - 1 if u >= 0 else 1 - 2 ** (-u / 4)}[kind]()
  return repr(x)


def dom(rng, kind, narrow):
  """A finite coordinate."""
  if kind == 'lin': return rng.randint(-80, 80) if rng.random() < .5 else rng.randint(-12, 12)
  lo = -10 if kind == 'log1p' else -20
  u = rng.randint(lo, 20) * 4 if rng.random() < .5 else rng.choice([-4, 0, 4, 8])
  if not narrow and rng.random() < .5 and (u >= 0 or kind != 'log1p'):
    u = max(-80, min(80, u + rng.randint(0, 3)))
  return u


def points(rng, kind, narrow):
  n = rng.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 5, 8, 12])
  us = sorted({dom(rng, kind, narrow) for _ in range(n)})
  ys = [rng.randint(-50, 50) for _ in us]
  k = rng.random()
  if k < .3: ys = [rng.choice([0, 0, 7]) for _ in us]
  elif k < .45:
    ys = sorted(ys)
    if rng.random() < .5: ys.reverse()
  ps = [[u, y] for u, y in zip(us, ys)]
  edge = lambda p, far: rng.choice([P, N, P, N, p, rng.randint(-50, 50)]) if rng.random() < .6 else (P if far else N)
  if rng.random() < .3: ps = [[N, edge(ps[0][1] if ps else 0, 0)]] + ps
  if rng.random() < .3: ps = ps + [[P, edge(ps[-1][1] if ps else 0, 1)]]
  if ps and rng.random() < .06: rng.choice(ps)[1] = rng.choice([P, N])
  if ps and rng.random() < .05: rng.shuffle(ps)
  if ps and rng.random() < .04: ps.insert(rng.randrange(len(ps) + 1), list(rng.choice(ps)))
  if len(ps) > 1 and rng.random() < .03: rng.choice(ps)[0] = NAN
  if kind in ('log', 'log1p') and rng.random() < .08: ps = [[LOW, rng.choice([y for _, y in ps] + [3, N])]] + ps
  return ps


def tokens(rng, kind, ps, sep):
  t = [{'t': rng.choice(KINDS[kind]), 'k': 'name', 'v': 0}, '(', '{']
  def num(text, v, x):
    if rng.random() < .1: text = rng.choice([' %s', '%s ', '\t%s', '%s'] + (['+%s'] if text[0] != '-' else [])) % text
    return {'t': text, 'k': 'num', 'v': v, 'x': x}
  y = lambda v: {P: 'inf', N: '-inf'}.get(v, rng.choice([str(v), '%de0' % v, '%d.0' % v]))
  for i, (a, b) in enumerate(ps):
    if i: t.append(sep)
    t += ['{', num(xnum(kind, a), a, True), sep, num(y(b), b, False), '}']
  t += ['}', ')']
  return [{'t': x, 'k': x, 'v': 0} if isinstance(x, str) else x for x in t]


def mutate(rng, t):
  t = list(t)
  for _ in range(rng.choice([1, 1, 2])):
    if not t: break
    i = rng.randrange(len(t))
    k = rng.random()
    if k < .3 and len(t) > 1: del t[i]
    elif k < .5: t.insert(rng.choice([i, len(t)]), dict(t[rng.randrange(len(t))]))
    elif k < .6: t[i] = dict(t[rng.randrange(len(t))])
    elif k < .7: j = rng.randrange(len(t)); t[i], t[j] = t[j], t[i]
    elif k < .8:
      c = rng.choice('{}();|,')
      t.insert(rng.choice([i, len(t)]), {'t': c, 'k': c, 'v': 0})
    elif k < .9:
      bad = rng.choice(['', '1x', '--1', 'x', '1e', '0x', 'PWLCurv', 'pwlcurve', ' '])
      t[i] = {'t': bad, 'k': 'bad', 'v': 0}
    else: t = t[:i]
  word = lambda x: x['k'] in ('name', 'num', 'bad')
  if any(word(a) and word(b) for a, b in zip(t, t[1:])): return None
  # a number keeps its place: the codes of arguments and values differ
  if any(b['k'] == 'num' and (a['k'] == '{') != b['x'] for a, b in zip(t, t[1:])): return None
  return t


def args(rng, kind, ps):
  us = [u for u, _ in ps if u not in (LOW, P, N, NAN)]
  r = [N, P, NAN] + us + ([LOW] if kind in ('log', 'log1p') else [])
  r += [dom(rng, kind, False) for _ in range(6)]
  if kind != 'log1p': r += [u + d for u in us for d in (-1, 1) if abs(u + d) <= 80]
  rng.shuffle(r)
  return r[:rng.choice([0, 1, 16, 24, 24])]


def event(rng, kind, ps, via=None):
  via = via or rng.choice(['points', 'points', 'points', 'xy', 'fxy', 'opxy', 'spec', 'spec', 'bar', 'either', 'opspec', 'none'])
  e = {'op': 'curve', 'kind': kind, 'via': via, 'pts': ps, 'toks': [], 'spoilt': False, 'bm': rng.random() < .5, 'args': args(rng, kind, ps)}
  if via in ('points', 'xy', 'fxy', 'opxy'):
    e['spoilt'] = rng.random() < .04
  else:
    sep = {'bar': '|', 'none': ','}.get(via, ';')
    if via == 'either': sep = rng.choice(';|')
    if rng.random() < .1: sep = rng.choice(';|,')
    t = tokens(rng, kind, ps, sep)
    if rng.random() < .35: t = mutate(rng, t) or t
    e['toks'] = t
  return e


def main(r):
  rng = r.rng
  r.mc('MC_Curve', 'MC_Curve' if r.quick else 'MC_Curve_thorough', cover=False)
  ev = []
  # all small lists
  for kind in KINDS:
    us = [N, -4, 0, 4, 12, P]
    ys = [N, 0, 2, P]
    small = [[]] + [[[u, y]] for u in us for y in ys]
    level = [[]]
    for _ in range(3 if r.quick else 4):
      level = [ps + [[u, y]] for ps in level for u in us if not ps or u > ps[-1][0] for y in ys]
      small += level
    if r.quick: small = rng.sample(small, 700)
    ev += [event(rng, kind, [list(p) for p in ps], 'points') for ps in small]
  for _ in range(8000 if r.quick else 120000):
    kind = rng.choice(list(KINDS))
    via = rng.choice([None, None, 'fxy', 'opxy'])
    if via is None:
      e = event(rng, kind, points(rng, kind, True))
      if e['via'] not in ('fxy', 'opxy'): e = event(rng, kind, points(rng, kind, False), e['via'])
    else: e = event(rng, kind, points(rng, kind, True), via)
    ev.append(e)
  r.check('Trace_Curve', [r.build('drv_curve')], mbt.each(ev))


mbt.run('C40', main)
