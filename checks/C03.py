import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def words(n, w):
  return (n + w - 1) // w


def contents(r, n, style):
  if style == 0: return list(range(n))
  if style == 1: return []
  if style == 2: return sorted(r.rng.sample(range(n), min(n, 2))) if n else []
  if style == 3:
    a = set(range(n))
    for _ in range(2):
      if n: a.discard(r.rng.randrange(n))
    return sorted(a)
  return [i for i in range(n) if r.rng.getrandbits(1)]


def window(n, a, b, inside, outside):
  """Bits of [a, b) by the inside pattern, neighbours by the outside one."""
  W = list(range(a, b))
  m = {'first': W[:1], 'last': W[-1:], 'none': [], 'all': W, 'allbutfirst': W[1:],
       'allbutlast': W[:-1], 'mid': W[len(W) // 2:len(W) // 2 + 1]}[inside]
  m = set(m)
  if outside == 'all': m |= set(range(0, a)) | set(range(b, n))
  if outside == 'near': m |= {a - 1, b}
  return sorted(x for x in m if 0 <= x < n)


INSIDE = ['first', 'last', 'none', 'all', 'allbutfirst', 'allbutlast', 'mid']


def variants(r, c):
  """The same case with contents placed at the edges of the addressed range."""
  op, w, nb = c['op'], c['w'], c.get('words_in', 0) * c['w']
  if op in ('countrange', 'findnext', 'setrange'): a, b = c['a'], c['b']
  elif op in ('bm_count', 'bm_iter'): a, b = c['a'], c['a'] + c['n']
  elif op in ('bm_allset', 'bm_allunset', 'bm_builder'): a, b = 0, c['n']
  elif op in ('andoff', 'copybits', 'bm_intersect'): a, b = c['ls'], c['ls'] + c['n']
  else: return
  for i in INSIDE:
    for o in (('none', 'all', 'near') if op in ('findnext', 'countrange', 'bm_count') else ('near',)):
      d = dict(c)
      d['m'] = window(nb, a, b, i, o)
      if 'r' in c:
        d['m'] = window(nb, a, b, r.rng.choice(INSIDE), r.rng.choice(['none', 'all']))
        d['r'] = window(c['words_r'] * w, c['rs'], c['rs'] + c['n'], i, r.rng.choice(['none', 'all', 'near']))
      yield d


def fill(r, c, style):
  """Chooses memory contents for the parameters of one case."""
  c = dict(c)
  op = c['op']
  c.setdefault('w', 32)
  w = c['w']
  if op.startswith('bm_'):
    c['w'] = w = 32
  extra = r.rng.choice([0, 0, 1])
  if op == 'roundup':
    c['m'] = []
    return c
  if op in ('getbit', 'setbit', 'bm_get', 'bm_set', 'bm_unset'):
    n = words(c['a'] + 1, w) + extra
  elif op in ('setrange', 'countrange', 'findnext'):
    n = words(c['b'], w) + (extra if op != 'findnext' else 0)
  elif op in ('ones', 'lsb', 'msb', 'clz'):
    c['words_in'] = 1
    m = set(contents(r, w, style))
    if op == 'lsb':
      m = {x for x in m if x >= c['a']} | {c['a']}
    elif op in ('msb', 'clz'):
      m = {x for x in m if x <= c['a']} | {c['a']}
    c['m'] = sorted(m)
    return c
  elif op in ('and', 'andin'):
    n = c['n']
    c['words_r'] = n
    c['r'] = contents(r, n * w, r.rng.choice([0, 3, 4]))
  elif op in ('andoff', 'copybits'):
    n = words(c['n'] + c['ls'], w) + (extra if op == 'copybits' else 0)
    c['words_r'] = words(c['n'] + c['rs'], w)
    c['r'] = contents(r, c['words_r'] * w, r.rng.choice([0, 3, 4, 4]))
  elif op == 'bm_intersect':
    n = words(c['n'] + c['ls'], w)
    c['words_r'] = words(c['n'] + c['rs'], w)
    c['r'] = contents(r, c['words_r'] * w, r.rng.choice([0, 3, 4, 4]))
  elif op == 'bm_count':
    n = r.rng.choice([0, words(c['a'] + c['n'], w), max(0, words(c['a'] + c['n'], w) - 1)])
    c['nbits'] = n * w
  elif op == 'bm_iter':
    n = r.rng.choice([0] + [words(c['a'] + c['n'], w)] * 4)
    c['nbits'] = n * w
  elif op == 'bm_word':
    n = c['n']
  elif op == 'bm_almost':
    n = 0
    k = c['n']
    c['missed'] = sorted(set(contents(r, k, style)))
    r.rng.shuffle(c['missed'])
    c['size'] = r.rng.choice([k, k, r.rng.randint(0, k)])
    if c['missed'] == []:
      c['size'] = k
  elif op == 'bm_builder':
    n = words(c['n'], w)
    left, ch = c['n'], []
    while left:
      k = min(left, r.rng.choice([1, 2, 5, 31, 32, 33, 64, left]))
      ch.append(k)
      left -= k
    c['chunks'] = ch
  elif op == 'bm_empty':
    n = 0
  else:
    n = words(c['n'], w)
  c['words_in'] = n
  c['m'] = contents(r, n * w, style)
  return c


def main(r):
  r.mc('MC_Bits')
  exe = r.build('drv_bits')
  base = r.gen('Gen_Bits')
  cases = []
  for c in base:
    for style in ([r.rng.randrange(5)] if r.quick else range(5)):
      cases.append(fill(r, c, style))
  edge = [v for c in base for v in variants(r, fill(r, c, 0))]
  if r.quick:
    search = [v for v in edge if v['op'] in ('findnext', 'countrange')]
    rest = [v for v in edge if v['op'] not in ('findnext', 'countrange')]
    edge = r.rng.sample(search, min(len(search), 6000)) + r.rng.sample(rest, min(len(rest), 6000))
    r.log(len(search), len(rest))
  cases += edge
  for _ in range(2500 if r.quick else 60000):
    w = r.rng.choice([32, 64])
    op = r.rng.choice(['andoff', 'copybits', 'copybits', 'bm_intersect', 'setrange', 'countrange', 'findnext',
                       'bm_count', 'bm_iter', 'bm_builder', 'bm_almost', 'bm_allset', 'bm_allunset'])
    if op.startswith('bm_'): w = 32
    n = r.rng.randint(1, 4 * w)
    a = r.rng.randint(0, 3 * w)
    c = dict(op=op, w=w, n=n, a=a, b=a + n, ls=r.rng.randrange(w), rs=r.rng.randrange(w))
    cases.append(fill(r, c, r.rng.randrange(5)))
  for n in (16384 * 8, 16384 * 8 + 1, 16384 * 8 + 400):
    cases.append(fill(r, dict(op='bm_empty', n=n), 0))
  r.check('Trace_Bits', [exe], mbt.each(cases))


mbt.run('C03', main)
