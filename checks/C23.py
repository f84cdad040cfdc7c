import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt, arraysess
M = -1
# the arguments of each function: b bool, v value, m mask
SIG = {'and': 'bb', 'or': 'bb', 'not': 'b', 'if': 'bvvv', 'has': 'v', 'pnot': 'v', 'por': 'vv', 'pand': 'vm', 'where': 'mvv', 'andor': 'vmv',
       'eq': 'vv', 'ne': 'vv', 'lt': 'vv', 'le': 'vv'}
# the carriers of each function, and the optionality of arguments of row-wise overloads
ROWS = {'and': ['ss'], 'or': ['ss'], 'if': ['osss'], 'has': ['o'], 'por': ['oo', 'os', 'so', 'ss'], 'pand': ['oo', 'so', 'ss'],
        'where': ['ooo', 'oss'], 'andor': ['ooo', 'oos', 'soo', 'sos']}
LIFT = ['and', 'or', 'not', 'if', 'pnot', 'eq', 'ne', 'lt', 'le']
NATIVE = ['pand', 'por', 'porc', 'pnot', 'has']


def dom(c, t):
  return {'b': [M, 0, 1], 'm': [M, 0], 'v': [M, 0] if t == 'u' else [M, 0, 1, 2]}[c]


def form(rng, v):
  n = len(v)
  if rng.random() < .3:
    return {'shift': rng.choice([0, 1, 30, 31]), 'bm': rng.random() < .5, 'ids': list(range(n)), 'miss': M, 'off': 0}
  miss = rng.choice([M, M] + v) if n else rng.choice([M, 0])
  need = [k for k in range(n) if v[k] != miss]
  ids = sorted(set(need) | set(arraysess.subset(rng, n)))
  return {'shift': rng.choice([0, 0, 1, 30, 31]), 'bm': rng.random() < .5, 'ids': ids, 'miss': M if len(ids) == n and n else miss, 'off': rng.choice([0, 0, 3])}


def main(r):
  rng = r.rng
  r.mc('MC_Logic')
  ev = []

  def add(f, t, carrier, types, args, **kw):
    ev.append(dict(op='logic', f=f, t=t, carrier=carrier, types=types, args=args, forms=[form(rng, a) for a in args], **kw))

  for f, sig in SIG.items():
    ts = ['i'] if f in ('and', 'or', 'not', 'if', 'lt', 'le', 'eq', 'ne') else ['i', 't', 'u']
    for t in ts:
      table = lambda opts: [list(c) for c in zip(*itertools.product(*[[x for x in dom(c, t) if o == 'o' or x != M] for c, o in zip(sig, opts)]))]
      full = table('o' * len(sig))
      for types in ROWS.get(f, []):
        add(f, t, 'v', types, table(types))
      if f in LIFT:
        for c in ('o', 'd', 'ds', 'a'):
          add(f, t, c, 'ooo', full)
      # columns of other lengths, sparse and constant columns
      N = 120 if r.quick else 1500
      for _ in range(N * (3 if f == 'pnot' else 1)):
        n = rng.choice([0, 1, 2, 3, 5, 8, 31, 32, 33, 64, 70, 100])
        def col(c):
          if rng.random() < .2:
            return [rng.choice(dom(c, t))] * n
          p = rng.choice([.05, .5, .9, 1])
          d = dom(c, t)
          if rng.random() < .3:  # one run of missing values, often a long prefix
            lo = rng.choice([0, rng.randint(0, n)])
            hi = rng.randint(lo, n)
            return [M if lo <= x < hi else rng.choice(d[1:]) for x in range(n)]
          return [rng.choice(d[1:]) if rng.random() < p else rng.choice(d) if p > .1 else M for _ in range(n)]
        args = [col(c) for c in sig]
        if f in LIFT and rng.random() < .6:
          add(f, t, rng.choice(['d', 'ds', 'a', 'a']), 'ooo', args)
        if f in ('pand', 'por', 'pnot', 'has') and not (f == 'has' and t == 'u'):
          add(f, t, 'native', 'ooo', args, dense=rng.random() < .4)
          if f == 'por':
            c = rng.choice(dom('v', t))
            dense = rng.random() < .4
            if c == M and not dense:
              c = 0
            add('porc', t, 'native', 'ooo', [args[0], [c] * n], dense=dense)
        if f == 'if' and n and rng.random() < .3:
          add(f, t, 'ic', 'ooo', [args[0]] + [[rng.choice(dom('v', t))] * n for _ in range(3)])
  exe = r.build('drv_logic')
  r.check('Trace_Logic', [exe], mbt.each(ev))


mbt.run('C23', main)
