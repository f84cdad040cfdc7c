import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def cp(s):
  return [ord(c) for c in s]


def main(r):
  rng = r.rng
  drv = mbt.pydrv('drv_accessors')
  r.mc('MC_AccList', timeout=300)
  cmds = []
  small = r.gen('Gen_AccList', env={'DEPTH': 2 if r.quick else 3})
  for i, acc in enumerate(small):
    cmds.append({'op': 'list', 'acc': acc, 'k': i % 3 + 1, 'n': i % 4})
  NAMES = ['a', 'b', 'B', '/x', '/x/y', '/x/@size', 'z"q', "it's", 'aa', '_', '10', '9', 'é', '\u4e2d', 'Z', '~', ' sp', '']
  LINES = ['[](const auto& i) { return i; }', '  x', '\t', '', ' ', 'y  ', 'z\t \t', '\r', 'w\r', '\u00a0', 'k\u2003', '  a b  ']
  INCS = ['a.h', '"a.h"', '<a>', '<vector>', 'b/c.h', '', '"', '<', '<a', 'a>', '"b/c.h"', 'B.h', '""']
  def acc(names, inc=INCS, blanks=True):
    if rng.random() < .3:
      return {'name': cp(rng.choice(names)), 'd': cp(rng.choice([n for n in names if n] or ['d'])), 'lam': [cp(rng.choice(LINES))],
              'inc': [], 'pp': cp(rng.choice(['a', 'a/b', 'x[:]'])), 'ty': cp(rng.choice(['', '', 'int32_t'])), 'df': cp(rng.choice(['', '', '0']))}
    return {'pp': [], 'ty': [], 'df': [], 'name': cp(rng.choice(names)), 'd': rng.choice([[], cp(rng.choice([n for n in names if n] or ['d']))]),
            'lam': [cp(rng.choice(LINES)) for _ in range(rng.randint(1, 3))],
            'inc': [cp(rng.choice(inc)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
  def copy(a):  # the same accessor spelled differently.
    b = dict(a)
    if a['pp']:
      b['lam'] = [cp(rng.choice(LINES))]
      return b
    b['lam'] = [l + cp(rng.choice(['', ' ', '\t '])) for l in a['lam']] + [cp(rng.choice(['', '  ']))]
    b['inc'] = list(a['inc']) + a['inc'][:1]
    rng.shuffle(b['inc'])
    return b
  for i in range(700 if r.quick else 6000):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    kind = rng.random()
    if kind < .6:
      # distinct names, some repeated identically.
      ns = rng.sample([x for x in NAMES if x], min(n, len(NAMES) - 1))
      l = []
      for x in ns:
        a = acc([x])
        if rng.random() < .3:
          a['name'], a['d'] = [], cp(x)
        l.append(a)
      for _ in range(rng.choice([0, 0, 1, 2, 4])):
        if l:
          l.append(copy(rng.choice(l)))
    else:
      l = [acc(rng.sample(NAMES, rng.choice([3, 8, 18]))) for _ in range(n)]
      if kind < .9:
        l = [a for a in l if a['name'] or a['d']]
      for _ in range(rng.choice([0, 0, 1, 3])):
        if l:
          l.append(copy(rng.choice(l)))
    rng.shuffle(l)
    cmds.append({'op': 'list', 'acc': l, 'k': rng.choice([1, 2, 3, 4, 7, 50]), 'n': rng.choice([-1, 0, 1, 2, 3, 4, 5, 7, 20])})
  # every (size, shard count): even splits.
  for n in list(range(0, 14)) + [23, 40]:
    l = [{'pp': [], 'ty': [], 'df': [], 'name': cp('n%02d' % i), 'd': [], 'lam': [cp('f')], 'inc': []} for i in range(n)]
    for k in range(0, 16):
      cmds.append({'op': 'list', 'acc': l[::-1], 'k': k, 'n': k})
  for i in range(400 if r.quick else 3000):
    a = acc(['p', 'q'])
    b = copy(a) if rng.random() < .4 else dict(a)
    if rng.random() < .6:
      o = acc(['p', 'q'])
      f = rng.choice(['d', 'lam', 'inc'] if not a['pp'] else ['pp', 'ty', 'df'])
      b = dict(b)
      b[f] = o[f]
      if bool(b['pp']) != bool(a['pp']):
        b = o
    cmds.append({'op': 'acc', 'a': a, 'b': b})
  for p in ['.x', '', '.v.size()', ' & 1', '.a\n\n.b  ', '["k%s"]', '%d', '\n']:
    for d in ['', 'n', '/a/b']:
      cmds.append({'op': 'path', 'path': cp(p), 'd': cp(d)})
  r.check('Trace_AccList', drv, mbt.each(cmds))


mbt.run('C10', main)
