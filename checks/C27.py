"""C27: programs over a small operator set, compiled under all options and run
on rows of inputs; every output against the meaning of the expression."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt

# kind: (types of arguments, type)
KINDS = {'lin': ('ii', 'i'), 'lam': ('ii', 'i'), 'lamwhere': ('ii', 'i'), 'opt': ('ii', 'o'), 'val': ('o', 'i'), 'has': ('o', 'u'),
         'less': ('ii', 'u'), 'inv': ('i', 'i'), 'where': ('uii', 'i'), 'cwhere': ('uii', 'i'), 'tup': ('ii', 't'),
         'nth0': ('t', 'i'), 'nth1': ('t', 'i'), 'while': ('ti', 't'),
         'pack': ('ot', 'p'), 'p0': ('p', 'o'), 'p1': ('p', 't')}
WEIGHT = {'lin': 5, 'where': 4, 'less': 2, 'nth0': 2, 'nth1': 2, 'has': 2, 'opt': 2, 'tup': 2, 'p0': 2, 'p1': 2}


def value(rng, t):
  i = lambda: rng.choice([0, 1, 2, 3, 4, 5, 10, rng.randint(0, 300)])
  if t == 'i': return [i()]
  if t == 'o': return [1, i()] if rng.random() < .6 else [0, 0]
  if t == 'u': return [rng.randint(0, 1)]
  if t == 'p': return value(rng, 'o') + [i(), i()]
  return [i(), i()]


def wrap(rng, ns, kinds):
  """Annotations: a name for the last node."""
  if rng.random() < .08:
    ns.append({'k': 'name', 'a': [len(ns)], 'v': [], 't': ns[-1]['t']})
    kinds.append(ns[-1]['t'])


def program(rng, size, mode):
  """mode: 'dag' shares nodes freely, 'tree' never."""
  leaves = ''.join(rng.choice('iiiotp') for _ in range(rng.randint(1, 4)))
  ns, ty, used = [], [], set()
  def leaf(t):
    # a leaf of the type, or a literal
    idx = [j for j in range(len(leaves)) if leaves[j] == t]
    if idx and rng.random() < .8:
      j = rng.choice(idx)
      for p, n in enumerate(ns):
        if n['k'] in ('leaf', 'qleaf') and n['v'] == [j + 1] and mode == 'dag': return p + 1
      ns.append({'k': 'qleaf' if rng.random() < .1 else 'leaf', 'a': [], 'v': [j + 1], 't': t})
    else:
      ns.append({'k': 'lit', 'a': [], 'v': value(rng, t), 't': t})
    ty.append(t)
    return len(ns)
  def build(t, depth):
    if mode == 'dag' and rng.random() < .4:
      c = [j + 1 for j in range(len(ns)) if ty[j] == t]
      if c: return rng.choice(c[-4:] if rng.random() < .5 else c)
    ks = [k for k in KINDS if KINDS[k][1] == t and not (k in ('while', 'cwhere', 'inv') and rng.random() < .5)]
    if depth <= 0 or not ks: return leaf(t)
    k = rng.choices(ks, [WEIGHT.get(x, 1) for x in ks])[0]
    a = [build(x, depth - 1 if rng.random() < .8 else 0) for x in KINDS[k][0]]
    if k == 'lin' and mode == 'dag' and rng.random() < .1: a[1] = a[0]
    ns.append({'k': k, 'a': a, 'v': [], 't': t})
    ty.append(t)
    wrap(rng, ns, ty)
    return len(ns)
  root = build(rng.choice('iiiiotup'), size)
  side = []
  if mode == 'dag' and rng.random() < .5:
    for _ in range(rng.randint(1, 3)):
      side.append(rng.randint(1, len(ns)) if rng.random() < .6 else build(rng.choice('iiotp'), 2))
    if rng.random() < .3: root = rng.randint(1, len(ns))
  return leaves, ns, root, side


def mesh(rng):
  """Nodes over random earlier ones, then a sum of all that is not used."""
  leaves = ''.join(rng.choice('iit') for _ in range(rng.randint(1, 3)))
  ns = [{'k': 'leaf', 'a': [], 'v': [j + 1], 't': t} for j, t in enumerate(leaves)]
  if rng.random() < .5: ns.append({'k': 'lit', 'a': [], 'v': [rng.randint(0, 9)], 't': 'i'})
  ks = ['tup'] * 4 + ['nth0', 'nth1'] * 4 + ['lin'] * 4 + ['opt', 'has', 'val', 'less', 'cwhere', 'where'] + rng.choice([[], ['pack', 'p0', 'p1'] * 3])
  near = rng.choice([3, 6, 20])
  add = lambda k, a: ns.append({'k': k, 'a': a, 'v': [], 't': KINDS[k][1]})
  for _ in range(rng.randint(5, 22)):
    k = rng.choice(ks)
    a = []
    for t in KINDS[k][0]:
      c = [j + 1 for j, n in enumerate(ns) if n['t'] == t]
      if not c: break
      a.append(rng.choice(c[-near:]))
    else: add(k, a)
  used = {a for n in ns for a in n['a']}
  rest = [j + 1 for j, n in enumerate(ns) if n['t'] == 'i' and (j + 1 not in used or rng.random() < .3)]
  rng.shuffle(rest)
  root = rest[0] if rest else len(ns)
  for j in rest[1:]:
    add('lin', [root, j])
    root = len(ns)
  side = [rng.randint(1, len(ns)) for _ in range(rng.choice([0, 0, 1, 2]))]
  return leaves, ns, root, side


def settle(e):
  """The short-circuiting operator is internal: it comes from the optimizer, so it
  is used directly only where nothing computes it ahead."""
  fixed = set()
  for i, n in enumerate(e['nodes']):
    if n['k'] not in ('leaf', 'qleaf') and all(a in fixed for a in n['a']): fixed.add(i + 1)
    if e['fold'] and n['k'] == 'where' and (e['opt'] or i + 1 in fixed): n['k'] = 'cwhere'
    if e['fold'] and n['k'] == 'lamwhere' and (e['opt'] or i + 1 in fixed): n['k'] = 'lam'
  return e


def event(rng, mode, size):
  leaves, ns, root, side = mesh(rng) if mode == 'mesh' else program(rng, size, mode)
  return {'op': 'eval', 'leaves': list(leaves), 'nodes': ns, 'root': root, 'side': side,
          'rows': [[value(rng, t) for t in leaves] for _ in range(rng.randint(1, 4))],
          'over': rng.random() < .4, 'fold': rng.random() < .7, 'opt': rng.random() < .6, 'desc': rng.random() < .1,
          'trace': rng.random() < .2, 'via': rng.choice(['bind', 'bind', 'bind', 'compile', 'twice'] + ([] if side else ['invoke']))}


def small(rng):
  """All graphs of three operator nodes over two inputs, shared and forced in all ways."""
  out = []
  def grow(ns, ty):
    if len(ns) == 5:
      for side in [[], [3], [4]]:
        used = {a for n in ns for a in n['a']} | set(side) | {5}
        if all(j in used for j in range(3, 6)): out.append((ns, side))
      return
    for k in ('lin', 'opt', 'val', 'tup', 'nth1', 'has'):
      ts, t = KINDS[k]
      def args(p):
        if p == len(ts): yield []; return
        for j in range(1, len(ns) + 1):
          if ty[j - 1] == ts[p]:
            for rest in args(p + 1): yield [j] + rest
      for a in args(0): grow(ns + [{'k': k, 'a': a, 'v': [], 't': t}], ty + [t])
  for b in ('leaf', 'lit'):
    grow([{'k': 'leaf', 'a': [], 'v': [1], 't': 'i'}, {'k': b, 'a': [], 'v': [2] if b == 'leaf' else [4], 't': 'i'}], ['i', 'i'])
  return out


def main(r):
  rng = r.rng
  r.mc('MC_Eval', 'MC_Eval' if r.quick else 'MC_Eval_thorough', cover=False)
  ev = []
  sm = small(rng)
  if r.quick and len(sm) > 1500: sm = rng.sample(sm, 1500)
  for ns, side in sm:
    ev.append({'op': 'eval', 'leaves': ['i', 'i'], 'nodes': ns, 'root': 5, 'side': side,
               'rows': [[value(rng, 'i'), value(rng, 'i')] for _ in range(2)], 'over': rng.random() < .5, 'fold': rng.random() < .5,
               'opt': rng.random() < .5, 'desc': False, 'trace': False, 'via': rng.choice(['bind', 'bind', 'compile', 'twice'])})
  while len(ev) < (7000 if r.quick else 60000):
    e = event(rng, rng.choice(['tree', 'dag', 'mesh']), rng.choice([1, 2, 2, 3, 3, 4, 5]))
    if len(e['nodes']) <= 60: ev.append(settle(e))
  r.check('Trace_Eval', [r.build('drv_eval')], mbt.each(ev))


mbt.run('C27', main)
