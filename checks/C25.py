import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def main(r):
  rng = r.rng
  exe = r.build('drv_expr')
  r.mc('MC_Exprs', cover=False)

  def literal():
    ty = rng.choice(['i32', 'i64', 'f32', 'f64', 'bool', 'unit', 'text', 'bytes', 'oi32', 'mi32', 'unspec'])
    return {'i': 'lit', 'ty': ty, 'v': rng.randint(0, 1) if ty == 'bool' else 0 if ty in ('unit', 'mi32', 'unspec') else rng.choice([0, 1, 2, 3])}

  def graph():
    I = []
    size = {}     # unfolded size
    lams = {}     # defined operators below
    arity = {}
    nodes, ops = [], []

    def add(it):
      I.append(it)
      return len(I)

    def node(it, s=1, k=0):
      n = add(it)
      size[n], lams[n] = s, k
      nodes.append(n)
      return n

    def oper(it, ar):
      n = add(it)
      arity[n] = ar
      ops.append(n)
      return n

    f = oper({'i': 'reg', 'name': 'verif.f'}, -1)
    if rng.random() < .6:
      oper({'i': 'reg', 'name': 'verif.g'}, 2)
    if rng.random() < .1:
      oper({'i': 'reg', 'name': 'verif.none'}, -1)
    for _ in range(rng.randint(1, 3)):
      ar = rng.choice([-1, 0, 1, 1, 2, 2, 3])
      oper({'i': 'test', 'name': rng.choice(['t', 'u', 'verif.f']), 'ar': ar, 'doc': rng.choice(['', '', 'd'])}, ar)
    if rng.random() < .4:
      oper({'i': 'tuple'}, -1)
    for _ in range(rng.randint(1, 4)):
      k = rng.random()
      key = rng.choice(['x', 'y', 'z'])
      if k < .45:
        node({'i': 'leaf', 'key': key} if rng.random() < .95 else {'i': 'leaf', 'key': 'k', 'rep': rng.choice([2, 50, 500])})
      elif k < .7:
        node({'i': 'ph', 'key': key})
      else:
        node(literal())

    def call(pool, limit, dup=True):
      o = rng.choice(ops)
      ar = arity[o]
      if ar == -1:
        ar = rng.choice([0, 1, 2, 2, 3]) if rng.random() < .92 else rng.randint(4, 20)
      if rng.random() < .04:
        ar = max(0, ar + rng.choice([-1, 1]))
      ds = [rng.choice(pool[-4:] if rng.random() < .5 else pool) for _ in range(ar)]
      s = 1 + sum(size[d] for d in ds)
      k = sum(lams[d] for d in ds) + (I[o - 1]['i'] == 'lam') + (I[o - 1].get('name') == 'verif.g')
      if s > limit or k > 4:
        return None
      return node({'i': 'op', 'o': o, 'd': ds}, s, k)

    for _ in range(rng.randint(0, 2)):  # defined operators
      sig = []
      names = rng.sample(['x', 'y', 'z'], rng.randint(0, 3))
      df = rng.randint(0, len(names)) if rng.random() < .3 else 0
      for j, n in enumerate(names):
        v = j == len(names) - 1 and rng.random() < .3
        sig.append({'n': n, 'v': v, 'def': 0 if v or j < len(names) - df else 5 + j})
      if rng.random() < .07 and sig:
        rng.choice(sig).update(rng.choice([{'n': 'x'}, {'n': '1'}, {'v': True}, {'def': 7}]))
      pool = []
      for n in names:
        if rng.random() < .85:
          pool.append(node({'i': 'ph', 'key': n}))
      if rng.random() < .3 or not pool:
        pool.append(node(literal()))
      if rng.random() < .05:
        pool.append(node({'i': 'leaf', 'key': 'x'}))
      for _ in range(rng.choice([0, 1, 1, 2, 3])):
        n = call(pool, 9)
        if n:
          pool.append(n)
      ar = len(names) if not (sig and sig[-1]['v']) else len(names) - 1 + rng.randint(0, 3)
      oper({'i': 'lam', 'name': rng.choice(['anonymous.lambda', 'm']), 'doc': rng.choice(['', '', 'd']), 'sig': sig, 'body': pool[-1]}, ar)
      if rng.random() < .2:
        oper(dict(I[-1]), ar)
    for _ in range(rng.randint(1, 9)):
      call(nodes, 60)
      if rng.random() < .12:  # the same thing built again
        j = rng.choice(nodes)
        node(dict(I[j - 1]), size[j], lams[j])
    linked = []
    users = [n for n in nodes if I[n - 1]['i'] == 'op' and I[n - 1]['d'] and size[n] <= 12 and lams[n] == 0]
    if users and rng.random() < .35:
      # rules that meet: a -> b, then the node that arises from it -> something, the node itself being there too
      n = rng.choice(users)
      it = I[n - 1]
      a = rng.choice(it['d'])
      fresh = lambda: node({'i': 'leaf', 'key': rng.choice(['p', 'q', 'r'])})
      b, c = fresh(), fresh()
      with_ = lambda v: node({'i': 'op', 'o': it['o'], 'd': [v if d == a else d for d in it['d']]}, size[n], 0)
      n1 = with_(b)
      n2 = with_(c)
      to = rng.choice([c, node({'i': 'op', 'o': f, 'd': [rng.choice([n2, n1, n, c])]}, size[n] + 1), n2, n])
      linked = [[a, b], [n1, to]] + ([[c, b]] if rng.random() < .5 else [])
      top = [n, n1] + ([n2] if rng.random() < .3 else []) + rng.sample(nodes, 1)
      rng.shuffle(top)
      top = [t for t in top if size[t] <= 14]
      node({'i': 'op', 'o': f, 'd': top}, 1 + sum(size[t] for t in top), sum(lams[t] for t in top))
    root = nodes[-1] if rng.random() < .8 else rng.choice(nodes)
    small = [n for n in nodes if size[n] <= 6]
    rules = linked
    for _ in range(rng.choice([0, 0, 0, 1]) if linked else rng.choice([0, 1, 1, 2, 3])):
      a, b = rng.choice(nodes), rng.choice(small)
      rules.append([a, b])
    if rules and rng.random() < .4:
      rules.append([rules[-1][1], rng.choice(small)])
    return {'op': 'graph', 'items': I, 'root': root if rng.random() < .98 else 0, 'rules': rules, 'fail': rng.randint(0, 10)}

  cmds = [graph() for _ in range(1500 if r.quick else 20000)]
  for _ in range(12 if r.quick else 100):
    I = [{'i': 'leaf', 'key': 'a'}, {'i': 'leaf', 'key': 'new'}, {'i': 'leaf', 'key': 'c'}] + [
        {'i': 'test', 'name': 'f%d' % k, 'ar': k, 'doc': ''} for k in (1, 2, 3)]
    nodes = [1, 3]
    for _ in range(rng.choice([30, 60, 120])):
      k = rng.choice([1, 2, 2, 3])
      I.append({'i': 'op', 'o': 3 + k, 'd': [rng.choice(nodes[-3:]) if rng.random() < .8 else rng.choice(nodes) for _ in range(k)]})
      nodes.append(len(I))
    cmds.append({'op': 'big', 'items': I, 'root': len(I), 'from': 1, 'to': 2})
  for n in (0, 1, 30, 33, 40, 1000, 30000 if r.quick else 300000):
    for ar in (1, 2, 3):
      cmds.append({'op': 'deep', 'n': n, 'ar': ar})
  r.check('Trace_Exprs', [exe], mbt.each(cmds))


mbt.run('C25', main)
