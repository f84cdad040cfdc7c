"""Registry histories (used by C37 and C17)."""
NUM = ['i32', 'i64', 'f32', 'f64', 'wf']
ALL = NUM + ['text', 'bytes', 'bool', 'unit']


def T(s, k=0):
  return {'s': s, 'k': k}


def name(s):
  return [ord(c) for c in s]


def sessions(r, n, depth):
  rng = r.rng
  hist = r.gen('Gen_Registry', env={'DEPTH': depth})
  lists = [[T('i32')], [T('i64')], [T('i32', 1)], [T('wf')], [T('f64')], [T('f32')], [T('i64', 1)], [T('i32', 2)], [], [T('text')]]
  sess = []
  for h in hist if len(hist) <= n else rng.sample(hist, n):
    gets = [{'op': 'get', 'name': name('f'), 'ins': i, 'out': o} for i in lists for o in (T('f32'), T('f64'), T('wf'))]
    sess.append(h + rng.sample(gets, 12) + [{'op': 'list'}])
  for _ in range(n // 2):
    names = [name(x) for x in rng.sample(['f', 'a.b', 'a', 'core.add', '_x1', 'f_', 'A.b.c9'], 3)]
    bad = [name(x) for x in ['', '.', 'a.', '.a', 'a..b', '9a', 'a b', 'a-b', 'a.9', ' f', 'a.b\n', 'f\0']]
    ar = rng.choice([1, 1, 2, 2, 3])
    ss = rng.choice([NUM, NUM, ALL, ['i32', 'f32', 'wf']])
    ks = rng.choice([[0], [0, 1], [0, 1, 2, 3], [0, 0, 1, 2]])
    typ = lambda: T(rng.choice(ss), rng.choice(ks)) if rng.random() < .97 else T('tup', rng.randint(0, 1))
    pool = [[typ() for _ in range(ar if rng.random() < .9 else rng.randint(0, 3))] for _ in range(6)]
    outs = [typ(), T('f32'), T('f64')]
    s = [{'op': 'begin'}]
    fam_used, tried = set(), set()
    for i in range(rng.randint(4, 16)):
      x = rng.random()
      nm = rng.choice(names) if rng.random() < .95 else rng.choice(bad)
      if x < .45:
        s.append({'op': 'reg', 'name': nm, 'ins': rng.choice(pool), 'out': rng.choice(outs),
                  'prio': rng.choice([0, 0, 0, 1, 1, 2, 63]) if rng.random() < .7 else 0, 'id': i + 1})
        tried.add(tuple(nm))
      elif x < .52 and tuple(nm) not in tried:
        s.append({'op': 'fam', 'name': nm, 'id': i + 1})
      elif x < .58:
        s.append({'op': 'list'})
      else:
        ins = rng.choice(pool)
        if rng.random() < .6:
          ins = [typ() if rng.random() < .4 else t for t in ins]
        s.append({'op': 'get', 'name': nm, 'ins': ins, 'out': rng.choice(outs + [T('wf')])})
    for nm in names:
      for ins in pool:
        if rng.random() < .5:
          s.append({'op': 'get', 'name': nm, 'ins': ins, 'out': rng.choice(outs)})
    sess.append(s)
  return sess


def expr_sessions(r, n, depth):
  """Histories of the expression operator registry."""
  rng = r.rng
  names = [['a'], ['a', 'b'], ['b']]
  hist = r.gen('Gen_ExprReg', env={'DEPTH': depth})
  sess = []
  for h in hist if len(hist) <= n else rng.sample(hist, n):
    s = h[:1]
    watch = rng.sample([[]] + names, 2)
    for e in h[1:]:
      for w in watch:
        s.append({'op': 'erev', 'name': w})
      if rng.random() < .4:
        s.append({'op': 'eimpl', 'name': rng.choice(names)})
      s.append(e)
    s += [{'op': 'erev', 'name': w} for w in watch] + [{'op': 'elist'}]
    for x in names:
      s += [{'op': 'eimpl', 'name': x}, {'op': 'elook', 'name': x}]
    sess.append(s)
  comps = ['a', 'b', 'c', '_x', 'a1', 'A']
  for _ in range(n // 2):
    names = [[rng.choice(comps) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.randint(2, 8))]
    names += [x[:-1] for x in names if len(x) > 1]
    bad = [[''], ['1'], ['a', ''], ['', 'a'], ['x y'], ['a', '-'], ['a', '1b']]
    s = [{'op': 'begin'}]
    nm = lambda: rng.choice(names)
    wr = lambda: nm() if rng.random() < .95 else rng.choice(bad)
    chain = rng.random() < .15
    if chain:
      # a long chain of references, sometimes closed
      long = [['a', 'b', c1, c2] for c1 in comps for c2 in comps]
      k = rng.randint(20, 34)
      for i in range(k):
        s.append({'op': 'eref', 'name': long[i], 'to': long[i + 1]})
      s.append({'op': 'ereg', 'name': long[k], 'id': 99} if rng.random() < .5 else {'op': 'eref', 'name': long[k], 'to': long[rng.randint(0, k)]})
      names += [long[0], long[k], long[rng.randint(0, k)]]
    for i in range(rng.randint(6, 24)):
      x = rng.random()
      if x < .25: s.append({'op': 'ereg', 'name': wr(), 'id': i + 1})
      elif x < .37: s.append({'op': 'eref', 'name': wr(), 'to': nm()})
      elif x < .45: s.append({'op': 'ealias', 'name': wr(), 'to': nm()})
      elif x < .58: s.append({'op': 'eunreg', 'name': wr()})
      elif x < .66: s.append({'op': 'elook', 'name': wr()})
      elif x < .7: s.append({'op': 'elist'})
      elif x < .85: s.append({'op': 'eimpl', 'name': nm()})
      else: s.append({'op': 'erev', 'name': rng.choice(names + [[]])})
    s.append({'op': 'elist'})
    s += [{'op': 'eimpl', 'name': x} for x in names]
    sess.append(s)
  return sess
