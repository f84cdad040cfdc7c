import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def cp(s):
  return [ord(c) for c in s]


STR = ['', 'a', 'x"y', "it's", '{', '}', '[1]', 'a\\b', '\\', '`id`', 'два', '\U0001f4cd', 'line\nbreak', '\t', '"', '%s', '{0}', "a' b", 'fn', '__call_python_func__', 'rec', 'a;b', '&&', '#x', '~', '*', ' lead', 'trail ', '$ ', '5$', '\\n', '\\"', 'null', '\u2028']
KEYS = ['k', 'a', 'fn', 'args', 'kwargs', 'deps', 'data', 'x', 'naïve', 'name', 'b2', 'self', 'z']
LABELS = ['//a:b', '//a:c', ':x', '//arolla/codegen:utils', 'b', 'B', '//z', '@m//q', '//a/b', '//a', '//arolla/codegen/io', '@com_google_absl_py//absl:app', '//arolla/codegen:render_jinja2_template', '@com_google_absl_py//absl/flags']
FILES = ['d1.bin', 'd2.bin', 'sub.txt', 'z.txt', 'A.h', 'a.h']


def main(r):
  rng = r.rng
  drv = mbt.pydrv('drv_calls')
  r.mc('MC_Calls')
  nfile = [0]

  def leaf():
    k = rng.choice('nbifssssp')
    if k == 'n':
      return {'t': 'n'}
    if k == 'b':
      return {'t': 'b', 'b': rng.random() < .5}
    if k == 'i':
      return {'t': 'i', 'i': cp(str(rng.choice([0, 1, -1, 57, 2**31, -2**63, 10**30])))}
    if k == 'f':
      return {'t': 'f', 'i': cp(repr(rng.choice([0.5, -2.0, 1e300, 1e-7, 0.1])))}
    if k == 'p':
      return {'t': 'p', 's': cp(rng.choice(FILES))}
    return {'t': 's', 's': cp(rng.choice(STR))}

  def call(fn, x, kw=(), labels=LABELS):
    kw = list(kw)
    return {'t': 'c', 'fn': fn, 'x': x, 'k': [cp(k) for k, _ in kw], 'kx': [v for _, v in kw],
            'deps': [cp(d) for d in rng.choices(labels, k=rng.choice([0, 0, 1, 2, 3]))] if fn != 'merge' else [],
            'data': [cp(d) for d in rng.choices(FILES, k=rng.choice([0, 0, 0, 1, 2]))] if fn != 'merge' else []}

  def read():
    nfile[0] += 1
    return {'t': 'c', 'fn': 'read', 'x': [], 'k': [], 'kx': [], 'deps': [], 'data': [cp('in%d.bin' % rng.randint(0, 10**9))],
            's': [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 20]))]}

  def dct(d, s=True):
    ks = rng.sample(KEYS, rng.randint(0, 4))
    return {'t': 'st' if s and rng.random() < .25 else 'd', 'k': [cp(k) for k in ks], 'x': [tree(d - 1) for _ in ks]}

  def mergeable(d):
    if d > 1 and rng.random() < .3:
      return call('merge', [mergeable(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))])
    ks = rng.sample(KEYS[:5], rng.randint(0, 4))
    return call('same', [{'t': 'd', 'k': [cp(k) for k in ks], 'x': [tree(d - 1) for _ in ks]}])

  def tree(d, root=False, labels=LABELS):
    if d <= 0 and not root:
      return leaf()
    k = 'c' if root else rng.choice(['leaf', 'l', 'd', 'c', 'c', 'c', 'merge', 'read'])
    if k == 'leaf':
      return leaf()
    if k == 'l':
      return {'t': 'l', 'x': [tree(d - 1, False, labels) for _ in range(rng.choice([0, 1, 2, 3, 5]))]}
    if k == 'd':
      return dct(d)
    if k == 'merge':
      return call('merge', [mergeable(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))])
    if k == 'read':
      return read()
    fn = rng.choice(['rec'] * 6 + ['same', 'quote'])
    if fn != 'rec':
      return call(fn, [tree(d - 1, False, labels)], (), labels)
    kw = [(n, tree(d - 1, False, labels)) for n in rng.sample(KEYS, rng.choice([0, 0, 1, 2, 3]))]
    return call(fn, [tree(d - 1, False, labels) for _ in range(rng.choice([0, 1, 2, 3]))], kw, labels)

  small = r.gen('Gen_Calls')
  cmds = [{'op': 'ctx', 'tree': t} for t in small]
  cmds += [{'op': 'call', 'tree': t} for t in small if t['t'] == 'c']
  for i in range(1000 if r.quick else 8000):
    cmds.append({'op': 'ctx', 'tree': tree(rng.choice([1, 2, 3, 4]))})
  # the same call written several times, as one shared object.
  for i in range(200 if r.quick else 2000):
    t = tree(2, True)
    s = rng.choice([{'t': 'l', 'x': [t, t]}, call('rec', [t, t], [('a', t)]), {'t': 'd', 'k': [cp('a'), cp('b')], 'x': [t, {'t': 'l', 'x': [t]}]}])
    cmds.append({'op': 'ctx', 'tree': s})
    if s['t'] == 'c':
      cmds.append({'op': 'call', 'tree': s})
  for i in range(700 if r.quick else 8000):
    cmds.append({'op': 'call', 'tree': tree(rng.choice([1, 2, 3, 4]), True)})
  STD = ['//arolla/codegen:utils', '@com_google_absl_py//absl:app', '//arolla/codegen:render_jinja2_template']
  for i in range(300 if r.quick else 3000):
    env = [[cp(k), cp(v)] for k, v in rng.sample([('A', 'b'), ('X', 'a b'), ('LC_ALL', 'C'), ('Q', '"q"'), ('P', '/x:/y'), ('B', 'a\\b'), ('E', ''), ('S', "it's"), ('T', '`id`'), ('W', 'x;y'), ('V', '*')], rng.choice([0, 0, 1, 3]))]
    cmds.append({'op': 'rule', 'tree': tree(rng.choice([1, 2, 3]), True, rng.choice([LABELS, STD])), 'testonly': rng.random() < .3, 'public': rng.random() < .3,
                 'tags': [cp(t) for t in rng.choice([[], [], ['manual'], ['a', 'b']])], 'stamp': rng.choice([-1, -1, 0, 1]),
                 'outs': [cp(o) for o in rng.choice([['o.txt'], ['o1', 'o2'], ['a/b.h']])], 'env': env})
  for i in range(16 if r.quick else 200):
    cmds.append({'op': 'real', 'tree': tree(rng.choice([2, 3])), 'at': rng.random() < .5})
  for i in range(150 if r.quick else 1500):
    t = dct(3, False)
    cmds.append({'op': 'tmpl', 'tree': t, 'st': rng.random() < .3, 'srcs': rng.random() < .5})
  for i in range(300 if r.quick else 3000):
    cmds.append({'op': 'prefix', 'it': rng.random() < .5, 's': [cp(''.join(rng.choice('ab') for _ in range(rng.choice([0, 1, 2, 3, 6])))) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]})
  for s in STR:
    cmds.append({'op': 'file', 'str': True, 's': cp(s)})
    cmds.append({'op': 'file', 'str': False, 's': list(s.encode())})
  cmds += [{'op': 'file', 'str': b, 's': list(range(256)) + [10, 13, 10]} for b in (True, False)]
  for fn, want in [('math.gcd', ''), ('os.path.join', ''), ('arolla.codegen.utils.merge_dicts', ''), ('no.such.mod.f', 'ImportError'), ('math.nope', 'AttributeError'), ('math.pi', 'TypeError'), ('os.sep', 'TypeError'), ('arolla.codegen.nope.f', 'ImportError'), ('arolla.codegen.utils.nope', 'AttributeError')]:
    cmds.append({'op': 'load', 'fn': cp(fn), 'want': want})
  for i in range(60):
    t = dct(2)
    t['k'] = [k if k != cp('__call_python_func__') else cp('q') for k in t['k']]
    cmds.append({'op': 'bad', 'tree': t})
  rng.shuffle(cmds)
  r.check('Trace_Calls', drv, mbt.each(cmds))


mbt.run('C14', main)
