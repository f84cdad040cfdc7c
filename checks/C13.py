import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def cp(s):
  return [ord(c) for c in s]


PRINT = [chr(c) for c in range(32, 127)]
FIELDS = ['a', 'b', 'ab', 'foo_bar', 'x1', '_', 'Abc', '@size', '@key', '@value', 'Ext::p.q', 'Ext::Foo.Bar.baz', 'm["k"]', 'm["a.b"]', 'r[0]', 'r[12]', 'Ext::', 'ext::a', 'é'.encode().decode('latin1')]
ODD = FIELDS + ['', 'a/b', 'x[:]', 'p/@size', '/', 'a[:]b', 'Ext::a/B.c']


def main(r):
  rng = r.rng
  exe = r.build('drv_naming')
  drv = mbt.pydrv('drv_names')
  r.mc('MC_Naming')
  seg = lambda pool: {'f': cp(rng.choice(pool)), 'ix': rng.random() < .4}
  cmds = []

  def path(pool, n):
    steps = []
    for _ in range(n):
      k = rng.choice(['seg', 'name', 'move', 'movename', 'path', 'one', 'keys', 'values'])
      steps.append({'k': k, 's': [] if k in ('keys', 'values') else [seg(pool) for _ in range(rng.randint(0, 3))] if k == 'path' else [seg(pool)]})
    k = rng.choice(['table', 'table', 'col', 'colname', 'colpath', 'size', 'sizepath'])
    fin = {'k': k, 's': [] if k == 'table' else [seg(pool) for _ in range(rng.randint(0, 3))] if k in ('colpath', 'sizepath') else [seg(pool)]}
    if k == 'size':
      fin['s'][0]['f'] = rng.choice([fin['s'][0]['f'], []])
    p = []
    for s in steps:
      p += [{'f': cp('@key'), 'ix': False}] if s['k'] == 'keys' else [{'f': cp('@value'), 'ix': False}] if s['k'] == 'values' else s['s']
    q = p + fin['s'] + [{'f': cp('@size'), 'ix': False}] if 'size' in k else p + fin['s']
    def near():
      z = [dict(x) for x in q[:rng.choice([0, 1, 2, len(q), len(q), max(0, len(q) - 1)])]]
      t = rng.random()
      if z and t < .3:
        z[rng.randrange(len(z))]['ix'] ^= True
      elif z and t < .5:
        z[rng.randrange(len(z))]['f'] = cp(rng.choice(pool))
      elif t < .6:
        z.append(seg(pool))
      return z
    return {'op': 'path', 'steps': steps, 'fin': fin, 'prefix': near(), 'other': near()}
  for i in range(1500 if r.quick else 15000):
    cmds.append(path(rng.choice([FIELDS[:3], FIELDS, FIELDS, ODD]), rng.choice([0, 0, 1, 1, 2, 3, 5])))
  for t in ['', '/', '/a', 'a', '/a/', '/a//b', '/a[:]', '/a[:]/b', '/[:]', '/a[:][:]', '//', '/a/@size', 'x/y', '/a[:]/b[:]/', '[:]', '/ a']:
    cmds.append({'op': 'parse', 't': cp(t)})
  for i in range(300):
    cmds.append({'op': 'parse', 't': cp(rng.choice(['/', '/', '/', 'a', '']) + ''.join(rng.choice('ab/[:]@') for _ in range(rng.randint(0, 12))))})
  for f, k, i in itertools.product(FIELDS + [''], ['k', '', 'a"b', 'p.q', 'Ext::'], [0, 7, 10, 123456789]):
    cmds.append({'op': 'acc', 'f': cp(f), 'key': cp(k), 'i': i})
  for n in ['default', 'double_underscore', 'single_underscore', 'leaf_only', 'protopath_id', 'googlesql', '', 'Default', 'xdefault', 'default ', 'leaf', 'zetasql']:
    cmds.append({'op': 'policy', 'n': cp(n)})
  r.check('Trace_Naming', [exe], mbt.each(cmds))

  cmds = []
  H = ['a.h', '"a.h"', '<a.h>', '<vector>', 'vector', '', '"', '<', '<a', 'a>', '"a', 'arolla/x/y.h', 'B.h', '"b.h"', '<>', '""', 'a.h"', ' a.h', '<a">']
  cmds += [{'op': 'inc', 'a': cp(a), 'b': cp(b)} for a in H for b in H]
  for t in ['//a:b', '//a/b:c', '//arolla/codegen/io:x_loader', '//a/b', '//Abc/dE:f1', '//_a:_', '//a:b/c', '//x/y/z:very_long_Name9']:
    cmds.append({'op': 'guard', 't': cp(t)})
  for _ in range(100):
    cmds.append({'op': 'guard', 't': cp('//' + rng.choice('abcXYZ_') + ''.join(rng.choice('abXY_01/:') for _ in range(rng.randint(0, 14))))})
  IDS = ['a', 'b', 'arolla', 'testing_ns', 'X1', '_y', 'ns']
  for d in range(0, 4):
    for _ in range(1 if d == 0 else 25):
      ns = '::'.join(rng.choice(IDS) for _ in range(d))
      for lead in ['', '::'] if ns else ['']:
        for name in ['f', 'GetLoader', 'a:b', '::x', '_1', 'a::b']:
          cmds.append({'op': 'cppname', 'ns': cp(lead + ns), 'name': cp(name)})
  # operator names: all names of one and two printable characters, and longer.
  two = [''] + PRINT + [a + b for a in PRINT for b in PRINT]
  cmds.append({'op': 'opnames', 'ns': cp('n::m'), 'name': cp('L'), 'names': [cp(x) for x in two]})
  names = set()
  pool = ['_', 'a', '0', '1', '9', 'A', 'z', '/', ':', '"', '[', ']', '@', '.', ' ', '~', '!', '#', '-', '(', '_0', '_a', '__', '::', '[:]', 'QTYPE', 'Ext::', '\\', '$', '%']
  while len(names) < (3000 if r.quick else 20000):
    names.add(''.join(rng.choice(pool) for _ in range(rng.randint(1, 6))))
  names = sorted(names - {'QTYPE::__GetInputQType'})
  for chunk in range(0, len(names), 3000):
    for ns in ['', '::a::b']:
      cmds.append({'op': 'opnames', 'ns': cp(ns), 'name': cp('GetX'), 'names': [cp(x) for x in names[chunk:chunk + 3000]]})
  loaders = [{'ns': cp(ns), 'name': cp(n), 'acc': cp(a)} for ns in ['a', '::a', 'a::b', 'a_b', 'ab', '_', 'a__b', 'x'] for n in ['c', 'b', 'b_c', '_c'] for a in ['x', '/x', '__x', 'c']]
  for i in range(6):
    cmds.append({'op': 'loaders', 'loaders': rng.sample(loaders, 60)})
  NAMES = ['/x', '/x/y', '/x/@size', '/@size', '/a/b/@size', '/m["k"]', '/m["%s"]/z', '/a_b/c__d', '/x/@key', '/Ext::p.q/z', '/a/x@size', '/', '/x/']
  cmds += [{'op': 'modify', 't': cp(t)} for t in NAMES]
  def pyfield():
    k = rng.choice(['field', 'field', 'map', 'arr', 'ext', 'keys', 'values'])
    return {'k': k, 's': {'map': [cp(rng.choice(['m', 'f'])), cp(rng.choice(['k', 'a b', '', '@']))]}.get(k, [] if k in ('keys', 'values') else [cp(rng.choice(['a', 'foo_bar', 'B', 'p.q']))]), 'i': rng.choice([0, 3, 42])}
  for _ in range(600):
    k = rng.choice(['table', 'col', 'size', 'size'])
    cmds.append({'op': 'pytable', 'root': cp(rng.choice(['', '', 'r', 'root/x'])), 'steps': [pyfield() for _ in range(rng.randint(0, 5))],
                 'fin': {'k': k, 's': [] if k == 'table' or (k == 'size' and rng.random() < .3) else [cp(rng.choice(['c', 'long_name', 'D9']))]}})
  # root alone with a column or nothing after it.
  def el(last, first):
    k = rng.choice(['reg', 'reg', 'reg', 'struct', 'slice', 'slice', 'arr', 'map', 'ext', 'keys', 'values', 'deref', 'addr'] + (['orig'] if first else []) + (['size', 'size', 'osize'] if last else []))
    if rng.random() < .02:
      k = rng.choice(['size', 'wild'])
    f = {'ext': ['p.q', 'pkg.Msg.field', 'x']}.get(k, ['a', 'foo_bar', 'Abc', 'class', 'x9'])
    q = {'map': ['"', "'"], 'keys': ['', '/'], 'values': ['', '/']}.get(k, [''])
    return {'k': k, 'f': cp(rng.choice(f)), 'key': cp(rng.choice(['k', 'a.b', 'x y', '7', "it's", '%'])), 'i': rng.choice([0, 1, 15]), 'q': cp(rng.choice(q))}
  TXT = {'reg': '{f}', 'struct': '&::{f}', 'slice': '{f}[:]', 'arr': '{f}[{i}]', 'map': '{f}[{q}{key}{q}]', 'wild': '{f}[*]', 'ext': 'Ext::{f}',
         'keys': '{f}[:]{q}@key', 'values': '{f}[:]{q}@value', 'size': 'count({f}[:])', 'osize': 'count([:])', 'deref': '*', 'addr': '&', 'orig': '[:]'}
  t = lambda c: ''.join(map(chr, c))
  for _ in range(2000 if r.quick else 20000):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    els = [el(i == n - 1, i == 0) for i in range(n)]
    wild = rng.random() < .3
    if wild and rng.random() < .9:
      w = el(False, False)
      w.update(k='wild', f=cp('m'), q=[])
      els[rng.randrange(n)] = w
    lead = rng.choice(['', '/'])
    text = lead + '/'.join(TXT[x['k']].format(f=t(x['f']), key=t(x['key']), i=x['i'], q=t(x['q'])) for x in els)
    if '/@' in text and any(x['k'] == 'map' for x in els):
      continue
    cmds.append({'op': 'dname', 'p': cp(text), 'lead': cp(lead), 'els': els, 'wild': wild})
  r.check('Trace_Naming', drv, mbt.each(cmds))


mbt.run('C13', main)
