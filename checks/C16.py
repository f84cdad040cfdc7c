import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def cp(s):
  return [ord(c) for c in s]


SCALARS = ['int32', 'int64', 'float', 'double', 'bool', 'string', 'string', 'bytes', 'uint32', 'E']
NAMES = ['a', 'b', 'x', 'y_z', 'int', 'class', 'aA', 'f1', 'size', 'value', 'key', 'q']


def el_text(e):
  k = e['k']
  f = e.get('f', '')
  return {'reg': f, 'bad': f, 'ext': 'Ext::' + f, 'st': '&::' + f, 'deref': '*', 'addr': '&', 'idx': '%s[%s]' % (f, e.get('i')),
          'mapk': '%s["%s"]' % (f, ''.join(map(chr, e.get('name', [])))), 'wild': f + '[*]', 'root': '[:]', 'rep': f + '[:]',
          'keys': f + '[:]/@key', 'vals': f + '[:]/@value'}.get(k) if k != 'size' else 'count(%s[:])' % e['m'].get('f', '')


def text(es):
  return '/'.join(el_text(e) for e in es)


# ---------------------------------------------------------------- protos
def make_proto(rng, i):
  """One random file with messages, another with extensions."""
  pkg = 'vf%d' % i
  nm = rng.randint(1, 5)
  short = ['M%d' % m for m in range(nm)]
  parent = {0: None}
  for m in range(1, nm):
    parent[m] = rng.choice([None, None] + list(range(m)))
  def full(m):
    return (full(parent[m]) if parent[m] is not None else pkg) + '.' + short[m]
  msgs = {full(m): [] for m in range(nm)}
  body = {m: [] for m in range(nm)}
  for m in range(nm):
    num = 1
    for f in rng.sample(NAMES, rng.randint(1, 5)):
      kind = rng.random()
      rep = rng.random() < .3
      x = {'f': f, 'full': cp(full(m) + '.' + f), 'r': rep, 'ext': False, 't': ''}
      if kind < .35:
        t = rng.randrange(nm)
        x.update(k='msg', t=full(t))
        ty = '.' + full(t)
      elif kind < .45:
        x.update(k='map', r=True)
        rep = None
        ty = 'map<%s, %s>' % (rng.choice(['string', 'int32']), rng.choice(['int32', '.' + full(rng.randrange(nm))]))
      else:
        ty = rng.choice(SCALARS)
        x['k'] = ty
      body[m].append('%s%s %s = %d;' % ('' if rep is None else 'repeated ' if rep else 'optional ', ty, f, num))
      num += 1
      msgs[full(m)].append(x)
  exts = []
  def ext_block(mod, scope, n, num):
    res = ''
    for j in range(n):
      of = full(rng.randrange(nm))
      f = 'e%d%s' % (num, rng.choice(['', 'X', '_y']))
      kind = rng.random()
      rep = rng.random() < .2
      x = {'f': scope + '.' + f, 'full': cp(scope + '.' + f), 'r': rep, 'ext': True, 't': '', 'of': of, 'mod': mod}
      if kind < .3:
        t = full(rng.randrange(nm))
        x.update(k='msg', t=t)
        ty = '.' + t
      else:
        ty = rng.choice([s for s in SCALARS if s != 'E'])
        x['k'] = ty
      exts.append(x)
      res += 'extend .%s { %s %s %s = %d; }\n' % (of, 'repeated' if rep else 'optional', ty, f, num)
      num += 1
    return res, num
  num = 100
  out = {}
  main_ext, num = ext_block('main', pkg, rng.choice([0, 0, 1, 2]), num)
  for m in range(nm):
    if rng.random() < .2:
      t, num = ext_block('main', full(m), 1, num)
      body[m].append(t)
  def render(m):
    return 'message %s {\n%s\n%s\nextensions 100 to 200;\n}\n' % (short[m], '\n'.join(body[m]), ''.join(render(k) for k in range(nm) if parent[k] == m))
  head = 'syntax = "proto2";\npackage %s;\n' % pkg
  out[pkg + '.proto'] = head + 'enum E { E0 = 0; E1 = 1; }\n' + ''.join(render(m) for m in range(nm) if parent[m] is None) + main_ext
  for k in range(2):
    t, num = ext_block('x%d' % k, pkg + '.x%d' % k, rng.choice([0, 1, 2]), num)
    t2, num = ext_block('x%d' % k, pkg + '.x%d.H' % k, rng.choice([0, 1]), num)
    t3, num = ext_block('x%d' % k, pkg + '.x%d.H.I' % k, rng.choice([0, 1]), num)
    out[pkg + 'x%d.proto' % k] = 'syntax = "proto2";\npackage %s.x%d;\nimport "%s.proto";\n%smessage H { %s message I { %s } }\n' % (pkg, k, pkg, t, t2, t3)
  py = {full(m): full(m)[len(pkg) + 1:] for m in range(nm)}
  return {'pkg': pkg, 'files': out, 'msgs': msgs, 'exts': exts, 'py': py}


# ---------------------------------------------------------------- trees
def paths(rng, names):
  """A random path, mostly a sensible one."""
  es = []
  for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
    f = rng.choice(names)
    k = rng.choice(['reg'] * 8 + ['rep', 'rep', 'idx', 'mapk', 'st', 'ext', 'keys', 'vals', 'deref'])
    e = {'k': k, 'f': f}
    if k == 'idx':
      e['i'] = rng.choice([0, 1, 7, 12])
    elif k == 'mapk':
      e['name'] = cp(rng.choice(['k', 'a b', 'é', '0', 'x.y']))
    elif k == 'ext':
      e['f'] = rng.choice(['p.ext', 'q', 'a.b.c'])
    elif k == 'deref':
      del e['f']
    es.append(e)
  if rng.random() < .15:
    es.insert(0, {'k': 'root'})
  if rng.random() < .25:
    m = {'k': 'rep', 'f': rng.choice(names)} if rng.random() < .8 or len(es) > 1 else {'k': 'root'}
    es = es[:rng.choice([0, 1, 2, 3])] + [{'k': 'size', 'm': m}]
  elif rng.random() < .05:
    es.append({'k': 'addr'})
  return es


def spoil(rng, es):
  es = [dict(e) for e in es]
  r = rng.random()
  if r < .4:
    es.insert(rng.randint(0, len(es)), {'k': 'wild', 'f': rng.choice(NAMES)})
  elif r < .6:
    es.insert(rng.randint(1, len(es)), {'k': 'bad', 'f': rng.choice(['', 'a b', 'a-b', '1', 'a[', 'x[y]', '&::', 'Ext:', 'a.b', '[1:2]'])})
  elif r < .8:
    es.insert(0, {'k': 'size', 'm': {'k': 'rep', 'f': 'a'}})
  else:
    es = []
  return es


TYPES = ['', '', '', '::arolla::Text', '::arolla::Bytes']
LEAD = ['', '', '', '/']


class Trees:

  def __init__(self, rng, protos):
    self.rng = rng
    self.protos = protos
    self.n = 0

  def path(self):
    rng = self.rng
    return {'k': 'path', 'path': cp(rng.choice(['.x', '.v.size()', '', ' & 1', '.v.back().first', '["k\'q"]', '.a\n.b'])), 'name': cp(self.name())}

  def name(self):
    return self.rng.choice(['a', 'b', '/a', '/a/b', 'n x', 'p/a', 'p/b', 'pp/a', 'p', 'é', 'a"b', "it's", '/x', '/a/@size', 'm_a', '`id`', 'a b'])

  def pp(self):
    rng = self.rng
    es = paths(rng, NAMES[:4])
    if rng.random() < .06:
      es = spoil(rng, es)
    lead = rng.choice(LEAD) if es else ''
    ty = rng.choice(TYPES)
    return {'k': 'pp', 'es': es, 'lead': cp(lead), 'text': lead + text(es), 'name': rng.choice([[], cp(self.name())]), 'ty': cp(ty)}

  def wild(self):
    rng = self.rng
    es = paths(rng, NAMES[:4])
    for _ in range(rng.choice([1] * 12 + [0, 2])):
      es.insert(rng.randint(0, len(es) - (1 if es[-1]['k'] in ('size', 'addr') else 0)), {'k': 'wild', 'f': rng.choice(NAMES)})
    if rng.random() < .3:
      for _ in range(rng.choice([1, 2, 3])):
        es.insert(rng.randint(0, max(0, len(es) - 1)), {'k': 'rep', 'f': rng.choice(NAMES)})
    lead = rng.choice(LEAD)
    return {'k': 'wild', 'es': es, 'lead': cp(lead), 'text': lead + text(es), 'name': rng.choice([[], cp('w_%s'), cp('%s')]), 'ty': cp(rng.choice(TYPES))}

  def desc(self, pb=None, type_=None, broken=''):
    rng = self.rng
    pb = pb or rng.choice(self.protos)
    type_ = type_ or rng.choice(sorted(pb['msgs']))
    mods = [m for m in ('x0', 'x1') if rng.random() < .4]
    pre = rng.choice([[]] * 5 + [[{'k': 'root'}], [{'k': 'reg', 'f': 'sig'}], [{'k': 'st', 'f': 'm'}, {'k': 'deref'}], [{'k': 'rep', 'f': 'rows'}], [{'k': 'reg', 'f': 'u'}, {'k': 'reg', 'f': 'v'}]])
    lead = rng.choice(LEAD) if pre else ''
    allf = [x['full'] for fs in pb['msgs'].values() for x in fs] + [x['full'] for x in pb['exts']]
    skip = rng.sample(allf, min(len(allf), rng.choice([0, 0, 1, 2])))
    py = '%s_pb2.%s' % (pb['pkg'], pb['py'][type_])
    d = {'k': 'desc', 'type': type_, 'py': py, 'mods': ['main'] + mods, 'modules': ['%s%s_pb2' % (pb['pkg'], m) for m in mods],
         'pre': pre, 'pretext': cp(lead + text(pre)), 'skip': skip, 'skipfn': 'verif_acc.skip' if skip or rng.random() < .3 else '',
         'policy': rng.choice(['default'] * 3 + ['single_underscore', 'double_underscore', 'leaf_only']),
         'text': cp(rng.choice(['::arolla::Text', '::arolla::Bytes'])), 'cls': cp(rng.choice(['auto', 'auto', 'ns::In'])),
         'deps': [cp('//verif:pb_%s' % pb['pkg'])], 'broken': broken, 'pb': {'msgs': pb['msgs'], 'exts': pb['exts']}}
    if broken == 'module':
      d['py'] = 'no_such_pb2.M0'
    elif broken == 'message':
      d['py'] = py + 'X'
    elif broken == 'nopb2':
      d['py'] = py.replace('_pb2', '')
    elif broken == 'skip':
      d['skipfn'] = rng.choice(['verif_acc.nothing', 'no_such_module.skip'])
    elif broken == 'ext':
      d['modules'] = d['modules'] + ['no_such_pb2']
    elif broken == 'policy':
      d['policy'] = 'camel'
    if rng.random() < .3 and len(d['modules']) == 2:
      d['modules'] = d['modules'][::-1]
    return d

  def leaf(self, cfg):
    r = self.rng.random()
    return self.path() if r < .25 else self.pp() if r < .8 else self.wild() if r < .86 and not cfg['mut'] else self.desc() if r < .92 else self.pp()

  def known(self, t, cfg):
    """Names some of which belong to the accessors of t."""
    if t['k'] == 'merge':
      return sum([self.known(a, cfg) for a in t['args']], [])
    if t['k'] in ('byname', 'models'):
      return self.known(t['arg'], cfg)
    if t['k'] == 'desc':
      fs = [x['f'] for x in t['pb']['msgs'][t['type']]]
      pre = text(t['pre']).replace('[:]', '').replace('&::', '').replace('/*', '')
      base = ('/' + pre if pre else '') + '/'
      res = [base + f for f in fs] + [base + f + '/@size' for f in fs] + fs + ['%s__%s' % (pre, f) for f in fs]
      return [cp(x) for x in res]
    if t.get('name'):
      return [t['name']]
    return [cp('/' + t['text'].lstrip('/').replace('[:]', '').replace('count(', '').replace(')', '/@size').replace('&::', '').replace('/*', ''))]

  def infos(self, t, cfg, strip):
    rng = self.rng
    kn = self.known(t, cfg)
    res = []
    for _ in range(rng.choice([1, 1, 2, 3, 0])):
      self.n += 1
      def some():
        ns = rng.sample(kn, rng.randint(0, len(kn))) + [cp(self.name()) for _ in range(rng.choice([0, 1]))]
        if strip:
          ns = [cp(strip) + n if rng.random() < .7 else rng.choice([n, cp(strip[:-1]) + n, cp(strip + strip) + n, cp('x' + strip) + n]) for n in ns]
        return [n for n in ns if n]
      i, o = some(), some()
      def lit(n):
        return '"' + ''.join('\\%03o' % b if b < 33 or b > 126 or b in (34, 92, 39) else chr(b) for b in ''.join(map(chr, n)).encode()) + '"'
      parts = ['inputs { name: %s }' % lit(n) for n in i] + ['side_outputs { name: %s }' % lit(n) for n in o]
      rng.shuffle(parts)
      res.append({'i': i, 'o': o, 'label': cp('info%d.textproto' % self.n), 'text': cp('\n'.join(parts) + rng.choice(['', '\n', '# end\n']))})
    return res

  def tree(self, cfg, depth):
    rng = self.rng
    r = rng.random()
    if depth == 0 or r < .15:
      return self.leaf(cfg)
    if r < .5:
      return {'k': 'merge', 'args': [self.tree(cfg, depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]}
    sub = self.tree(cfg, depth - 1)
    if r < .75:
      kn = self.known(sub, cfg)
      mode = rng.choice(['set', 'set', 'call', 'prefix'])
      if mode == 'prefix':
        return {'k': 'byname', 'arg': sub, 'mode': mode, 'names': [rng.choice([cp('/'), cp('/a'), cp('p/'), cp('a')] + kn[:3])]}
      names = rng.sample(kn, rng.randint(0, len(kn))) + [cp(self.name()) for _ in range(rng.choice([0, 1, 2]))]
      return {'k': 'byname', 'arg': sub, 'mode': mode, 'names': names}
    strip = rng.choice(['', '', 'p/', 'm_', 'm', '/'])
    return {'k': 'models', 'arg': sub, 'strip': cp(strip), 'infos': self.infos(sub, cfg, strip)}


def classes(t):
  if t['k'] == 'merge':
    return [c for a in t['args'] for c in classes(a)]
  return classes(t['arg']) if t['k'] in ('byname', 'models') else [t['cls']] if t['k'] == 'desc' else []


def main(r):
  rng = r.rng
  r.mc('MC_Filter', 'MC_Filter_q' if r.quick else None, timeout=600, cover=False, need_actions=False)
  protos = [make_proto(rng, i) for i in range(30 if r.quick else 150)]
  pdir = r.path('protos')
  shutil.rmtree(pdir, ignore_errors=True)
  os.makedirs(pdir)
  for p in protos:
    for f, t in p['files'].items():
      with open(os.path.join(pdir, f), 'w') as o:
        o.write(t)
  T = Trees(rng, protos)
  cmds = []
  def cfg(mut=None):
    return {'io': cp(rng.choice(['auto', 'ns::In', '::test::Root'])), 'arr': rng.choice(['DenseArray'] * 4 + ['']), 'mut': rng.random() < .4 if mut is None else mut}
  def add(t, c, bzl):
    names = [''.join(map(chr, x)) for x in classes(t)]
    cmds.append({'op': 'gen', 'tree': t, 'cfg': c, 'bzl': bzl, 'ios': [cp(x) for x in sorted(set(names))]})
  for i in range(260 if r.quick else 2500):
    c = cfg()
    add(T.tree(c, rng.choice([1, 2, 2, 3])), c, i % 2 == 0)
  for i in range(250 if r.quick else 2000):
    add(T.pp(), cfg(), i % 5 == 0)
    if i % 2 == 0:
      add(T.wild(), cfg(mut=rng.random() < .1), i % 2 == 0)
  for p in protos:
    for ty in sorted(p['msgs']):
      for mut in (False, True):
        add(T.desc(p, ty), cfg(mut), rng.random() < .2)
  for b in ('module', 'message', 'nopb2', 'skip', 'ext', 'policy'):
    for _ in range(3):
      add(T.desc(broken=b), cfg(), False)
  for t in ['n~~p~~t~~l', '~~a/b[*]~~~~::x::F', 'n~~p~~l', 'a~~b~~c~~d~~e', '', '~~~~~~', 'a~b~~c~~~d~~e', 'x~~y~~z~~w~']:
    cmds.append({'op': 'wparse', 't': cp(t)})
  for p in protos[:20]:
    for ty, py in p['py'].items():
      cmds.append({'op': 'import', 'py': cp('%s_pb2.%s' % (p['pkg'], py)), 'want': cp(ty)})
      cmds.append({'op': 'import', 'py': cp('%s_pb2.%s' % (p['pkg'], rng.choice([py + 'Z', 'Z.' + py, py + '.Z']))), 'want': []})
  for s in ['a.b.C', 'no_pb2.C', 'x_pb3.M', 'vf0_pb2', 'vf0.M0']:
    cmds.append({'op': 'import', 'py': cp(s), 'want': []})
  os.environ['FILTER_PROTOS'] = pdir
  r.check('Trace_Filter', mbt.pydrv('drv_filter'), mbt.each(cmds))


mbt.run('C16', main)
