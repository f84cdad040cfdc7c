import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import drivers, mbt, regsess, vb

NUM = ['int32_t', 'int64_t', 'float', 'double']
BASE = NUM + ['bool', 'uint64_t', '::arolla::Bytes', '::arolla::Text', '::arolla::Unit']
DRV = drivers.OPS
PACKAGES = ['arolla/codegen/qexpr/testing', 'arolla/jagged_shape/array/qexpr', 'arolla/jagged_shape/dense_array/qexpr', 'arolla/jagged_shape/qexpr', 'arolla/objects/operators', 'arolla/pwlcurve', 'arolla/qexpr/operators/aggregation', 'arolla/qexpr/operators/array', 'arolla/qexpr/operators/bitwise', 'arolla/qexpr/operators/bool', 'arolla/qexpr/operators/bootstrap', 'arolla/qexpr/operators/core', 'arolla/qexpr/operators/dense_array', 'arolla/qexpr/operators/dict', 'arolla/qexpr/operators/experimental/dense_array', 'arolla/qexpr/operators/math', 'arolla/qexpr/operators/math_extra', 'arolla/qexpr/operators/random', 'arolla/qexpr/operators/seq', 'arolla/qexpr/operators/strings', 'arolla/qexpr/operators/testing']


def b(s):
  return {'k': 'b', 's': s}


def o(x):
  return {'k': 'o', 'x': x}


def n(x):
  return {'k': 'n', 'x': x}


def ov(cls, args, hdrs=('ops.h',), deps=(':ops',), group='', fids=(), one=False):
  return {'f': 'ov', 'cls': cls, 'args': args, 'hdrs': list(hdrs), 'deps': list(deps), 'group': group, 'fids': list(fids), 'one': one}


def lifted(e, *names):
  return {'f': 'with', 'lifters': list(names), 'x': e}


def decl(name, opname, e, **kw):
  return dict(kind='ops', pkg='verif_ops', name=name, opname=opname, e=e, testonly=kw.get('testonly', False), tags=kw.get('tags', []), copts=kw.get('copts', []), vis=kw.get('vis', []))


def family(name, opname, cls, **kw):
  return dict(kind='family', pkg='verif_ops', name=name, opname=opname, cls=cls, hdrs=kw.get('hdrs', ['ops.h']), deps=kw.get('deps', [':ops']), testonly=kw.get('testonly', False), tags=kw.get('tags', []), copts=kw.get('copts', []), vis=kw.get('vis', []))


def base_type(t):
  return t['s'] if t['k'] == 'b' else base_type(t['x'])


def ts_of(args):
  def one(t):
    while t['k'] == 'n':
      t = t['x']
    return {'t': base_type(t), 'o': t['k'] == 'o'}
  return [one(t) for t in args]


def main(r):
  rng = r.rng
  drv = mbt.pydrv('drv_ops')
  r.mc('MC_Ops', cover=False)

  # ---- declarations lowered to targets
  cmds = []
  shapes = []

  def typ(d=0):
    k = rng.random()
    if k < .6 or d > 1:
      return b(rng.choice(BASE + ['::arolla::OptionalValue<float>', '::arolla::OptionalUnit', '::arolla::KeyToRowDict<int32_t>', 'std::vector<float>', '::arolla::DenseArray<float>']))
    x = typ(d + 1)
    return o(x) if k < .8 or x['k'] == 'n' else n(x)

  def argkey(args):
    def show(t):
      return t['s'] if t['k'] == 'b' else show(t['x']) if t['k'] == 'n' else 'o' + show(t['x']).replace('::arolla::OptionalValue', '').replace('::arolla::Optional', '').strip('o')
    return ','.join(show(t).replace('::arolla::OptionalValue<', 'o').replace('::arolla::OptionalUnit', 'o::arolla::Unit').replace('>', '') for t in args)

  def lists(k, wide=False, notag=False):
    res, seen = [], set()
    while len(res) < k:
      m = rng.choice([1, 1, 2, 2, 3, 4] + ([12, 40] if wide else [0]))
      a = [typ() for _ in range(m)]
      if m and all(t['k'] == 'n' for t in a):
        a[0] = b('float')
      key = argkey(a).replace('o', '')
      if key in seen or (not m and seen):
        continue
      seen.add(key)
      res.append(a)
    return res

  HD = ['a.h', 'b.h', 'x/y.h', 'a.h', 'pkg/a.h']
  DP = [':a', ':b', '//x:y', ':a', '//x']

  def expr(depth):
    g = rng.choice(['', '', 'plain', 'grp', 'on_optionals'])
    e = ov('::ns::Op%d' % rng.randint(0, 9), lists(rng.randint(1, 5), wide=rng.random() < .2),
           rng.choices(HD, k=rng.randint(0, 3)), rng.choices(DP, k=rng.randint(0, 3)), g, rng.sample([0, 1, 2], rng.randint(0, 2)), rng.random() < .5)
    return e

  def opt_ok(e):
    """Lifting gives new argument types for every overload."""
    return all(any(t['k'] == 'b' and 'Optional' not in t['s'] for t in a) for a in e['args'])

  for i in range(150 if r.quick else 1500):
    e = expr(0)
    k = rng.random()
    if k < .5 and opt_ok(e):
      ls = rng.choice([['lift_to_optional'], ['lift_to_optional'], ['lift_to_dense_array'], ['lift_to_optional', 'lift_to_dense_array'], ['lift_to_array'], ['lift_to_array', 'lift_to_optional', 'lift_to_dense_array']])
      e = {'f': rng.choice(['with', 'lift']), 'lifters': ls, 'x': e}
    elif k < .7:
      ls = rng.choice([['lift_accumulator_to_scalar'], ['dense_array_accumulator_lifters'], ['array_accumulator_lifters'], ['lift_accumulator_to_scalar', 'dense_array_accumulator_lifters', 'array_accumulator_lifters']])
      T = lambda m: [b(rng.choice(BASE)) for _ in range(rng.randint(0, m))]
      e = {'f': 'lift', 'lifters': ls, 'x': {'f': 'acc', 'cls': '::ns::Acc<int>', 'parent': T(2), 'child': T(2) + [b('float')], 'init': T(1),
                                              'hdrs': rng.choices(HD, k=2), 'deps': rng.choices(DP, k=2), 'group': rng.choice(['', 'g'])}}
    if rng.random() < .3:
      # a second family of overloads of other arities
      more = ov('::ns::More', [[b('int32_t')] * 6, [b('int64_t')] * 6, [b('double')] * 45], ['m.h'], [':m'], rng.choice(['', 'other']), [], False)
      e = {'f': 'cat', 'x': [e, more] if rng.random() < .5 else [more, e]}
    shapes.append(e)
  pk = ['pkg', 'a/b', 'pkg/sub']
  for i, e in enumerate(shapes):
    cmds.append({'op': 'denote', 'pkg': rng.choice(pk), 'e': e})
    d = decl('operator_x%d' % i, 'ns.op%d' % i, e, testonly=rng.random() < .3, tags=rng.choice([[], ['t1'], ['t1', 't2']]), copts=rng.choice([[], ['-g'], ['-DA', '-g']]), vis=rng.choice([[], ['//v:v']]))
    d['pkg'] = rng.choice(pk)
    cmds.append(dict(d, op='rules'))
  for i in range(30):
    d = family('fam%d' % i, 'ns.fam%d' % i, '::ns::Fam%d' % i, hdrs=rng.choices(HD, k=rng.randint(1, 3)), deps=rng.choices(DP, k=rng.randint(1, 3)), testonly=rng.random() < .3, vis=rng.choice([[], ['//v:v']]))
    cmds.append(dict(d, op='rules'))
  for g in ([], ['a'], ['a', 'b'], ['plain', 'x', 'y']):
    cmds.append({'op': 'groups', 'gs': g})
  for f in ('unary_args', 'binary_args', 'n_ary_args', 'make_optional_types', 'make_optional_type', 'is_liftable', 'dont_lift', 'decay_dont_lift', 'make_dense_array_type', 'make_array_type', 'identity', 'meta_type_list'):
    for t in [[], [b('float')], [b(x) for x in BASE], [n(b('float')), b('float')], [o(b('int32_t')), n(o(b('int32_t'))), o(n(b('int32_t')))], [b('::arolla::OptionalUnit'), b('::arolla::Unit'), n(b('::arolla::Unit')), o(b('::arolla::OptionalValue<bool>'))]] + [[typ() for _ in range(rng.randint(1, 5))] for _ in range(20)]:
      cmds.append({'op': 'fn', 'fn': f, 'types': t, 'n': rng.choice([0, 1, 3, 7])})
  for c in ('integral_types', 'float_types', 'numeric_types', 'string_types', 'ordered_types', 'scalar_types', 'dict_key_types', 'dict_types'):
    cmds.append({'op': 'const', 'name': c})
  A = ['a', 'Z', '9', '.', '_', '/', '@', ':', '//a/b:c', 'B', 'ab', '@x', '-', ' ', 'é', '', 'a b', 'a,b', '"', '[', '`', '{', '^', ';', '?']
  for i in range(200):
    pool = A[:12] if rng.random() < .6 else A
    w = lambda: [ord(c) for c in rng.choice(pool)]
    cmds.append({'op': 'init', 'has': rng.choice([['name', 'deps', 'reverse_deps'], ['deps'], ['name'], [], ['reverse_deps', 'name']]), 'name': w(), 'deps': [w() for _ in range(rng.randint(0, 4))], 'reverse_deps': [w() for _ in range(rng.randint(0, 3))]})
  r.check('Trace_Ops', drv, mbt.each(cmds))
  # ---- the repository's own declarations
  pre = r.execute(drv, mbt.each([{'op': 'package', 'pkg': p} for p in PACKAGES]))
  sess = [[{'op': 'package', 'pkg': s[0]['pkg']}] for s in pre]
  for s in pre:
    for i in range(s[0].get('n', 0)):
      sess.append([{'op': 'declared', 'pkg': s[0]['pkg'], 'i': i}])
  r.check('Trace_Ops', drv, sess)

  # ---- registrations in the compiled code
  C = lambda k, i: '::verif::%sOp<%d>' % (k, i)
  opdecls = [
      (1, 'Sum', decl('operator_sum', 'verif.sum', lifted(ov(C('Sum', 1), [[b(t), b(t)] for t in NUM]), 'lift_to_optional'))),
      (2, 'Status', decl('operator_status', 'verif.nested.status_op', lifted(ov(C('Status', 2), [[b('int32_t'), n(b('int64_t')), b('::arolla::Text')], [b('uint64_t'), b('bool')], [n(b('::arolla::Bytes')), b('float')]]), 'lift_to_optional'))),
      (3, 'Ctx', decl('operator_ctx', 'verif.Ctx', {'f': 'cat', 'x': [ov(C('Ctx', 3), [[]]), ov(C('Ctx', 3), [[b('::arolla::Unit'), b('::arolla::Bytes')], [b('int32_t')] * 14], ['ops.h', 'verif_ops/ops.h', 'arolla/util/bytes.h'], [':ops', '//x', ':ops'], 'special', [0], True)]})),
      (4, 'Pair', decl('operator_pair', 'pair', ov(C('Pair', 4), [[o(b('int32_t')), b('float')], [b('float'), o(b('int32_t'))]], fids=[1, 0]))),
      (5, 'Eager', decl('operator_eager', 'verif.eager', lifted(ov(C('Eager', 5), [[o(b('float')), b('int32_t')], [b('bool'), b('bool'), o(b('::arolla::Unit'))]]), 'lift_to_optional'))),
  ]
  for i in (range(6, 7) if r.quick else range(6, 18)):
    k = rng.choice(['Sum', 'Status', 'Eager'])
    ls, seen = [], set()
    while len(ls) < 3:
      a = [rng.choice([b, b, b, lambda s: n(b(s)), lambda s: o(b(s))])(rng.choice(BASE)) for _ in range(rng.randint(1, 5))]
      key = tuple(base_type(t) for t in a)
      if key in seen or not any(t['k'] == 'b' for t in a):
        continue
      seen.add(key)
      ls.append(a)
    opdecls.append((i, k, decl('operator_r%d' % i, 'verif.r%d' % i, lifted(ov(C(k, i), ls, group=rng.choice(['', 'gg'])), 'lift_to_optional'))))
  fams = [(k + 1, family('family_pick%d' % k, 'verif.pick%d' % k, '::verif::PickFamily<%d>' % k)) for k in (0, 1)]
  gdir = os.path.join(vb.GEN, 'verif/ops')
  all_decls = [d for _, _, d in opdecls] + [d for _, d in fams]
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
  rend = r.execute(drv, [[{'op': 'render', 'decls': all_decls, 'dir': gdir}]])[0][0]
  bins = {}
  if 'crash' not in rend:
    sets = {'main': [], 'indiv': [], 'meta': []}
    for libs, d in zip(rend['libs'], all_decls):
      def closure(name, seen):
        if name in libs and name not in seen:
          seen.add(name)
          for x in libs[name]['deps']:
            closure(x, seen)
        return seen
      srcs = lambda names: [s for x in sorted(names) for s in libs[x]['srcs']]
      m = closure(d['name'], set())
      meta = {d['name'] + '_metadata'} & set(libs)
      sets['main'] += srcs(m)
      sets['meta'] += srcs(meta)
      sets['indiv'] += srcs(set(libs) - m - meta) if d['kind'] == 'ops' else srcs(m)
    rel = lambda l: ['gen:' + os.path.relpath(s, vb.GEN) for s in dict.fromkeys(l)]
    r.build('drv_ops0', DRV)
    try:
      bins['main'] = r.build('drv_ops_main', DRV + rel(sets['main'] + sets['meta']))
      bins['indiv'] = r.build('drv_ops_indiv', DRV + rel(sets['indiv'] + sets['meta']))
      bins['both'] = r.build('drv_ops_both', DRV + rel(sets['main'] + sets['indiv'] + sets['meta']))
      built = ''
    except mbt.CheckError as e:
      built = str(e)
    r.validate('Trace_Ops', [[{'op': 'compile', 'ok': not built, 'what': built[:1500]}]])
  else:
    r.validate('Trace_Ops', [[rend]])

  cmds = []

  def value(t, v):
    base = t['t']
    if base == 'bool':
      return v % 2
    if base == '::arolla::Unit':
      return 1
    return v

  for (i, k, d), libs in zip(opdecls, rend.get('libs', [])):
    ovs = r.execute(drv, [[{'op': 'denote', 'pkg': d['pkg'], 'e': d['e']}]])[0][0]
    e = d['e']
    base = [(x['args'], False) for x in ([e] if e['f'] == 'ov' else e['x'] if e['f'] == 'cat' else [e['x']])]
    flat = [a for x, _ in base for a in x]
    all_args = [(a, False) for a in flat]
    if e['f'] == 'with':
      all_args += [([o(t) if t['k'] != 'n' else t for t in a], True) for a in flat]
    indiv = rend['indiv'][len(opdecls) and [x[2]['name'] for x in opdecls].index(d['name'])]
    for j, (a, lif) in enumerate(all_args):
      ts = ts_of(a)
      vals = []
      for _ in range(12):
        row = []
        for t in ts:
          if t['o'] and rng.random() < .35:
            row.append([])
          else:
            row.append([value(t, rng.choice([0, 1, 2, 5, 13, 40, 99]))])
        vals.append(row)
      out = {'t': 'tuple', 'o': False} if k == 'Pair' else {'t': 'int64_t', 'o': lif}
      c = {'pkg': d['pkg'], 'kind': 'ops', 'e': e, 'i': j + 1, 'id': i, 'opk': k, 'opname': d['opname'], 'ts': ts, 'out': out, 'vs': vals, 'extra': False}
      cmds.append(dict(c, op='call'))
      cmds.append(dict(c, op='meta', vs=[], lib=indiv[j] if j < len(indiv) else ''))
      x = dict(c, ts=ts + [{'t': '::arolla::Bytes', 'o': False}] * 9, vs=[], extra=True)
      cmds += [dict(x, op='call'), dict(x, op='meta', lib='')]
  for pick, d in fams:
    for ts in ([], [{'t': 'int32_t', 'o': False}], [{'t': 'float', 'o': False}, {'t': 'double', 'o': False}], [{'t': 'int64_t', 'o': True}, {'t': '::arolla::Text', 'o': False}]):
      vs = [[[rng.randint(0, 50)] for _ in ts] for _ in range(4)]
      out = ts[pick - 1] if len(ts) >= pick else {'t': 'float', 'o': False}
      c = dict(d, op='call', ts=ts, vs=vs, out=out, pick=pick)
      cmds.append(c)
      cmds.append(dict(c, op='meta', vs=[]))
  cmds.append({'op': 'list', 'want': sorted(d['opname'] for d in all_decls)})
  for which in sorted(bins):
    r.check('Trace_Ops', [bins[which]], mbt.each([dict(c, bin=which) for c in cmds]))

  # the registry that receives those registrations
  r.check('Trace_Registry', [r.build('drv_registry')], regsess.sessions(r, 200 if r.quick else 4000, 2 if r.quick else 3), stateful=True)


mbt.run('C17', main)
