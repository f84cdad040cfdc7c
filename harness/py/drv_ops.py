"""C17: operator registration targets and sources."""
import json
import os
import re

import drvlib
from drvlib import cps, txt
import bzl  # pylint: disable=g-import-not-at-top

S = str


def N(t):
  """C++ text without comments and blanks."""
  return re.sub(r'/\*.*?\*/|\s', '', t)


REG = 'arolla/codegen/qexpr/register_operator.bzl'
FILES = {
    'lift_to_optional': REG, 'lift_accumulator_to_scalar': REG,
    'lift_to_array': 'arolla/qexpr/operators/array/array.bzl',
    'array_accumulator_lifters': 'arolla/qexpr/operators/array/array.bzl',
    'make_array_type': 'arolla/qexpr/operators/array/array.bzl',
    'lift_to_dense_array': 'arolla/qexpr/operators/dense_array/lifter.bzl',
    'dense_array_accumulator_lifters': 'arolla/qexpr/operators/dense_array/lifter.bzl',
    'make_dense_array_type': 'arolla/qexpr/operators/dense_array/lifter.bzl',
}


def world(pkg):
  w = bzl.World(pkg)
  u = w.load_file('arolla/codegen/utils.bzl')
  u['render_jinja2_template'] = w.rule('render')
  g = dict(w.load_file(REG))
  return w, g


def get(w, name):
  return w.load_file(FILES.get(name, REG))[name]


def ty(w, t):
  k = t['k']
  if k == 'b':
    return S(t['s'])
  return get(w, {'o': 'make_optional_type', 'n': 'dont_lift', 'd': 'make_dense_array_type', 'a': 'make_array_type'}[k])(ty(w, t['x']))


def overloads(w, e):
  f = e['f']
  if f == 'ov':
    kw = {}
    if e['group']:
      kw['build_target_groups'] = [S(e['group'])]
    if e['fids']:
      kw['arg_as_function_ids'] = e['fids']
    kw.update(op_class=S(e['cls']), hdrs=[S(h) for h in e['hdrs']], deps=[S(d) for d in e['deps']])
    lists = [[ty(w, t) for t in a] for a in e['args']]
    if e['one']:
      return [get(w, 'operator_overload')(args=a, **kw) for a in lists]
    return get(w, 'operator_overload_list')(arg_lists=lists, **kw)
  if f == 'acc':
    kw = {}
    if e['group']:
      kw['build_target_groups'] = [S(e['group'])]
    return [get(w, 'accumulator_overload')(
        acc_class=S(e['cls']), hdrs=[S(h) for h in e['hdrs']], deps=[S(d) for d in e['deps']],
        parent_args=[ty(w, t) for t in e['parent']], child_args=[ty(w, t) for t in e['child']],
        init_args=[ty(w, t) for t in e['init']], **kw)]
  if f == 'cat':
    res = []
    for x in e['x']:
      res = res + overloads(w, x)
    return res
  lifters = []
  for n in e['lifters']:
    v = get(w, n)
    lifters += v if isinstance(v, list) else [v]
  return get(w, {'lift': 'lift_by', 'with': 'with_lifted_by'}[f])(lifters, overloads(w, e['x']))


def ov_out(o):
  return {'cls': N(o.op_class), 'args': [N(a) for a in o.args], 'hdrs': [S(h) for h in o.hdrs],
          'deps': [S(d) for d in o.deps], 'groups': [S(x) for x in o.build_target_groups],
          'fids': list(o.arg_as_function_ids)}


def op_denote(c):
  w, _ = world(S(c['pkg']))
  return drvlib.guarded(lambda: {'out': [ov_out(o) for o in overloads(w, c['e'])]})


def _lst(x):
  res = []
  for y in x or []:
    if isinstance(y, dict):
      y = '//conditions:default=' + str(y.get('//conditions:default'))
    res.append(S(str(y)))
  return res


def rules_out(w):
  libs, rend, other = [], [], 0
  for kind, kw in w.rules:
    if kind == 'cc_library':
      libs.append({'name': S(kw['name']), 'srcs': _lst(kw.get('srcs')), 'deps': _lst(kw.get('deps')),
                   'always': bool(kw.get('alwayslink', 0)), 'testonly': bool(kw.get('testonly', 0)), 'tags': _lst(kw.get('tags')),
                   'copts': _lst(kw.get('copts')), 'vis': _lst(kw.get('visibility'))})
    elif kind == 'render':
      c = kw['context']
      c = c if isinstance(c, dict) else vars(c)
      plain = json.loads(bzl.to_json(c))
      rend.append({'name': S(kw['name']), 'out': S(kw['out']), 'tmpl': S(kw['template']),
                   'testonly': bool(kw.get('testonly', 0)), 'tags': _lst(kw.get('tags')), 'ctx': ctx_out(plain)})
    else:
      other += 1
  return {'libs': libs, 'rend': rend, 'other': other}


NONE = []


def ctx_out(c):
  """What the context of a registration source says, if it is understood."""
  try:
    r = {'target': S(c['build_target']), 'hdrs': [S(h) for h in c['hdrs']], 'kind': 'x', 'ovs': []}
    if 'op_family_name' in c:
      r.update(kind='family', op=S(c['op_family_name']), cls=S(c['op_family_class']), deps=[S(d) for d in c['deps']])
    elif 'is_individual_operator' in c:
      r.update(kind='reg', op=S(c['op_name']), indiv=bool(c['is_individual_operator']), deps=[S(d) for d in c['deps']])
      r['ovs'] = [{'cls': N(o['op_class']), 'args': [N(a) for a in o['args']]} for o in c['overloads']]
    else:
      r.update(kind='meta')
      r['ovs'] = [{'target': S(o['build_target']), 'op': S(o['op_name']), 'cls': N(o['op_class']), 'hdrs': [S(h) for h in o['hdrs']],
                   'deps': [S(h) for h in o['deps']], 'args': [N(a) for a in o['arg_types']], 'fids': o['arg_as_function_ids']} for o in c['overloads']]
    return r
  except KeyError:
    return {'kind': 'unknown'}


def extra(c):
  kw = {}
  if c.get('testonly'):
    kw['testonly'] = 1
  if c.get('tags'):
    kw['tags'] = [S(t) for t in c['tags']]
  if c.get('copts'):
    kw['copts'] = [S(t) for t in c['copts']]
  if c.get('vis'):
    kw['visibility'] = [S(t) for t in c['vis']]
  return kw


def declare(w, c):
  if c['kind'] == 'family':
    kw = extra(c)
    get(w, 'operator_family')(name=S(c['name']), op_family_name=S(c['opname']), op_family_class=S(c['cls']),
                              hdrs=[S(h) for h in c['hdrs']], deps=[S(d) for d in c['deps']], **kw)
    return []
  ovs = overloads(w, c['e'])
  get(w, 'operator_libraries')(name=S(c['name']), operator_name=S(c['opname']), overloads=ovs, **extra(c))
  return ovs


def op_rules(c):
  w, _ = world(S(c['pkg']))
  def f():
    declare(w, c)
    return rules_out(w)
  return drvlib.guarded(f)


def op_groups(c):
  """More than one group is refused."""
  w, _ = world('p')
  def f():
    o = get(w, 'operator_overload')(op_class='X', args=['int'], hdrs=[], deps=[], build_target_groups=[S(x) for x in c['gs']])
    get(w, 'operator_libraries')(name='n', operator_name='a.b', overloads=[o])
    return {}
  return drvlib.guarded(f)


def op_fn(c):
  w, _ = world('p')
  a = [ty(w, t) for t in c['types']]
  f = c['fn']
  g = lambda n: get(w, n)
  if f in ('unary_args', 'binary_args'):
    return {'out': [[S(t) for t in l] for l in g(f)(a)]}
  if f == 'n_ary_args':
    return {'out': [[S(t) for t in l] for l in g(f)(c['n'], a)]}
  if f == 'make_optional_types':
    return {'out': [S(t) for t in g(f)(a)]}
  if f == 'is_liftable':
    return {'out': [bool(g(f)(t)) for t in a]}
  if f == 'meta_type_list':
    return {'out': S(g(f)(a))}
  return {'out': [S(g(f)(t)) for t in a]}


def op_const(c):
  w, _ = world('p')
  v = get(w, c['name'])
  return {'out': [S(x) for x in v] if isinstance(v, list) and (not v or isinstance(v[0], str))
          else [[S(y) for y in x] for x in v] if isinstance(v, list) else S(v)}


_PKG = {}


def package(pkg):
  if pkg in _PKG:
    return _PKG[pkg]
  w = bzl.World(pkg)
  u = w.load_file('arolla/codegen/utils.bzl')
  u['render_jinja2_template'] = w.rule('render')
  r = w.load_file(REG)
  real = {n: r[n] for n in ('operator_libraries', 'operator_family')}
  seen = []

  def wrap(kind, name, **kw):
    start = len(w.rules)
    real[kind](name=name, **kw)
    d = {'kind': 'ops' if kind == 'operator_libraries' else 'family', 'name': name,
         'opname': kw['operator_name'] if kind == 'operator_libraries' else kw['op_family_name']}
    if kind == 'operator_libraries':
      d['ovs'] = [ov_out(o) for o in kw['overloads']]
    else:
      d.update(cls=kw['op_family_class'], hdrs=list(kw['hdrs']), deps=list(kw['deps']))
    d['testonly'] = bool(kw.get('testonly', 0))
    for k, n in (('tags', 'tags'), ('copts', 'copts'), ('vis', 'visibility')):
      d[k] = _lst(kw.get(n))
    sub = bzl.World(pkg)
    sub.rules = w.rules[start:]
    d.update(rules_out(sub))
    seen.append(d)

  for n in real:
    r[n] = (lambda n: lambda name, **kw: wrap(n, name, **kw))(n)
  w.load_file(pkg + '/BUILD')
  names = [kw['name'] for kind, kw in w.rules if kind in ('cc_library', 'render')]
  _PKG[pkg] = seen, [n for n in sorted(set(names)) if names.count(n) > 1]
  return _PKG[pkg]


def op_package(c):
  """All operator_libraries declarations of a BUILD file of the repository."""
  seen, dups = package(c['pkg'])
  return {'n': len(seen), 'dups': dups}


def op_declared(c):
  seen, _ = package(c['pkg'])
  return seen[c['i']]


def op_render(c):
  """Renders the sources of the declarations; writes them under c['dir']."""
  from arolla.codegen import render_jinja2_template as rt  # pylint: disable=g-import-not-at-top
  os.makedirs(c['dir'], exist_ok=True)
  old = os.getcwd()
  os.chdir(drvlib.REPO)
  out, indiv = [], []
  try:
    for d in c['decls']:
      w, _ = world(S(d['pkg']))
      ovs = declare(w, d)
      ro = rules_out(w)
      indiv.append([])
      for v in ovs:
        # the target whose source registers just this overload ('' if that cannot be told)
        want = [{'cls': N(v.op_class), 'args': [N(a) for a in v.args]}]
        hit = [l['name'] for l in ro['libs'] for s in ro['rend'] if s['out'] in l['srcs'] and s['ctx'].get('indiv') and s['ctx']['ovs'] == want]
        indiv[-1].append(hit[0] if len(hit) == 1 else '')
      files = {}
      for kind, kw in w.rules:
        if kind == 'render':
          tm = kw['template'].replace('@arolla', '').lstrip('/').replace(':', '/')
          ctx = json.loads(bzl.to_json(kw['context']))
          p = os.path.join(c['dir'], kw['out'])
          rt.render_jinja2_template(tm, ctx, p)
          files[kw['out']] = p
      libs = {}
      for kind, kw in w.rules:
        if kind == 'cc_library':
          libs[kw['name']] = {'srcs': [files[s] for s in kw.get('srcs', [])], 'deps': [x.split(':')[-1] for x in kw.get('deps', []) if x.startswith(':') or x.startswith('//%s:' % S(d['pkg']))]}
      out.append(libs)
  finally:
    os.chdir(old)
  return {'libs': out, 'indiv': indiv}


def op_init(c):
  """arolla_initializer_spec / the embedded operator package rule."""
  w = bzl.World('p')
  u = w.load_file('arolla/codegen/utils.bzl')
  u['render_jinja2_template'] = w.rule('render')
  g = w.load_file('arolla/codegen/operator_package/operator_package.bzl')
  kw = {k: ([txt(x) for x in c[k]] if k != 'name' else txt(c[k])) for k in ('name', 'deps', 'reverse_deps') if c[k] is not None and k in c['has']}
  def f():
    r = g['arolla_initializer_spec'](**kw)
    return {'out': {'hasname': 'name' in r, 'name': cps(r.get('name') or ''), 'deps': [cps(x) for x in r['deps']],
                    'reverse_deps': [cps(x) for x in r['reverse_deps']]}}
  return drvlib.guarded(f)


if __name__ == '__main__':
  drvlib.main({'denote': op_denote, 'rules': op_rules, 'groups': op_groups, 'fn': op_fn, 'const': op_const,
               'package': op_package, 'declared': op_declared, 'render': op_render, 'init': op_init})
