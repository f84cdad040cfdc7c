"""C13: names, includes, guards, namespaces in generated code."""
import drvlib
from drvlib import cps, txt
from arolla.codegen.io import cpp, table
from arolla.codegen.io import protopath


def do_inc(c):
  a, b = cpp.Include(txt(c['a'])), cpp.Include(txt(c['b']))
  return {'line': cps(a.include_str), 'str': cps(str(a)), 'eq': a == b,
          'ne': a != b, 'hash': (a != b) or hash(a) == hash(b), 'lt': a < b,
          'gt': b < a, 'n': len({a, b}), 'o': a == 1}


def do_guard(c):
  return {'out': cps(cpp.generate_header_guard(txt(c['t'])))}


def do_cppname(c):
  def show(n):
    return {'ns': cps(n.namespace), 'name': cps(n.name), 'full': cps(n.full_name),
            'open': cps(n.open_namespace_str), 'close': cps(n.close_namespace_str)}
  def f():
    n = cpp.CppName(txt(c['ns']), txt(c['name']))
    return {'v': show(n), 'again': show(cpp.CppName.from_full_name(n.full_name)),
            'bare': show(cpp.CppName.from_full_name(n.full_name.removeprefix('::')))}
  return drvlib.guarded(f, ValueError)


def do_opnames(c):
  n = cpp.CppName(txt(c['ns']), txt(c['name']))
  return {'out': [cps(cpp.construct_operator_name(n, txt(x))) for x in c['names']],
          'again': [cps(cpp.construct_operator_name(n, txt(x))) for x in c['names']],
          'q': cps(cpp.construct_input_qtype_operator_name(n))}


def do_loaders(c):
  ns = [cpp.CppName(txt(x['ns']), txt(x['name'])) for x in c['loaders']]
  return {'out': [cps(cpp.construct_operator_name(n, txt(x['acc'])))
                  for n, x in zip(ns, c['loaders'])],
          'q': [cps(cpp.construct_input_qtype_operator_name(n)) for n in ns]}


def do_modify(c):
  return {'out': {k: cps(f(txt(c['t']))) for k, f in protopath.default_name_modifiers.items()}}


def do_pytable(c):
  t = table.TablePath(txt(c['root'])) if c['root'] else table.TablePath()
  for s in c['steps']:
    if s['k'] == 'keys':
      t = t.MapKeys()
    elif s['k'] == 'values':
      t = t.MapValues()
    else:
      t = t.Child(_seg(s))
  k = c['fin']['k']
  r = t if k == 'table' else t.Column(_seg(c['fin'])) if k == 'col' else t.Size(_seg(c['fin']) if c['fin']['s'] else '')
  return {'out': cps(str(r)), 'repr': cps(repr(r)), 'name': cps(r.name), 'eq': r == type(r)(str(r)), 'eqx': r == type(r)(str(r) + 'x')}


def _seg(s):
  a = s['s']
  if s['k'] == 'map':
    return table.MapAccess(txt(a[0]), txt(a[1]))
  if s['k'] == 'arr':
    return table.ArrayAccess(txt(a[0]), s['i'])
  if s['k'] == 'ext':
    return table.ProtoExtensionAccess(txt(a[0]))
  return table.FieldAccess(txt(a[0]))


def do_dname(c):
  """Default name of a proto path."""
  def f():
    p = txt(c['p'])
    pp = protopath.Protopath.parse_wildcard(p) if c['wild'] else protopath.Protopath.parse(p)
    return {'out': cps(pp.default_name), 'size': pp.is_size, 'single': pp.is_single_value,
            'pp': cps(pp.protopath)}
  return drvlib.guarded(f, ValueError)


drvlib.main({'inc': do_inc, 'guard': do_guard, 'cppname': do_cppname,
             'opnames': do_opnames, 'loaders': do_loaders, 'modify': do_modify,
             'pytable': do_pytable, 'dname': do_dname})
