"""C10: lists of accessors."""
import drvlib
from drvlib import cps, txt
from arolla.codegen.io import accessors, cpp
from arolla.codegen.io import protopath


def _acc(a):
  if a['pp']:
    return protopath.ProtopathAccessor(
        '\n'.join(txt(l) for l in a['lam']), [], txt(a['d']) or None,
        protopath=txt(a['pp']), cpp_type=txt(a['ty']) or None,
        default_value_cpp=txt(a['df']) or None)
  return accessors.Accessor(
      '\n'.join(txt(l) for l in a['lam']), [cpp.Include(txt(i)) for i in a['inc']],
      txt(a['d']) or None)


def _pairs(c):
  return [(txt(a['name']), _acc(a)) for a in c['acc']]


def _show(named):
  res = []
  for n, a in named:
    if isinstance(a, protopath.ProtopathAccessor):
      res.append({'name': cps(n), 'lam': [], 'inc': [], 'pp': cps(a.protopath),
                  'ty': cps(a.cpp_type or ''), 'df': cps(a.default_value_cpp or '')})
    else:
      res.append({'name': cps(n), 'lam': cps(a.lambda_str),
                  'inc': sorted(cps(i.include_str) for i in a.required_includes),
                  'pp': [], 'ty': [], 'df': []})
  return res


def do_list(c):
  def f():
    ps = _pairs(c)
    l = accessors.AccessorsList(ps)
    res = {'out': _show(l.named_accessors), 'names': [cps(n) for n in l.names],
           'same': [a is b for a, (_, b) in zip(l.accessors, l.named_accessors)],
           'na': len(l.accessors), 'len': len(l),
           'incs': [cps(i.include_str) for i in l.required_includes]}
    res['shards'] = []
    if c['k'] > 0:
      res['shards'] = [_show(s.named_accessors) for s in l.shards(c['k'])]
    res['split'] = [_show(s) for s in accessors.split_accessors_into_shards(
        l.named_accessors, c['n'])]
    res['again'] = _show(accessors.AccessorsList(l.named_accessors).named_accessors)
    return res
  res = drvlib.guarded(f, ValueError)
  if res['err']:
    names = {tuple(a['name']) for a in c['acc']} | {
        tuple(a['d']) for a in c['acc'] if a['d']}
    res['named'] = [list(n) for n in sorted(names) if repr(txt(n)) in res['msg']]
  return res


def do_acc(c):
  """One accessor on its own, and equality of two."""
  a, b = _acc(c['a']), _acc(c['b'])
  def dn():
    return {'v': cps(a.default_name)}
  return {'lam': cps(a.lambda_str), 'dn': drvlib.guarded(dn, ValueError),
          'inc': sorted(cps(i.include_str) for i in a.required_includes),
          'eq': a == b, 'ne': a != b, 'eqo': a == 'x'}


def do_path(c):
  a = accessors.path_accessor(txt(c['path']), txt(c['d']) or None)
  return {'lam': cps(a.lambda_str), 'inc': len(a.required_includes),
          'dn': cps(a.default_name) if c['d'] else []}


drvlib.main({'list': do_list, 'acc': do_acc, 'path': do_path})
