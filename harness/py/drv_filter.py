"""C16: declarations of accessors, directly and through the build rules."""
import glob
import os
import subprocess
import sys
import tempfile

import drvlib
from drvlib import cps, txt

drvlib.protos()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fx'))
import bzl  # pylint: disable=g-import-not-at-top
import verif_acc
from arolla.codegen.io import accessor_generator as ag
from arolla.codegen.io import array_generator, flag_utils, protopath

WORK = tempfile.mkdtemp(prefix='filter.', dir=os.getcwd())
PB = os.environ['FILTER_PROTOS']
r = subprocess.run(['protoc', '-I' + PB, '--python_out=' + WORK] + sorted(glob.glob(PB + '/*.proto')), capture_output=True)
if r.returncode:
  print(r.stderr.decode())
  sys.exit(77)
sys.path.insert(0, WORK)
IO = 'arolla/codegen/io/io.bzl'


def files(d):
  res = []
  for i in d['infos']:
    name = os.path.join(WORK, txt(i['label']))
    with open(name, 'w', encoding='ascii') as f:
      f.write(txt(i['text']))
    res.append(name)
  return res


def skipfn(d):
  if d['skipfn'] != 'verif_acc.skip':
    return d['skipfn']
  name = 'skip_%d' % len(vars(verif_acc))
  full = set(txt(x) for x in d['skip'])
  setattr(verif_acc, name, lambda f: f.full_name in full)
  return 'verif_acc.' + name


def direct(d):
  k = d['k']
  if k == 'path':
    return ag.path_accessor(txt(d['path']), txt(d['name']))
  if k == 'pp':
    return ag.protopath_accessor(d['text'], txt(d['name']), txt(d['ty']))
  if k == 'wild':
    return ag.wildcard_protopath_accessor(d['text'], txt(d['name']), txt(d['ty']))
  if k == 'desc':
    kw = {}
    if d['pretext']:
      kw['protopath_prefix'] = txt(d['pretext'])
    if txt(d['cls']) != 'auto':
      kw['input_cls'] = txt(d['cls'])
    if d['skipfn']:
      kw['skip_field_fn'] = skipfn(d)
    if d['policy'] != 'default' or d['broken'] == 'policy':
      kw['naming_policy'] = d['policy']
    return ag.protopath_descriptor_accessors(d['py'], d['modules'], txt(d['text']), **kw)
  if k == 'merge':
    return ag.merge_accessor_list(*[direct(a) for a in d['args']])
  if k == 'byname':
    names = [txt(n) for n in d['names']]
    return ag.filtered_by_name_accessor(
        direct(d['arg']), verif_acc.starts_with(names[0]) if d['mode'] == 'prefix'
        else ag.allowed_from_set(iter(names) if d['mode'] == 'call' else names))
  if k == 'models':
    kw = {'strip_prefix': txt(d['strip'])} if d['strip'] else {}
    return ag.filtered_for_models_accessor(direct(d['arg']), files(d), **kw)


def built(g, d):
  k = d['k']
  types = {'': None, '::arolla::Text': g['io_type'].text, '::arolla::Bytes': g['io_type'].bytes}
  if k == 'path':
    return g['path_accessor'](txt(d['path']), txt(d['name']))
  if k in ('pp', 'wild'):
    kw = {}
    if d['name']:
      kw['name'] = txt(d['name'])
    if d['ty']:
      kw['type'] = types[txt(d['ty'])]
    return g['protopath_accessor' if k == 'pp' else 'wildcard_protopath_accessor'](d['text'], **kw)
  if k == 'desc':
    kw = {'proto_extension_modules': d['modules'] or None}
    if d['pretext']:
      kw['protopath_prefix'] = txt(d['pretext'])
    if txt(d['cls']) != 'auto':
      kw['input_cls'] = txt(d['cls'])
    if d['skipfn']:
      kw['skip_field_fn'] = skipfn(d)
    if d['policy'] != 'default':
      kw['naming_policy'] = getattr(g['proto_naming_policy'], d['policy'])
    if txt(d['text']) != '::arolla::Text':
      kw['text_type'] = types[txt(d['text'])]
    return g['proto_fields_accessor'](d['py'], [txt(x) for x in d['deps']], **kw)
  if k == 'merge':
    return g['merge_accessor_list']([built(g, a) for a in d['args']])
  # a filter over a merge is spelled with a list
  def args(a):
    return [built(g, x) for x in a['args']] if a['k'] == 'merge' else [built(g, a)]
  if k == 'byname':
    names = [txt(n) for n in d['names']]
    if d['mode'] == 'prefix':
      f = g['call_python_function']('verif_acc.starts_with', names, ['//verif:fx'])
    elif d['mode'] == 'call':
      f = g['allowed_from_set_filter'](g['call_python_function']('verif_acc.listed', names, ['//verif:fx']))
    else:
      f = g['allowed_from_set_filter'](names)
    return g['filtered_by_name_accessor'](args(d['arg']), f)
  if k == 'models':
    files(d)
    kw = {'strip_prefix': txt(d['strip'])} if d['strip'] else {}
    return g['filtered_for_models_accessor'](args(d['arg']), [txt(i['label']) for i in d['infos']], **kw)


def config(c):
  return ag.Config(io_cpp_type=txt(c['cfg']['io']), array_type=c['cfg']['arr'], is_mutable=c['cfg']['mut'])


def reference(c, a, t, wild):
  """The accessor of the path on its own, for input type t."""
  p = (protopath.Protopath.parse_wildcard if wild else protopath.Protopath.parse)(a.protopath, input_type=t)
  arr = array_generator.create_generator(c['cfg']['arr'])
  return p.mutable_accessor(array_gen=arr, cpp_type=a.cpp_type) if c['cfg']['mut'] else p.accessor(arr, cpp_type=a.cpp_type)


def show(c, accs):
  ios = {txt(c['cfg']['io']), 'auto'} | set(txt(x) for x in c['ios'])
  res = []
  for n, a in accs:
    s = {'n': cps(n or a.default_name), 'p': [], 'ty': [], 'lam': [], 'io': []}
    if isinstance(a, protopath.ProtopathAccessor):
      s['p'] = cps(a.protopath)
      s['ty'] = cps(a.cpp_type or '')
      for t in sorted(ios):
        ref = reference(c, a, t, '[*]' in a.protopath)
        if (ref.lambda_str, ref.default_name, ref.default_value_cpp) == (a.lambda_str, a.default_name, a.default_value_cpp) and (
            {i.include_str for i in ref.required_includes} == {i.include_str for i in a.required_includes}):
          s['io'].append(cps(t))
    else:
      s['lam'] = cps(a.lambda_str)
    res.append(s)
  return res


def gen(c):
  res = {}
  again = []

  def one():
    fn = direct(c['tree'])
    first = show(c, fn(config(c)))
    other = dict(c, cfg=dict(c['cfg'], mut=not c['cfg']['mut']))
    try:
      fn(config(other))
    except Exception:  # pylint: disable=broad-except
      pass
    again.append(show(c, fn(config(c))) == first)
    return {'accs': first}

  res['direct'] = drvlib.guarded(one)
  res['again'] = all(again)
  if c['bzl']:
    def two():
      w = bzl.World()
      g = w.load_file(IO)
      a = built(g, c['tree'])
      arg = bzl.make_expand(g['encode_call_python_function'](a.generator_fn), lambda l: os.path.join(WORK, l))
      p = subprocess.run(['/bin/bash', '--norc', '-c', 'printf %%s "%s"' % arg], capture_output=True, cwd=WORK, env={'LC_ALL': 'C.UTF-8', 'PATH': '/nonexistent'})
      fn = flag_utils.AccessorGeneratorParser().parse(p.stdout.decode())
      return {'accs': show(c, fn(config(c))), 'deps': [cps(x) for x in a.generator_fn.deps], 'data': [cps(x) for x in a.generator_fn.data]}
    res['built'] = drvlib.guarded(two)
  return res


def wparse(c):
  return drvlib.guarded(lambda: {'v': [cps(x) for x in flag_utils.WildcardProtopathAccessorParser().parse(txt(c['t']))]})


def imp(c):
  return drvlib.guarded(lambda: {'full': cps(protopath.import_proto_class(txt(c['py'])).DESCRIPTOR.full_name)})


drvlib.main({'gen': gen, 'wparse': wparse, 'import': imp})
