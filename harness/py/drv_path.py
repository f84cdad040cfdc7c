"""C12: one accessor per declared path; loaders and listeners rendered by the mains.

The C++ code goes to side files.
"""
import importlib
import json
import os
import sys
import traceback

import drvlib

drvlib.protos()
from arolla.codegen.io import array_generator, protopath  # pylint: disable=g-import-not-at-top


def decl(c):
  def make():
    ctor = protopath.Protopath.parse_wildcard if c['wild'] else protopath.Protopath.parse
    p = ctor(c['text'], input_type=c['input']) if c['input'] else ctor(c['text'])
    arr = array_generator.create_generator('DenseArray') if c['arr'] else None
    ct = c['ct'] or None
    if c['mode'] == 'parse':
      return {'name': drvlib.cps(p.default_name)}
    if c['mode'] == 'get':
      a = p.accessor(arr, cpp_type=ct) if not c.get('dfltarr') else p.accessor(cpp_type=ct)
    elif c['mode'] == 'mut':
      a = p.mutable_accessor(array_gen=arr, cpp_type=ct)
    else:
      a = p.scalar_accessor_with_default_value(cpp_type=ct, default_value_cpp=c['dflt_cpp'])
    if c['id'] >= 0:
      with open(os.path.join(os.environ['ACC_DIR'], '%s.txt' % c['id']), 'w') as f:
        f.write(a.lambda_str)
    return {'name': drvlib.cps(a.default_name), 'pname': drvlib.cps(p.default_name), 'ppath': drvlib.cps(a.protopath),
            'incs': sorted(i.include_str for i in a.required_includes)}

  return drvlib.guarded(make)


IO = 'arolla.codegen.io.'


def call(fn, *args):
  return {'__call_python_func__': True, 'fn': IO + 'accessor_generator.' + fn, 'args': list(args), 'kwargs': {}}


def declared(a):
  if a['gen'] == 'path':
    return call('path_accessor', a['path'], a['name'])
  return call({'proto': 'protopath_accessor', 'wild': 'wildcard_protopath_accessor'}[a['gen']], a['path'], a['name'], a['ct'])


def loader_spec(u):
  return {'input_cls': u['cls'], 'accessors': [{'generator_fn': declared(a)} for a in u['accs']],
          'sharding': {'shard_count': u['shards']}, 'array_type': 'DenseArray', 'hdrs': u['hdrs']}


def listener_spec(u):
  s = loader_spec(u)
  s['output_cls'] = s.pop('input_cls')
  if not u['shards']:
    del s['sharding'], s['array_type']
  return s


def argv(c):
  us = c['units']
  res = ['--build_target', c['target'], '--cc_out_file', c['file'] + '.cc', '--h_out_file', c['file'] + '.h', '--output_dir', os.environ['RENDER_DIR']]
  if c['main'] in ('input_loader_main', 'slot_listener_main'):
    u, = us
    lst = c['main'] == 'slot_listener_main'
    for a in u['accs']:
      res += ['--accessor_generator', json.dumps(declared(a))]
    for h in u['hdrs']:
      res += ['--hdrs', h]
    res += ['--array_type', 'DenseArray', '--sharding_info', json.dumps({'shard_count': u['shards']}), '--output_cls' if lst else '--input_cls', u['cls'],
            '--slot_listener_name' if lst else '--loader_name', u['fn']]
    if lst and u['shards']:
      res += ['--max_shard_count', str(u['shards'])]
  elif c['main'] == 'wildcard_input_loaders_main':
    for u in us:
      a, = u['accs']
      res += ['--accessor_generator', json.dumps(declared(a)), '--loader_name', u['fn']]
    for h in us[0]['hdrs']:
      res += ['--hdrs', h]
    res += ['--input_cls', us[0]['cls']]
  else:
    spec = listener_spec if c['main'] == 'slot_listener_set' else loader_spec
    flag = '--listeners_spec' if c['main'] == 'slot_listener_set' else '--loaders_spec'
    res += [flag, json.dumps({u['fn']: spec(u) for u in us}), '--max_shard_count', str(c['max_shards'])]
  return res


def render(c):
  """Runs one of the mains in a child (their flags clash)."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    msg = ''
    try:
      from absl import flags  # pylint: disable=g-import-not-at-top
      m = importlib.import_module(IO + {'slot_listener_set': 'slot_listener_main', 'input_loader_set': 'input_loader_set_main'}.get(c['main'], c['main']))
      rest = flags.FLAGS([c['main']] + argv(c))
      m.main(rest)
    except BaseException as e:  # pylint: disable=broad-except
      traceback.print_exc()
      msg = '%s: %s' % (type(e).__name__, e)
    os.write(w, msg.encode()[:4000])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
  os.close(w)
  msg = b''
  while True:
    b = os.read(r, 4096)
    if not b:
      break
    msg += b
  os.close(r)
  os.waitpid(pid, 0)
  return {'err': msg.decode(errors='replace')}


drvlib.main({'render': render, 'decl': decl})
