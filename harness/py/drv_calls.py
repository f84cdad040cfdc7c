"""C14: build-time calls."""
import copy
import json
import os
import subprocess
import sys
import tempfile

import drvlib
from drvlib import cps, txt

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fx'))
import bzl  # pylint: disable=g-import-not-at-top
import verif_fx
from arolla.codegen import utils

WORK = tempfile.mkdtemp(prefix='calls.', dir=os.getcwd())
U = 'arolla/codegen/utils.bzl'
MAIN = os.path.join(drvlib.REPO, 'arolla/codegen/eval_python_function_call.py')


def fresh():
  w = bzl.World()
  return w, w.load_file(U)


def build(g, t):
  """Tree -> Starlark value."""
  k = t['t']
  if k == 'n':
    return None
  if k == 'b':
    return t['b']
  if k == 'i':
    return int(txt(t['i']))
  if k == 'f':
    return float(txt(t['i']))
  if k == 's':
    return txt(t['s'])
  if k == 'p':
    return '$(execpath %s)' % txt(t['s'])
  if k == 'l':
    return [build(g, x) for x in t['x']]
  if k == 'd':
    return {txt(n): build(g, x) for n, x in zip(t['k'], t['x'])}
  if k == 'st':
    return g['struct'](**{txt(n): build(g, x) for n, x in zip(t['k'], t['x'])})
  fn = t['fn']
  if fn == 'read':
    name = txt(t['data'][0])
    with open(os.path.join(WORK, name), 'wb') as f:
      f.write(bytes(t['s']))
    return g['read_file_function'](name)
  args = [build(g, x) for x in t['x']]
  if fn == 'merge':
    return g['merge_dicts'](*args)
  kw = {txt(n): build(g, x) for n, x in zip(t['k'], t['kx'])}
  opt = {}
  if kw:
    opt['kwargs'] = kw
  if t['data']:
    opt['data'] = [txt(d) for d in t['data']]
  return g['call_python_function']('verif_fx.' + fn, args, [txt(d) for d in t['deps']], **opt)


def path(label):
  return os.path.join(WORK, label)


def do_call(c):
  """Declaration, command line, shell, evaluation."""
  w, g = fresh()
  f = build(g, c['tree'])
  res = {'deps': [cps(d) for d in f.deps], 'data': [cps(d) for d in f.data]}
  arg = bzl.make_expand(g['encode_call_python_function'](f), path)
  p = subprocess.run(['/bin/bash', '--norc', '-c', 'printf %%s "%s"' % arg], capture_output=True, cwd=WORK, env={'LC_ALL': 'C.UTF-8', 'PATH': '/nonexistent'})
  verif_fx.COUNT[0] = 0
  res['val'] = verif_fx.enc(utils.call_function_from_json(p.stdout.decode()))
  res['n'] = verif_fx.COUNT[0]
  res['isf'] = [g['is_python_function_call'](f), g['is_python_function_call'](g['struct'](fn='a')), g['is_python_function_call']('x')]
  return res


def do_ctx(c):
  """Evaluation of calls inside a context; the context itself is kept."""
  w, g = fresh()
  ctx = json.loads(bzl.make_expand(bzl.to_json(build(g, c['tree'])), path))
  before = copy.deepcopy(ctx)
  verif_fx.COUNT[0] = 0
  val = utils.process_call_function_requests(ctx)
  return {'val': verif_fx.enc(val), 'n': verif_fx.COUNT[0], 'kept': ctx == before,
          'isf': utils.is_function_call(ctx)}


def rules(w):
  res = []
  for kind, kw in w.rules:
    r = {'kind': kind, 'name': cps(kw['name']), 'testonly': bool(kw.get('testonly', 0)),
         'public': '//visibility:public' in kw.get('visibility', []) or [], 'tags': [cps(t) for t in kw.get('tags', [])]}
    r['public'] = bool(r['public'])
    for a in ('outs', 'srcs', 'tools', 'deps', 'data'):
      r[a] = [cps(x) for x in kw.get(a, [])]
    r['stamp'] = kw.get('stamp', -1)
    r['copies'] = kw.get('cmd') == 'cp $(SRCS) $@'
    res.append(r)
  return res


def run_tool(w, c, real):
  """Runs the command of the last genrule; the tool records what it got."""
  kw = w.rules[-1][1]
  tools = {}
  rec = os.path.join(WORK, 'tool.sh')
  with open(rec, 'w') as f:
    f.write('#!/bin/bash\nprintf "%%s\\0" "$@" > %s/argv\n/usr/bin/env -0 > %s/env\n' % (WORK, WORK))
  os.chmod(rec, 0o755)
  gen = kw['tools'][0]
  def p(label):
    if label == gen or label == ':' + gen:
      tools['gen'] = label
      return '%s %s' % (sys.executable, MAIN) if real else rec
    return path(label)
  cmd = bzl.make_expand(kw['cmd'], p, kw['outs'], kw.get('srcs', []))
  fx = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fx')
  r = subprocess.run(['/bin/bash', '--norc', '-c', cmd], capture_output=True, cwd=WORK, timeout=100,
                     env={'PATH': '/nonexistent', 'PYTHONPATH': fx + ':' + drvlib.REPO, 'PYTHONDONTWRITEBYTECODE': '1'})
  return r, 'gen' in tools


def do_rule(c):
  w, g = fresh()
  f = build(g, c['tree'])
  kw = {}
  if c['testonly']:
    kw['testonly'] = 1
  if c['public']:
    kw['visibility'] = ['//visibility:public']
  if c['tags']:
    kw['tags'] = [txt(t) for t in c['tags']]
  if c['stamp'] >= 0:
    kw['stamp'] = c['stamp']
  env = {txt(n): txt(v) for n, v in c['env']}
  g['python_function_call_genrule'](
      name='rule_x', function=f, outs=[txt(o) for o in c['outs']],
      **({'env': env} if env else {}), **kw)
  res = {'rules': rules(w), 'fdeps': [cps(d) for d in f.deps], 'fdata': [cps(d) for d in f.data],
         'std': [cps(d) for d in g['EVAL_PYTHON_FUNCTION_CALL_DEPS']]}
  for n in ('argv', 'env'):
    if os.path.exists(path(n)):
      os.unlink(path(n))
  r, used = run_tool(w, c, False)
  with open(path('argv'), 'rb') as h:
    argv = h.read().decode().split('\0')[:-1]
  with open(path('env'), 'rb') as h:
    got = dict(x.split('=', 1) for x in h.read().decode().split('\0') if x)
  res['used'] = used
  res['argc'] = len(argv)
  res['env2'] = [[cps(n), cps(got.get(n, '\1unset'))] for n in list(env) + ['LC_ALL']]
  flag, spec = argv[0].split('=', 1)
  res['flag'] = flag
  verif_fx.COUNT[0] = 0
  res['val'] = verif_fx.enc(utils.call_function_from_json(spec))
  res['n'] = verif_fx.COUNT[0]
  return res


def do_real(c):
  """The whole way: rule, shell, evaluation tool, output file."""
  w, g = fresh()
  o = 'res.json'
  f = g['call_python_function']('verif_fx.out', ['$@' if c['at'] else '$(execpath %s)' % o, build(g, c['tree'])], ['//x'])
  g['python_function_call_genrule'](name='rule_x', function=f, outs=[o])
  if os.path.exists(path(o)):
    os.unlink(path(o))
  r, _ = run_tool(w, c, True)
  if r.returncode:
    return {'crash': r.stderr.decode()[-800:]}
  with open(path(o)) as h:
    return {'val': json.load(h)}


def do_tmpl(c):
  """render_jinja2_template: declared inputs and rendered values."""
  w, g = fresh()
  ctx = {txt(n): build(g, x) for n, x in zip(c['tree']['k'], c['tree']['x'])}
  if c['st']:
    ctx = g['struct'](**ctx)
  g['render_jinja2_template'](name='tt', template='t.jinja2', out='t.out', context=ctx,
                              **({'srcs': ['lib.jinja2']} if c['srcs'] else {}))
  res = {'rules': rules(w), 'std': [cps(d) for d in g['EVAL_PYTHON_FUNCTION_CALL_DEPS']]}
  run_tool(w, c, False)
  with open(path('argv'), 'rb') as h:
    spec = json.loads(h.read().decode().split('\0')[0].split('=', 1)[1])
  res['fn'] = spec['fn']
  res['tmpl'] = spec['args'][0] == path('t.jinja2')
  res['out'] = spec['args'][2] == path('t.out')
  res['n'] = 0
  verif_fx.COUNT[0] = 0
  res['val'] = verif_fx.enc(utils.process_call_function_requests(spec['args'][1]))
  res['n'] = verif_fx.COUNT[0]
  return res


def do_prefix(c):
  s = [txt(x) for x in c['s']]
  r = utils.remove_common_prefix_with_previous_string(iter(s) if c['it'] else list(s))
  return {'out': [cps(x) for x in r]}


def do_file(c):
  p = path('file.bin')
  utils.write_file(p, txt(c['s']) if c['str'] else bytes(c['s']))
  return {'out': list(utils.read_file(p))}


def do_load(c):
  name = txt(c['fn'])
  return drvlib.guarded(lambda: {'same': utils.load_function(name) is not None and utils.load_function(name).__name__ == name.rsplit('.', 1)[1]}, ImportError, AttributeError, TypeError, ValueError)


def do_bad(c):
  """What is not a call is refused."""
  w, g = fresh()
  v = build(g, c['tree'])
  try:
    g['python_function_call_genrule'](name='x', function=v, outs=['o'])
    a = ''
  except bzl.Failed:
    a = 'fail'
  try:
    utils.call_function(json.loads(bzl.to_json(v)))
    b = ''
  except AssertionError:
    b = 'assert'
  return {'a': a, 'b': b}


def based(fn):
  return lambda c: {'base': cps(WORK + '/'), **fn(c)}


drvlib.main({'call': based(do_call), 'ctx': based(do_ctx), 'rule': based(do_rule), 'real': based(do_real), 'tmpl': based(do_tmpl),
             'prefix': do_prefix, 'file': do_file, 'load': do_load, 'bad': do_bad})
