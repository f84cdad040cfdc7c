"""C15: text in generated commands and templates."""
import os
import subprocess
import tempfile

import drvlib
from drvlib import cps, txt
import bzl
drvlib.protos()
from arolla.codegen import render_jinja2_template
from arolla.codegen.io import flag_utils, jinja_util

WORK = tempfile.mkdtemp(prefix='text.', dir=os.getcwd())
os.chdir(WORK)  # templates are looked up in the current directory.
G = bzl.World().load_file('arolla/codegen/utils.bzl')


def path(label):
  return '/p/' + label


def do_esc(c):
  """Each text through the escaping; the same command through a real shell."""
  res = []
  fn = G['bash_escape_wo_make_vars' if c['wo'] else 'bash_escape']
  cmds = []
  for s in c['ss']:
    e = fn(txt(s))
    res.append(cps(e))
    try:
      cmds.append(bzl.make_expand(e, path, ['o.out'], ['s.src']))
    except (bzl.Failed, IndexError):
      return {'esc': res, 'real': [], 'ok': False}
  if c['run']:
    p = subprocess.run(['/bin/bash', '--norc', '-c', 'printf "%s\\0" ' + ' '.join('"%s"' % x for x in cmds)],
                       capture_output=True, cwd=WORK, env={'LC_ALL': 'C.UTF-8', 'PATH': '/nonexistent'}, timeout=20)
    try:
      got = [cps(x) for x in p.stdout.decode().split('\0')[:-1]]
    except UnicodeDecodeError:
      got = []
    return {'esc': res, 'real': got, 'ok': p.returncode == 0}
  return {'esc': res, 'real': [], 'ok': True}


def render(text, ctx):
  with open('t.jinja2', 'w', encoding='utf8') as f:
    f.write(text)
  render_jinja2_template.render_jinja2_template('t.jinja2', ctx, 'o.txt')
  with open('o.txt', encoding='utf8', newline='') as f:
    return f.read()


def do_cesc(c):
  vs = [bytes(v['s']) if v['b'] else txt(v['s']) for v in c['vs']]
  out = render('{% for v in vs %}{{ v | cescape }}\n{% endfor %}', {'vs': vs})
  return {'out': [cps(x) for x in out.split('\n')[:-1]]}


def do_ident(c):
  def f():
    o = render('{{ v | as_c_identifier }}', {'v': txt(c['s'])})
    return {'out': cps(o), 'valid': o.isidentifier(),
            'alnum': [ord(x) for x in txt(c['s']) if x.isalnum() and ('_' + x).isidentifier()]}
  return drvlib.guarded(f, ValueError)


def do_base(c):
  return {'out': cps(render('{{ v | basename }}', {'v': txt(c['s'])}))}


def do_plain(c):
  """Values are rendered as they are; missing names are errors."""
  def f():
    o = render('<{{ a }}|{{ d.x }}|{% for v in l %}{% if v == stop %}{% break %}{% endif %}{{ v }},{% endfor %}>',
               {'a': txt(c['a']), 'd': {c['key']: txt(c['x'])}, 'l': [txt(v) for v in c['l']], 'stop': txt(c['stop'])})
    return {'out': cps(o)}
  import jinja2
  return drvlib.guarded(f, jinja2.UndefinedError)


def do_wrap(c):
  return {'out': cps(jinja_util.maybe_wrap_with_lambda(txt(c['s']), c['wrap']))}


def do_wild(c):
  return drvlib.guarded(lambda: {'out': [cps(x) for x in flag_utils.WildcardProtopathAccessorParser().parse(txt(c['s']))]}, ValueError)


drvlib.main({'esc': do_esc, 'dollar': do_esc, 'cesc': do_cesc, 'ident': do_ident, 'base': do_base,
             'plain': do_plain, 'wrap': do_wrap, 'wild': do_wild})
