"""Executes arolla/qexpr/operators/*/BUILD (+ .bzl) as Python and renders the
operator registration sources the way Bazel would, for a selection of overloads.

  generate(out_dir, select) -> list of generated .cc paths (relative to GEN)
"""
import os
import re
import subprocess
import sys
import json
import types

REPO = os.environ.get('VERIF_REPO', '/repo')


class struct(types.SimpleNamespace):
  pass


class depset:

  def __init__(self, items=(), **_):
    self.items = list(dict.fromkeys(items.items if isinstance(items, depset) else items))

  def to_list(self):
    return list(self.items)


class Anything:

  def __call__(self, *a, **k):
    return Anything()

  def __getattr__(self, n):
    return Anything()

  def __add__(self, o):
    return self

  __radd__ = __add__


def fail(*a):
  raise RuntimeError(str(a))


class Loader:

  def __init__(self):
    self.cache = {}
    self.pkg = None
    self.libs = []      # operator_libraries calls
    self.families = []  # operator_family calls

  def run(self, path, pkg, is_build):
    g = {}

    def load(label, *names, **aliases):
      pairs = [(n, n) for n in names] + list(aliases.items())
      m = re.fullmatch(r'(?://([\w/]*))?:([\w.]+\.bzl)', label)
      mod = None
      if m:
        p = m.group(1) if m.group(1) is not None else pkg
        f = os.path.join(REPO, p, m.group(2))
        if os.path.exists(f):
          if f not in self.cache:
            self.cache[f] = self.run(f, p, False)
          mod = self.cache[f]
      for a, n in pairs:
        g[a] = mod[n] if mod is not None and n in mod else Anything()
      if is_build:
        if 'operator_libraries' in g:
          g['operator_libraries'] = self.operator_libraries
        if 'operator_family' in g:
          g['operator_family'] = self.operator_family

    g.update(
        load=load, zip=lambda *a: list(zip(*a)), map=lambda *a: list(map(*a)),
        struct=struct, depset=depset, fail=fail, Label=str,
        select=lambda d: [], glob=Anything(), package=Anything(),
        licenses=Anything(), exports_files=Anything(), genrule=Anything(),
        native=types.SimpleNamespace(package_name=lambda: self.pkg,
                                     genrule=Anything(), glob=Anything()),
        json=types.SimpleNamespace(encode=json.dumps),
    )
    with open(path, encoding='utf8') as f:
      exec(compile(f.read(), path, 'exec'), g)  # pylint: disable=exec-used
    return g

  def load_build(self, pkg):
    self.pkg = pkg
    self.run(os.path.join(REPO, pkg, 'BUILD'), pkg, True)

  def operator_libraries(self, name, operator_name, overloads, **_):
    self.libs.append((self.pkg, name, operator_name, overloads))

  def operator_family(self, name, op_family_name, op_family_class, hdrs, deps, **_):
    self.families.append((self.pkg, name, op_family_name, op_family_class,
                          [h if '/' in h else self.pkg + '/' + h for h in hdrs]))


def load_all(pkgs):
  l = Loader()
  for p in pkgs:
    l.load_build(p)
  return l


SKIP_OPS = re.compile(
    r'^(random\.|experimental\.|test\.|array\.randint|math\.(t|beta|normal)_distr|'
    r'math\.trig|strings\._(findall|compile|contains|extract|replace_all)_regex|'
    r'strings\.parse_float|math\.(pow|log|log2|log10|log1p|sqrt|symlog1p|exp|'
    r'sigmoid|logit|log_sigmoid|expm1|fmod)$)')
SCALARS = ('int32_t', 'int64_t', 'float', 'double', 'bool', 'uint64_t', '::arolla::Unit',
           '::arolla::Text', '::arolla::Bytes')
SELECT_DEFAULT = {'int32_t', 'int64_t', 'bool', '::arolla::Unit'}
SELECT = [
    (re.compile(r'^strings\.'), SELECT_DEFAULT | {'::arolla::Text', '::arolla::Bytes'}),
    (re.compile(r'^(core\.(presence|has|equal|_get_opt|to_opt|where)|array\.(at|slice)|math\.(add|mul))'),
     SELECT_DEFAULT | {'float', '::arolla::Text'}),
    (re.compile(r'^(math\._(is_|ceil|floor|round|mean)|math\.divide|core\._to_float32)'),
     SELECT_DEFAULT | {'float'}),
]


def _selected(op, o):
  ok = SELECT_DEFAULT
  for rx, types_ in SELECT:
    if rx.search(op):
      ok = types_
      break
  text = ' '.join(o.args)
  used = set()
  for t in SCALARS:
    if re.search(r'(?<![\w:])' + re.escape(t) + r'(?![\w])', text):
      used.add(t)
  return used <= ok


def generate(out_dir):
  """Renders the registrations; returns the list of generated files."""
  sys.path.insert(0, REPO)
  import jinja2  # pylint: disable=g-import-not-at-top
  env = jinja2.Environment(
      loader=jinja2.FileSystemLoader(REPO), undefined=jinja2.StrictUndefined,
      extensions=['jinja2.ext.loopcontrols'])
  root = os.path.join(REPO, 'arolla/qexpr/operators')
  pkgs = ['arolla/objects/operators'] if False else []
  for r, _, names in os.walk(root):
    if 'BUILD' in names and '/testing' not in r and not r.endswith('/all'):
      pkgs.append(os.path.relpath(r, REPO))
  l = load_all(sorted(pkgs))
  files = []
  os.makedirs(out_dir, exist_ok=True)

  def write(name, text):
    p = os.path.join(out_dir, name)
    files.append(p)
    try:
      if open(p).read() == text:
        return
    except OSError:
      pass
    with open(p, 'w') as f:
      f.write(text)

  t1 = env.get_template('arolla/codegen/qexpr/simple_operator.cc.jinja2')
  t2 = env.get_template('arolla/codegen/qexpr/operator_family_registration.cc.jinja2')
  for pkg, name, op, overloads in l.libs:
    if SKIP_OPS.search(op):
      continue
    groups = {}
    for o in overloads:
      if _selected(op, o):
        for g in o.build_target_groups:
          groups.setdefault(g, []).append(o)
    for g, ov in groups.items():
      hdrs = depset([h for o in ov for h in o.hdrs]).to_list()
      deps = depset([d for o in ov for d in o.deps]).to_list()
      lib = '%s_%s' % (name, g)
      write('%s__%s.cc' % (pkg.replace('arolla/', '').replace('/', '_'), lib),
            t1.render(op_name=op, build_target='//%s:%s' % (pkg, lib), overloads=ov,
                      hdrs=hdrs, deps=deps, is_individual_operator=False))
  for pkg, name, op, cls, hdrs in l.families:
    if SKIP_OPS.search(op):
      continue
    write('%s__family_%s.cc' % (pkg.replace('arolla/', '').replace('/', '_'), name),
          t2.render(op_family_name=op, build_target='//%s:%s' % (pkg, name),
                    op_family_class=cls, hdrs=hdrs, deps=[]))
  for n in os.listdir(out_dir):
    if os.path.join(out_dir, n) not in files:
      os.unlink(os.path.join(out_dir, n))
  return files


if __name__ == '__main__':
  for f in generate(sys.argv[1]):
    print(f)
