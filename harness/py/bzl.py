"""Executes the repository's .bzl files as Python, recording the rules made."""
import json
import os
import re
import sys
import types

import drvlib

REPO = drvlib.REPO


class struct(types.SimpleNamespace):
  pass


class depset:

  def __init__(self, items=(), order='default', transitive=()):
    items = items.to_list() if isinstance(items, depset) else list(items)
    for t in transitive or ():
      items += t.to_list()
    self.items = list(dict.fromkeys(items))

  def to_list(self):
    return list(self.items)


class Failed(Exception):
  pass


class Select(list):
  """select({...}): the branches, concatenable with lists."""

  def __add__(self, o):
    return Select(list(self) + list(o))

  def __radd__(self, o):
    return Select(list(o) + list(self))


def select(d, **_):
  return Select([d])


def starlark_hash(s):
  h = 0
  for c in s:
    h = (h * 31 + ord(c)) & 0xffffffff
  return h - (1 << 32) if h & 0x80000000 else h


_STARLARK = {str: 'string', type(None): 'NoneType'}
_type = type


def starlark_type(x):
  t = _type(x)
  return _STARLARK.get(t, t.__name__)


def fail(*msg, **_):
  raise Failed(' '.join(str(m) for m in msg))


def _plain(s):
  return vars(s) if isinstance(s, struct) else fail('not encodable', type(s))


def to_json(x):
  return json.dumps(x, default=_plain, ensure_ascii=False, separators=(',', ':'))


class World:
  """Rules declared by the executed macros, in order."""

  def __init__(self, package='pkg'):
    self.rules = []
    self.package = package
    self.cache = {}

  def rule(self, kind):
    def f(**kw):
      self.rules.append((kind, {k: v.to_list() if isinstance(v, depset) else v for k, v in kw.items()}))
    return f

  def build_fn(self, kind):
    def f(*a, **kw):
      self.rules.append((kind, kw))
    return f

  def native(self):
    w = self

    class Native:

      def __getattr__(self, n):
        if n.startswith('__'):
          raise AttributeError(n)
        return w.rule(n)

      def package_name(self):
        return w.package

      def repository_name(self):
        return '@'

    return Native()

  def load_file(self, path):
    """Globals of the .bzl file at this path under the repository."""
    if path in self.cache:
      return self.cache[path]
    g = {}
    self.cache[path] = g
    pkg = os.path.dirname(path)

    def load(label, *names, **aliases):
      pairs = [(n, n) for n in names] + list(aliases.items())
      if label.startswith('@') and not label.startswith('@arolla'):
        for a, n in pairs:
          g[a] = (types.SimpleNamespace(to_dict=lambda s: dict(vars(s)))
                  if n == 'structs' else self.rule(n))
        return
      label = re.sub('^@arolla', '', label)
      m = re.fullmatch(r'(?://([^:]*))?(?::(.*))?', label)
      p, f = m.group(1), m.group(2)
      p = pkg if p is None else p
      f = f or os.path.basename(p)
      mod = self.load_file(os.path.join(p, f))
      for a, n in pairs:
        g[a] = mod[n]

    g.update(
        load=load, struct=struct, depset=depset, fail=fail, Label=str,
        json=types.SimpleNamespace(encode=to_json, decode=json.loads,
                                   encode_indent=lambda x, **k: to_json(x)),
        native=self.native(), visibility=lambda *a: None,
        provider=self.rule('provider'), select=select,
        zip=lambda *a: list(zip(*a)), hash=starlark_hash, type=starlark_type,
        print=lambda *a: None)
    if os.path.basename(path) == 'BUILD':
      for n in ('package', 'licenses', 'exports_files', 'test_suite', 'filegroup', 'genrule', 'alias', 'config_setting', 'package_group'):
        g[n] = self.build_fn(n)
      g['glob'] = lambda *a, **k: []
    with open(os.path.join(REPO, path), encoding='utf8') as f:
      exec(compile(f.read().replace('.elems()', ''), path, 'exec'), g)  # pylint: disable=exec-used
    return g


_VAR = re.compile(r'\$(\$|\((?:execpath|location|rootpath) ([^)]*)\)|\(([A-Z]+)\)|[@<])')


def make_expand(cmd, path, outs=(), srcs=()):
  """Bazel's expansion of make variables and labels in a genrule command."""
  def sub(m):
    x = m.group(1)
    if x == '$':
      return '$'
    if m.group(2) is not None:
      return path(m.group(2))
    if x == '@':
      return path(outs[0])
    if x == '<':
      return path(srcs[0])
    if m.group(3) == 'SRCS':
      return ' '.join(path(s) for s in srcs)
    if m.group(3) == 'OUTS':
      return ' '.join(path(s) for s in outs)
    raise Failed('undefined make variable ' + x)
  return _VAR.sub(sub, cmd)
