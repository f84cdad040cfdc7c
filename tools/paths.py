"""Typed trees and paths of the harness protos (shared by C12 and C16).

The schema is read from the .proto files, the structs are listed here; paths are
enumerated by TLC (spec/Gen_Path) and only rendered as text on this side.
"""
import os
import re

PB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/pb/verifpb')
SCALARS = 'int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 float double bool string bytes'.split()
STRUCTS = {
    'Leafs': {'x': 'int32', 'w': 'float'},
    'Node': {'x': 'int32', 'flag': 'bool', 'str': 'string', 'raw': 'bytes', 'd': 'double', 'big': 'int64', 'leaf': 'Leafs',
             'ptr': 'ptr:Leafs', 'next': 'ptr:Node', 'pi': 'ptr:int32', 'pm': 'ptr:M2', 'msg': 'M2', 'sub': 'Sub2', 'u': 'uint32'},
}
CPP = {'Leafs': '::verif::Leafs', 'Node': '::verif::Node'}


def cpp(t):
  if t.startswith('vec:'):
    return '::std::vector<%s>' % cpp(t[4:])
  return CPP.get(t) or '::verifpb::' + t


def schema():
  res, enums, raw = {}, set(), []
  for f in ('m3.proto', 'm2.proto'):
    text = re.sub(r'//[^\n]*', '', open(os.path.join(PB, f)).read())
    p3 = '"proto3"' in text
    enums |= set(re.findall(r'enum (\w+)', text))
    for m in re.finditer(r'(message|extend) (\w+) \{((?:[^{}]|oneof \w+ \{[^}]*\})*)\}', text):
      raw.append((p3, m.group(1), m.group(2), m.group(3)))
  for p3, kind, name, body in raw:
    d = res.setdefault(name, {})
    oo = {}
    for m in re.finditer(r'oneof (\w+) \{([^}]*)\}', body):
      for n in re.findall(r'(\w+) = \d+;', m.group(2)):
        oo[n] = m.group(1)
    for m in re.finditer(r'(?:(optional|repeated) )?(?:map<(\w+), *(\w+)>|(\w+)) (\w+) = \d+(?: \[default = (\w+)\])?;', body):
      lab, mk, mv, t, n, dflt = m.groups()
      t = mv or t
      is_enum = t in enums
      t = 'enum' if is_enum else t
      msg = t != 'enum' and t not in SCALARS
      s = {'t': t}
      if mk:
        s.update(c='map', kt=mk)
      elif lab == 'repeated':
        s['c'] = 'rep'
      elif p3 and not msg and lab is None and n not in oo:
        s['c'] = 'imp'
      else:
        s['c'] = 'opt'
      if n in oo:
        s['oo'] = oo[n]
      d['x:verifpb.' + n if kind == 'extend' else n] = s
  for k, d in STRUCTS.items():
    res[k] = {n: {'c': 'val', 't': t} for n, t in d.items()}
  return res


def text(es, rng=None):
  """Path elements -> text (with the equivalent spellings the language allows)."""
  out = []

  def one(e):
    k = e['k']
    if k == 'reg': return [e['f']]
    if k == 'ext': return ['Ext::' + e['f']]
    if k == 'st': return ['&::' + e['f']]
    if k == 'deref': return ['*']
    if k == 'addr': return ['&']
    if k == 'idx': return ['%s[%d]' % (e['f'], e['i'])]
    if k == 'mapk':
      n = ''.join(map(chr, e['name']))
      q = (rng.choice('\'"') if rng and "'" not in n else None) or '"'
      return ['%s[%s%s%s]' % (e['f'], q, n, q)]
    if k == 'wild': return [e['f'] + '[*]']
    if k == 'rep': return [e['f'] + '[:]']
    if k == 'root': return ['[:]']
    if k in ('keys', 'vals'):
      a = {'keys': '@key', 'vals': '@value'}[k]
      return [e['f'] + '[:]' + a] if rng and rng.random() < .5 else [e['f'] + '[:]', a]
    if k == 'size': return ['count(%s)' % one(e['m'])[0]]
    if k == 'bad': return [e['s']]
    raise ValueError(k)

  for e in es:
    out += one(e)
  t = '/'.join(out)
  return '/' + t if rng and rng.random() < .3 else t


def step_type(S, t, e):
  if e['k'] == 'size':
    return 'size'
  if e['k'] in ('root', 'deref'):
    return t[4:]
  if e['k'] == 'addr':
    return 'ptr:' + t
  s = S[t][('x:' if e['k'] == 'ext' else '') + e['f']]
  return s['kt'] if e['k'] == 'keys' else s['t']


def splices(rng, S, ps, n, lo=3, hi=6):
  """Longer well-typed paths: two enumerated paths joined at a common type."""
  heads, tails = [], {}
  for p in ps:
    t = p['root']
    for i, e in enumerate(p['es']):
      if t in S and t != 'Kw':
        tails.setdefault(t, []).append((p['es'][i:], p['t']))
      t = step_type(S, t, e)
      if t in S:
        heads.append((p['root'], p['es'][:i + 1], t))
  # as many of every combination of kinds as of any other
  by = {}
  for h in heads:
    by.setdefault((h[0],) + tuple(e['k'] for e in h[1]), []).append(h)
  bt = {}
  for t, ts in tails.items():
    for x in ts:
      bt.setdefault(t, {}).setdefault(tuple(e['k'] for e in x[0]), []).append(x)
  res, seen = [], set()
  hk = sorted(by)
  for _ in range(n * 50):
    root, a, t = rng.choice(by[rng.choice(hk)])
    b, ty = rng.choice(bt[t][rng.choice(sorted(bt[t]))])
    es = a + b
    ks = [e['k'] for e in es]
    if not lo <= len(es) <= hi or ks.count('wild') > (0 if ks[-1] == 'size' else 1):
      continue
    if any(x == 'deref' and y == 'addr' for x, y in zip(ks, ks[1:])) or tuple(ks) in seen:
      continue
    seen.add(tuple(ks))
    res.append({'root': root, 'es': es, 't': ty})
    if len(res) == n:
      break
  return res


KEYS = ['k', 'a b', 'é', 'kk', "it's", '*']
WORDS = [b'', b'a', b'ab', b'\0x', 'é'.encode(), b'zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz']


def scalar(rng, t):
  if t in ('string', 'bytes'):
    w = rng.choice(WORDS)
    return list(w if t == 'string' or rng.random() < .7 else w + b'\xff')
  if t == 'bool':
    return rng.choice([0, 1])
  if t == 'enum':
    return rng.choice([0, 1, -7, 1000000])
  if t in ('uint32', 'uint64', 'fixed32', 'fixed64'):
    return rng.choice([0, 1, 5, 2000000000])
  if t in ('float', 'double'):
    return rng.choice([0, 1, -2, 1024])
  return rng.choice([0, 1, -1, 7, 2147483647, -2147483647])


def tree(rng, S, t, p=.5, depth=4, focus=()):
  """A random value of type t; fields on the focus path are set more often."""
  if t.startswith('ptr:'):
    on = rng.random() < (p if not focus else .85)
    return [tree(rng, S, t[4:], p, depth - 1, focus[1:] if focus and focus[0]['k'] == 'deref' else ())] if on and depth > 0 else []
  if t.startswith('vec:'):
    return [tree(rng, S, t[4:], p, depth - 1, focus[1:]) for _ in range(rng.choice([0, 1, 2, 3]))]
  if t not in S:
    return scalar(rng, t)
  if focus and focus[0]['k'] == 'addr':
    return tree(rng, S, t, p, depth, focus[2:])
  res = {}
  f0 = None
  if focus:
    e = focus[0]
    f0 = {'ext': 'x:'}.get(e['k'], '') + (e['m'].get('f', '') if e['k'] == 'size' else e.get('f', ''))
  oo = {}
  items = list(S[t].items())
  rng.shuffle(items)
  if f0 in S[t]:
    items.sort(key=lambda x: x[0] != f0)
  for n, s in items:
    sub = focus[1:] if n == f0 else ()
    if s['c'] == 'val':
      res[n] = tree(rng, S, s['t'], p, depth - 1 if n != f0 else depth, sub)
      continue
    on = rng.random() < (.85 if n == f0 else p if depth > 1 else p / 4)
    if not on or (s['t'] in S and depth <= 0) or (n != f0 and s['t'] in S and depth <= 2 and rng.random() < .7):
      continue
    if 'oo' in s:
      if s['oo'] in oo:
        continue
      oo[s['oo']] = 1
    if s['c'] in ('opt', 'imp'):
      v = tree(rng, S, s['t'], p, depth - 1, sub)
      if s['c'] == 'imp' and v in (0, []):
        continue
      res[n] = v
    elif s['c'] == 'rep':
      v = [tree(rng, S, s['t'], p, depth - 1, sub) for _ in range(rng.choice([1, 1, 2, 3, 4] if n == f0 else [0, 1, 2]))]
      if v:
        res[n] = v
    else:
      if s['kt'] == 'string':
        ks = sorted({k.encode() for k in rng.sample(KEYS, rng.choice([1, 2, 3, 4]))} | {x for x in [b'', b'\xc3'[:0] + b'K'] if rng.random() < .2})
        if focus and n == f0 and focus[0]['k'] == 'mapk' and rng.random() < .6:
          ks = sorted(set(ks) | {bytes(focus[0]['key'])})
        ks = [list(k) for k in ks]
      else:
        ks = sorted(rng.sample([-5, -1, 0, 3, 2000000000], rng.choice([1, 2, 4])))
      res[n] = [[k, tree(rng, S, s['t'], p, depth - 1, sub)] for k in ks]
  return res
