"""Functions called by the build-time call specifications."""
import json
import os

COUNT = [0]


def rec(*args, **kwargs):
  """Returns what it was called with and a number unique for the call."""
  COUNT[0] += 1
  return ['rec', COUNT[0], list(args), kwargs]


def same(x):
  return x


def quote(x):
  """A result that looks like a call: it is a value, not a request."""
  return {'__call_python_func__': 1, 'fn': 'verif_fx.rec', 'args': [x]}


def out(filename, value):
  with open(filename, 'w') as f:
    json.dump(enc(value), f)


def env_out(filename, names):
  with open(filename, 'w') as f:
    json.dump([[ord(c) for c in os.environ.get(n, '\0')] for n in names], f)


def cps(s):
  return [ord(c) for c in s]


def enc(v):
  """Value -> tagged tree."""
  if v is None:
    return {'t': 'n'}
  if isinstance(v, bool):
    return {'t': 'b', 'b': v}
  if isinstance(v, int):
    return {'t': 'i', 'i': cps(str(v))}
  if isinstance(v, float):
    return {'t': 'f', 'i': cps(repr(v))}
  if isinstance(v, str):
    return {'t': 's', 's': cps(v)}
  if isinstance(v, (bytes, bytearray)):
    return {'t': 'y', 's': list(v)}
  if isinstance(v, tuple):
    return {'t': 'l', 'tuple': True, 'x': [enc(x) for x in v]}
  if isinstance(v, list):
    if len(v) == 4 and v[0] == 'rec':
      return {'t': 'r', 'n': v[1], 'x': [enc(x) for x in v[2]],
              'k': [cps(k) for k in v[3]], 'kx': [enc(x) for x in v[3].values()]}
    return {'t': 'l', 'x': [enc(x) for x in v]}
  if isinstance(v, dict):
    return {'t': 'd', 'k': [cps(k) if isinstance(k, str) else [-1] for k in v],
            'x': [enc(x) for x in v.values()]}
  return {'t': 'other'}
