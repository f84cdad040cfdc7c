"""Development aid: the minimal list of repository sources a driver links against.

  closure.py SRC...   (objects of the whole library are built once and indexed)
"""
import os, pickle, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb


def syms(obj):
  d, u = set(), set()
  for l in subprocess.run(['nm', '-P', obj], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    w = l.split()
    if len(w) < 2: continue
    if w[1] in 'Uvw' : (u if w[1] == 'U' else set()).add(w[0])
    elif w[1] in 'TDBRGS': d.add(w[0])
    elif w[1] in 'WVu': d.add(w[0])
  return d, u


def strong(obj):
  d = set()
  for l in subprocess.run(['nm', '-P', '--defined-only', obj], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    w = l.split()
    if w[1] in 'TDBRGS': d.add(w[0])
  return d


def main():
  start = sys.argv[1:]
  lib = vb.repo_lib_sources() + vb.pb_sources()
  objs = vb.compile_all(lib, keep_going=True)
  own = vb.compile_all(start)
  dfn = {}
  for s, o in objs.items():
    for x in strong(o): dfn.setdefault(x, s)
  todo, used = list(start), []
  have = set()
  while todo:
    s = todo.pop()
    o = own.get(s) or objs[s]
    d, u = syms(o)
    for x in u:
      t = dfn.get(x)
      if t and t not in used and t not in start:
        used.append(t); todo.append(t)
  # weak definitions (e.g. vtables) that nothing selected provides.
  anyd = {}
  for s, o in objs.items():
    for x in syms(o)[0]: anyd.setdefault(x, s)
  while True:
    sel = [own[s] for s in start] + [objs[s] for s in used]
    d, u = set(), set()
    for o in sel:
      a, b = syms(o); d |= a; u |= b
    miss = [x for x in u - d if x in anyd and anyd[x] not in used]
    if not miss: break
    for x in sorted(miss):
      if anyd[x] not in used: used.append(anyd[x])
  print(len(used)); print(sorted(used))


main()
