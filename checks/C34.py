import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def frames(r):
  quick = r.quick
  rng = r.rng
  sess = r.gen('Gen_Frames', env={'DEPTH': 6 if quick else 7})
  if quick: sess = rng.sample(sess, 2500)
  T = 'csidtpnkgzoy'
  for _ in range(900 if quick else 8000):
    s = [{'op': 'begin'}]
    st = {1: 'none', 2: 'none', 3: 'none'}
    nf = {1: 0, 2: 0, 3: 0}
    cnt = {1: 0, 2: 0, 3: 0}   # AddSlot/AddSubFrame calls
    mem = {a: None for a in (1, 2, 3)}
    pool = rng.choice([T, T, 'ck', 'kgz', 'cpk', rng.sample(T, 3)])
    for _ in range(rng.randint(10, 60)):
      x = rng.randint(1, 3)
      a = rng.randint(1, 3)
      if st[x] == 'none' or (st[x] == 'built' and not any(m and m[0] == x for m in mem.values()) and rng.random() < .05):
        s.append({'op': 'nb', 'l': x}); st[x] = 'open'; nf[x] = 0; cnt[x] = 0
      elif st[x] == 'open':
        k = rng.random()
        built = [y for y in st if st[y] == 'built']
        if k < .5 and nf[x] < 16:
          t = rng.choice(pool)
          for _ in range(rng.choice([1, 1, 1, 2, 4])):
            s.append({'op': 'add', 'l': x, 't': t}); nf[x] += 1
        elif k < .7 and [m for m in built if nf[x] + nf[m] <= 20]:
          m = rng.choice([m for m in built if nf[x] + nf[m] <= 20]); s.append({'op': 'sub', 'l': x, 'm': m}); nf[x] += nf[m]
        elif k < .85:
          s.append({'op': 'reg', 'l': x, 'f': rng.randint(0, nf[x]), 'delta': rng.choice([0, 0, 0, 4, 8, 10, 100]), 't': rng.choice(T), 'dup': rng.random() < .3})
        elif k < .88:
          s.append({'op': 'unreg', 'l': x})
        elif cnt[x] >= 0:
          s.append({'op': 'build', 'l': x}); st[x] = 'built'
      else:
        k = rng.random()
        if k < .3:
          s.append({'op': 'has', 'l': x, 'f': rng.randint(0, nf[x]), 'delta': rng.choice([0, 0, 0, 2, 4, 8, 10, 12]), 't': rng.choice(T)})
        elif mem[a] is None:
          if k < .7:
            one = rng.random() < .5
            n = 1 if one else rng.choice([0, 1, 2, 3, 7])
            s.append({'op': 'alloc', 'a': a, 'l': x, 'n': n, 'one': one}); mem[a] = (x, n, False)
          else:
            s.append({'op': 'ma', 'a': a, 'l': x}); mem[a] = (x, 1, True)
        elif k < .8 and mem[a][1] and nf[mem[a][0]]:
          s.append({'op': 'set', 'a': a, 'k': rng.randint(1, mem[a][1]), 's': rng.randint(1, nf[mem[a][0]]), 'v': rng.randint(-100, 100)})
        elif k < .9:
          s.append({'op': 'free', 'a': a, 'one': mem[a][1] == 1 and rng.random() < .5}); mem[a] = None
        else:
          own = [y for y in mem if y != a and mem[y] and mem[y][2]]
          if own and mem[a][2]:
            y = rng.choice(own); s.append({'op': 'move', 'a': a, 'b': y, 'ctor': rng.random() < .3}); mem[a] = mem[y]; mem[y] = None
          elif own and mem[a] is None:
            pass
      if rng.random() < .1:
        y = [y for y in mem if mem[y] and mem[y][2]]
        z = [z for z in mem if mem[z] is None]
        if y and z:
          s.append({'op': 'move', 'a': z[0], 'b': y[0], 'ctor': rng.random() < .5}); mem[z[0]] = mem[y[0]]; mem[y[0]] = None
    for a in mem:
      if mem[a]: s.append({'op': 'free', 'a': a, 'one': False})
    sess.append(s)
  for s in sess:
    live = set()
    for c in s:
      if c['op'] in ('alloc', 'ma'): live.add(c['a'])
      elif c['op'] == 'move': live.discard(c['b']); live.add(c['a'])
      elif c['op'] == 'free': live.discard(c['a'])
    s += [{'op': 'free', 'a': a, 'one': False} for a in sorted(live)]
  exe = r.build('drv_frames')
  r.check('Trace_Frames', [exe], sess, stateful=True)


KINDS = ['i32', 'i64', 'f64', 'bool', 'text', 'text', 'text', 'obj', 'unit']


def value(rng, kind, big=False):
  if kind in ('text', 'obj'):
    n = rng.choice([0, 1, 1, 2, 3, 5, 17] + ([60, 200] if big else []))
    return [rng.choice([97, 98, 99, 0, 200])] * n if rng.random() < .5 else [rng.randint(97, 122) for _ in range(n)]
  if kind == 'unit':
    return 0
  if kind == 'bool':
    return rng.randint(0, 1)
  return rng.choice([0, 1, -1, rng.randint(-1000, 1000)])


def buffer_session(rng, kind, fac, steps):
  """A random history; only the sizes of the buffers are tracked here."""
  val = lambda: value(rng, kind, big=rng.random() < .15)
  s = [{'op': 'begin', 'kind': kind, 'fac': fac}]
  n = [0] * 5
  wrapped = set()
  for _ in range(steps):
    i, j = rng.randint(1, 4), rng.randint(1, 4)
    k = rng.random()
    c = {'i': i, 'j': j}
    if k < .12:
      c.update(op='create', v=[val() for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))], how=rng.choice(['iter', 'list', 'vec', 'inl']))
      n[i] = len(c['v'])
    elif k < .15:
      c.update(op='uninit', n=rng.choice([0, 1, 3, 10]))
      n[i] = c['n']
    elif k < .4:
      big = rng.random() < .06
      mx = rng.choice([0, 1, 2, 3, 5, 8, 20]) if not big else rng.choice([300, 1100])
      c.update(op='build', max=mx, chars=rng.choice([-1, -1, 0, 1, 4, 50]), steps=[])
      ins = None
      for _ in range(rng.randint(0, 8)):
        if mx == 0:
          break
        kk = rng.choice(['set', 'set', 'copy', 'setn', 'setc', 'ins', 'add', 'add', 'skip', 'span'])
        if kk == 'span' and kind in ('text', 'unit'):
          kk = 'set'
        at = rng.randrange(mx)
        if kk in ('set', 'span'):
          st = {'k': kk, 'at': at, 'v': val()}
        elif kk == 'copy':
          st = {'k': kk, 'from': at, 'to': rng.randrange(mx)}
        elif kk == 'setn':
          st = {'k': kk, 'at': at, 'vs': [val() for _ in range(rng.randint(0, min(5, mx - at)))]}
        elif kk == 'setc':
          st = {'k': kk, 'at': at, 'n': rng.randint(0, mx - at), 'v': val()}
        elif kk == 'ins' or ins is None:
          ins = rng.choice([0, 0, at])
          st = {'k': 'ins', 'at': ins}
        elif kk == 'add':
          if ins >= mx:
            continue
          st = {'k': kk, 'v': val()}
          ins += 1
        else:
          d = rng.randint(0, min(3, mx - ins))
          st = {'k': kk, 'n': d}
          ins += d
        c['steps'].append(st)
      how = rng.choice(['full', 'n', 'n'] + (['ins', 'ins'] if ins is not None else []))
      c.update(how=how, n=rng.choice([mx, rng.randint(0, mx), min(mx, 3)]))
      n[i] = mx if how == 'full' else ins if how == 'ins' else c['n']
    elif k < .55:
      mx = rng.choice([0, 1, 2, 4, 7, 30])
      ss = []
      if n[j]:
        for _ in range(rng.randint(0, 5)):
          if mx == 0:
            break
          f = rng.randrange(n[j])
          if rng.random() < .6:
            ss.append({'k': 'one', 'to': rng.randrange(mx), 'from': f})
          else:
            lo = rng.randint(0, mx)
            ss.append({'k': 'range', 'lo': lo, 'hi': rng.randint(lo, mx), 'from': f})
      c.update(op='reshuffle', max=mx, steps=ss, how=rng.choice(['full', 'n']), n=rng.randint(0, mx))
      c['def'] = rng.choice([[], [val()], [[]] if kind == 'text' else [val()]])
      n[i] = mx if c['how'] == 'full' else c['n']
    elif k < .7:
      off = rng.randint(0, n[j])
      tail = rng.random() < .3
      cnt = n[j] - off if tail else rng.randint(0, n[j] - off)
      c.update(op='slice', off=off, n=cnt, tail=tail, mv=rng.random() < .5)
      n[i] = cnt
    elif k < .85:
      c.update(op=rng.choice(['shallow', 'shallow', 'deep', 'owned', 'copy']))
      n[i] = n[j]
    elif k < .94:
      x = rng.randint(1, 2)
      c.update(op='wrap', x=x, v=[val() for _ in range(rng.choice([1, 2, 3, 6]))], base=rng.choice([0, 0, 3, 1000]))
      wrapped.add(x)
      n[i] = len(c['v'])
    elif k < .97:
      if not wrapped:
        continue
      c = {'op': 'scribble', 'x': rng.choice(sorted(wrapped)), 'junk': [33] if kind in ('text', 'obj') else 1}
    else:
      c = {'op': 'reset'}
    if c['op'] not in ('reshuffle', 'slice', 'shallow', 'deep', 'owned', 'copy'):
      c.pop('j', None)
    s.append(c)
  return s


def buffers(r):
  rng = r.rng
  hist = r.gen('Gen_Buffers', env={'DEPTH': 4})
  if r.quick:
    hist = rng.sample(hist, min(2000, len(hist)))
  sess = [[{'op': 'begin', 'kind': 'text', 'fac': 'heap'}] + h for h in hist]
  for h in hist[::20]:
    sess.append([{'op': 'begin', 'kind': 'text', 'fac': rng.choice(['arena', 'parena'])}] + h + [{'op': 'reset'}])
  for _ in range(1500 if r.quick else 12000):
    sess.append(buffer_session(rng, rng.choice(KINDS), rng.choice(['heap', 'heap', 'arena', 'arena', 'parena']), rng.randint(3, 20)))
  exe = r.build('drv_buffers')
  r.check('Trace_Buffers', [exe], sess, stateful=True)


def raw_buffers(r):
  rng = r.rng
  sess = []
  for _ in range(1200 if r.quick else 10000):
    fac = rng.choice(['arena', 'arena', 'arena', 'heap', 'proto'])
    page = rng.choice([16, 64, 64, 256, 4096])
    s = [{'op': 'begin', 'fac': fac, 'page': page}]
    sizes = rng.choice([[0, 1, 3, 8], [1, 5, 8, 16, page // 2, page], [page // 4, page // 2, page - 1, page, page + 1, 2 * page], list(range(0, page + 9))])
    live = []
    nid = 0
    for _ in range(rng.randint(3, 30)):
      k = rng.random()
      if k < .5 or not live:
        nid += 1
        live.append(nid)
        s.append({'op': 'create', 'id': nid, 'n': rng.choice(sizes)})
      elif k < .85:
        s.append({'op': 'realloc', 'id': live[-1] if rng.random() < .6 else rng.choice(live), 'n': rng.choice(sizes)})
      elif k < .95:
        x = rng.choice(live)
        live.remove(x)
        s.append({'op': 'drop', 'id': x})
      elif fac == 'arena':
        live = []
        s.append({'op': 'reset'})
    sess.append(s)
  exe = r.build('drv_rawbuf')
  r.check('Trace_RawBuf', [exe], sess, stateful=True)


def main(r):
  r.mc('StringsPhys', cover=False)
  r.mc('Arena', cover=False)
  frames(r)
  buffers(r)
  raw_buffers(r)


mbt.run('C34', main)
