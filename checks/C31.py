import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def history(rng, n):
  """A random well-formed history: tracks only what the user holds."""
  s, own, made, hs, stacks, nid = [], [], 0, {}, {1: [], 2: [], 3: []}, 0
  for i in range(n):
    k = rng.choice(['make', 'make', 'drop', 'cancel', 'sub', 'sub', 'sub', 'sub', 'unsub', 'detach', 'move', 'push', 'push', 'pushnew', 'take', 'pop'])
    if k == 'make' or not own:
      if k != 'make' and k != 'pushnew':
        k = 'make'
    if k == 'make':
      made += 1
      own.append(made)
      s.append({'op': 'make', 'c': made})
    elif k == 'drop' and rng.random() < .5:
      c = rng.choice(own)
      own.remove(c)
      s.append({'op': 'drop', 'c': c})
    elif k == 'cancel' and rng.random() < .5:
      s.append({'op': 'cancel', 'c': rng.choice(own), 'r': rng.choice([99, 99, 10 + i]), 't': rng.randint(1, 3)})
    elif k == 'sub':
      free = [h for h in (1, 2, 3, 4) if h not in hs]
      if not free:
        continue
      h = rng.choice(free)
      nid += 1
      act, arg = 'no', 0
      if h > 1:
        act = rng.choice(['no', 'no', 'cascade', 'sub', 'again', 'drop'])
        arg = {'cascade': rng.choice(own), 'sub': 1000 + nid, 'drop': 1}.get(act, 0)
      hs[h] = 1
      # A subscription to a cancelled context leaves the handle empty; "unsub"
      # of an empty handle is harmless, so the bookkeeping need not know.
      s.append({'op': 'unsub', 'h': h})
      s.append({'op': 'sub', 'c': rng.choice(own), 'h': h, 'id': nid, 'act': act, 'arg': arg})
    elif k in ('unsub', 'detach') and hs:
      h = rng.choice(sorted(hs))
      del hs[h]
      s.append({'op': k, 'h': h, 't': rng.randint(1, 3)})
    elif k == 'move':
      free = [h for h in (2, 3, 4) if h not in hs]
      src = [h for h in hs if h > 1]
      if free and src:
        h, g = rng.choice(free), rng.choice(src)
        hs[h] = hs.pop(g)
        s += [{'op': 'unsub', 'h': h}, {'op': 'move', 'h': h, 'g': g}]
    elif k == 'push':
      t = rng.randint(1, 3)
      stacks[t].append(rng.choice(own + [0]))
      s.append({'op': 'push', 't': t, 'c': stacks[t][-1]})
    elif k == 'pushnew':
      t = rng.randint(1, 3)
      made += 1
      stacks[t].append(made)
      s.append({'op': 'pushnew', 't': t})
    elif k == 'take':
      t = rng.randint(1, 3)
      c = stacks[t][-1] if stacks[t] else 0
      if c and c not in own:
        own.append(c)
      s.append({'op': 'take', 't': t})
    elif k == 'pop':
      ts = [t for t in stacks if stacks[t]]
      if ts:
        t = rng.choice(ts)
        stacks[t].pop()
        s.append({'op': 'pop', 't': t})
  return s


def race(rng):
  n = rng.randint(2, 6)
  ncancel = rng.choice([0, 1, 1, 2, n])
  prog, nid = [], 0
  for t in range(n):
    p = []
    for _ in range(rng.randint(1, 25)):
      k = rng.choice(['get', 'check', 'flag', 'sub', 'sub', 'det', 'unsub', 'unsub'])
      nid += 1
      p.append([k, nid if k in ('sub', 'det') else rng.randint(0, 1) if k == 'flag' else rng.randint(0, 9)])
    if t < ncancel:
      p.insert(rng.randint(0, len(p)), ['cancel', 10 + t])
    prog.append(p)
  rng.shuffle(prog)
  # Few long turns or many short ones.
  k, sched = rng.choice([1, 1, 2, 5]), []
  while len(sched) < 120:
    sched += [rng.randrange(n)] * rng.randint(1, k)
  return {'op': 'race', 'prog': prog, 'sched': sched}


def main(r):
  rng = r.rng
  exe = r.build('drv_cancel')
  hist = r.gen('Gen_Cancel', env={'DEPTH': 5 if r.quick else 6}, timeout=1500)
  sess = [s for s in hist]
  lim = 3500 if r.quick else 60000
  if len(sess) > lim:
    sess = rng.sample(sess, lim)
  for _ in range(300 if r.quick else 5000):
    sess.append(history(rng, rng.randint(8, 40)))
  sess = [[{'op': 'begin'}] + s for s in sess]
  r.check('Trace_Cancel', [exe], sess, stateful=True)
  sched = r.build('drv_cancel_sched')
  cmds = [race(rng) for _ in range(2000 if r.quick else 30000)]
  # Two threads at every position of each other.
  A = [['cancel', 11]], [['cancel', 11], ['get', 0]], [['sub', 1], ['unsub', 0]], [['sub', 1]], [['det', 1], ['get', 0]], [['flag', 0], ['check', 0], ['get', 0]]
  for x in A:
    for y in A:
      y = [[k, v + 1 if k in ('cancel', 'sub', 'det') else v] for k, v in y]
      for i in range(10):
        for j in range(1, 10):
          for lead in ((0, 1), (1, 0)):
            z = [['cancel', 13]] if rng.random() < .5 else [['flag', 1]]
            cmds.append({'op': 'race', 'prog': [x, y, z], 'sched': [lead[0]] * i + [lead[1]] * j + [lead[0]] * 20 + [2] * 20})
  r.check('Trace_CancelRace', [sched], mbt.each(cmds if not r.quick else rng.sample(cmds, 3500)))
  if not r.violations:
    r.check('Trace_CancelRace', [exe], mbt.each([race(rng) for _ in range(600 if r.quick else 8000)]), retries=20)


mbt.run('C31', main)
