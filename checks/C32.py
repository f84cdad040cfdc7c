import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def cp(s):
  return [ord(c) for c in s]


PH = ['@phony/x', '@phony/y', '@phonyz', '@phony']
NAMES = ['A', 'B', 'C', 'D', 'E', 'F', 'ab', 'a/b', 'phony/x', '@phon', '@', 'Phony']


def main(r):
  rng = r.rng
  exe = r.build('drv_init')
  small = r.gen('Gen_Init', env={'MAX': 1 if r.quick else 2}, timeout=1500)
  cmds = []

  def perms(b, n):
    out = []
    for i in range(n):
      p = list(range(1, len(b) + 1))
      if i:
        rng.shuffle(p)
      out.append(p)
    return out

  def run(batches, n=3):
    ps = [perms(b, n) for b in batches]
    cmds.append({'op': 'run', 'batches': batches, 'orders': [[p[i] for p in ps] for i in range(n)]})

  for b in small if len(small) < 5000 else rng.sample(small, 5000):
    run([b])

  def batch(names, known, p_bad, dag):
    """dag: only constraints that follow the order of names."""
    out = []
    pool = list(names)
    for i, n in enumerate(names):
      before = names[:i] + known if dag else names + known
      after = names[i + 1:] if dag else names
      d = rng.sample(before, min(len(before), rng.choice([0, 0, 1, 1, 2])))
      rd = rng.sample(after, min(len(after), rng.choice([0, 0, 0, 1])))
      half = len(names) // 2
      if rng.random() < .3:
        (d if i >= half else rd).append(rng.choice(PH[:2]) if dag else rng.choice(PH))
      if rng.random() < p_bad:
        x = rng.random()
        if x < .4:
          d.append(rng.choice(NAMES + PH))
        elif x < .6:
          rd.append(rng.choice(NAMES + known + PH))
        elif x < .8:
          n = rng.choice(names + known)
        elif x < .9:
          n = rng.choice(PH)
        else:
          n = ''
      if rng.random() < .1:
        n = ''
      out.append({'name': cp(n), 'deps': [cp(x) for x in d if x][:4], 'rdeps': [cp(x) for x in rd if x][:4],
                  'k': rng.choice(['void'] * 6 + ['ok'] * 6 + ['none']) if rng.random() < .97 else 'fail'})
    rng.shuffle(out)
    return out

  def batches():
    names = rng.sample(NAMES, rng.randint(1, 12))
    k = rng.randint(1, 3)
    cut = sorted(rng.randint(0, len(names)) for _ in range(k - 1))
    parts = [names[a:b] for a, b in zip([0] + cut, cut + [len(names)])]
    bad = rng.choice([0, 0, 0, .05, .2])
    dag = rng.random() < .85
    out, known = [], []
    for p in parts:
      out.append(batch(p, known, bad, dag))
      known = known + [n for n in p]
    if out and rng.random() < .5:  # exactly one mistake
      j = rng.randrange(len(out))
      x = {'name': cp(rng.choice(['', 'new'])), 'deps': [], 'rdeps': [], 'k': 'void'}
      names = [y['name'] for b in out[:j] for y in b if y['name']]
      mine = [y['name'] for y in out[j] if y['name']]
      k = rng.randint(0, 5)
      if k == 0 and names:
        x['name'] = rng.choice(names)
      elif k == 1 and names:
        x['rdeps'] = [rng.choice(names)]
      elif k == 2:
        x['deps'] = [cp(rng.choice(['missing', '@phon']))]
      elif k == 3 and mine:
        x['name'] = rng.choice(mine)
      elif k == 4 and mine:
        x['deps'] = x['rdeps'] = [rng.choice(mine)]
      elif k == 5:
        x['name'] = cp(rng.choice(PH))
      out[j].insert(rng.randint(0, len(out[j])), x)
    return out

  for _ in range(1500 if r.quick else 20000):
    run(batches(), rng.choice([2, 3, 6]))
  for _ in range(250 if r.quick else 2000):
    bs = batches()
    items = [x for b in bs for x in b]
    steps, i = [], 0
    for b in bs:
      for _ in b:
        i += 1
        steps.append({'k': 'reg', 'i': i})
        if rng.random() < .05:
          steps.append({'k': 'check' if rng.random() < .3 else 'second'})
      steps.append({'k': rng.choice(['init', 'init', 'second']), 'par': rng.randint(0, 1)})
      if rng.random() < .3:
        steps.append({'k': rng.choice(['second', 'init', 'check'])})
    cmds.append({'op': 'proc', 'items': items, 'steps': steps})
  r.check('Trace_Init', [exe], mbt.each(cmds))


mbt.run('C32', main)
