import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def main(r):
  rng = r.rng
  exe = r.build('drv_lru')
  hist = r.gen('Gen_Lru', env={'DEPTH': 4 if r.quick else 5})
  sess = hist if not r.quick else rng.sample(hist, min(len(hist), 3000))
  for _ in range(500 if r.quick else 6000):
    big = rng.random() < .3
    nk = rng.choice([2, 3, 5, 8] if not big else [10, 30, 60])
    cap = rng.choice([1, 2, 3, 5, 8] if not big else [10, 40, 1000])
    ws = rng.choice([[1], [1, 1, 2], [1, 2, 3, 5], [0, 1, 2], [cap, cap + 1, 1], [1, cap - 1, cap]])
    s = [{'op': 'begin', 'cap': cap, 'mode': rng.choice([0, 0, 1])}]
    for i in range(rng.randint(5, 40 if not big else 120)):
      k = rng.randint(1, nk) * 10 + rng.choice([0, 0, 0, 1, 2])
      x = rng.random()
      if x < .5:
        s.append({'op': 'put', 'k': k, 'v': i + 1, 'w': rng.choice(ws), 'form': rng.randint(0, 2)})
      elif x < .85:
        s.append({'op': 'get', 'k': k, 'view': rng.randint(0, 1)})
      elif x < .98:
        s.append({'op': 'get2', 'k': k, 'm': rng.randint(1, nk) * 10})
      else:
        s.append({'op': 'clear'})
    sess.append(s)
  sess = [s + [{'op': 'end'}] for s in sess]
  r.check('Trace_Lru', [exe], sess, stateful=True)


mbt.run('C30', main)
