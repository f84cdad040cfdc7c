import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def main(r):
  r.mc('TaskPool')
  sched = r.build('drv_pool_sched')
  free = r.build('drv_pool')
  beh = r.gen('Gen_TaskPool')
  cmds = []
  for x in beh:
    # the caller (thread 0) starts the workers before they draw.
    w = min(x['n'], x['par'])
    cmds.append(dict(op='pool', n=x['n'], par=x['par'], mode='tasks',
                     sched=[0] * (w + 1) + list(range(1, w + 1)) + x['sched']))
  if r.quick and len(cmds) > 1500:
    cmds = r.rng.sample(cmds, 1500)
  for i in range(600 if r.quick else 6000):
    n = r.rng.choice([0, 1, 2, 3, 4, 5, 7, 9])
    par = r.rng.randint(1, 5)
    cmds.append(dict(op='pool', n=n, par=par, mode='tasks',
                     sched=[r.rng.randint(0, par) for _ in range(60)]))
  for i in range(150 if r.quick else 1500):
    n = r.rng.randint(0, 4)
    cmds.append(dict(op='pool', n=n, par=max(n, 1), mode='threads', rev=bool(r.rng.getrandbits(1)),
                     sched=[r.rng.randint(0, n) for _ in range(40)]))
  r.check('Trace_TaskPool', [sched], mbt.each(cmds), stateful=True)
  cmds = []
  for i in range(300 if r.quick else 4000):
    n = r.rng.choice([0, 1, 2, 3, 8, 17, 40])
    cmds.append(dict(op='pool', n=n, par=r.rng.choice([1, 2, 3, 4, 8, 64]), mode='tasks', seed=i))
  for i in range(60 if r.quick else 600):
    n = r.rng.randint(0, 6)
    cmds.append(dict(op='pool', n=n, par=max(n, 1), mode='threads', seed=i))
  for i in range(10):
    cmds.append(dict(op='pool', n=i, par=1, mode='with', seed=i))
  for k in (-5, 0, 1, 2, 7):
    cmds.append(dict(op='threading', k=k))
  r.check('Trace_TaskPool', [free], mbt.each(cmds), stateful=True, retries=5)


mbt.run('C02', main)
