import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt

BASIC = [['dec'], ['skew'], ['use', 'dec'], ['use', 'skew']]
FULL = BASIC + [['inc', 'dec', 'skew'], ['inc', 'skew', 'use', 'dec'],
                ['use', 'inc', 'use', 'dec', 'use', 'skew'],
                ['inc', 'inc', 'skew', 'skew', 'dec']]


def main(r):
  r.mc('MC_Refcount')
  weak = r.tlc('MC_Refcount', 'MC_RefcountWeak')
  if weak.rc != 12:
    raise mbt.CheckError('the weakened model is not rejected')
  exe = r.build('drv_refcount')
  cmds = []
  for nt in (2, 3):
    got = r.gen('Gen_Refcount', env={'NT': nt})
    if r.quick and len(got) > 1500:
      got = r.rng.sample(got, 1500)
    cmds += got
  for _ in range(600 if r.quick else 20000):
    n = r.rng.randint(1, 5)
    cmds.append({'threads': [r.rng.choice(FULL) for _ in range(n)],
                 'sched': [r.rng.randint(1, n) for _ in range(4 * n * 3)]})
  for c in cmds:
    c['op'] = 'conc'
  r.check('Trace_Refcount', [exe], mbt.each(cmds), stateful=True)
  ptr = r.gen('Gen_RefPtr', env={'DEPTH': 3 if r.quick else 4})
  exe = r.build('drv_refptr')
  sess = [p for p in ptr]
  if r.quick and len(sess) > 6000:
    sess = r.rng.sample(sess, 6000)
  for _ in range(200 if r.quick else 5000):
    sess.append([{'op': r.rng.choice(OPS), 'h': r.rng.randint(1, 3), 'g': r.rng.randint(1, 3)}
                 for _ in range(r.rng.randint(5, 40))])
  sess = [[{'op': 'begin'}] + s + [{'op': 'end'}] for s in sess]
  r.check('Trace_RefPtr', [exe], sess, stateful=True)


OPS = ['make', 'link', 'copy', 'move', 'reset', 'swap', 'null', 'newref', 'next', 'own', 'temp']
mbt.run('C01', main)
