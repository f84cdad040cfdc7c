import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt, arraysess


def main(r):
  rng = r.rng
  hist = r.gen('Gen_Arrays', env={'DEPTH': 3 if r.quick else 4})
  if r.quick:
    hist = rng.sample(hist, min(2500, len(hist)))
  kinds = ['i32', 'text']
  sess = [[{'op': 'begin', 'kind': rng.choice(kinds), 'fac': 'heap'}] + h for h in hist]
  sess += arraysess.sessions(rng, 1500 if r.quick else 15000, False)
  exe = r.build('drv_arrays')
  r.check('Trace_Arrays', [exe], sess, stateful=True)


mbt.run('C21', main)
