import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt, arraysess


def main(r):
  rng = r.rng
  hist = r.gen('Gen_Arrays', env={'DEPTH': 3 if r.quick else 4})
  hist = [h for h in hist if any(c['op'] == 'pw' for c in h)]
  if r.quick:
    hist = rng.sample(hist, min(1500, len(hist)))
  sess = [[{'op': 'begin', 'kind': rng.choice(['i32', 'text']), 'fac': 'heap'}] + h for h in hist]
  sess += arraysess.sessions(rng, 2500 if r.quick else 20000, True)
  exe = r.build('drv_arrays')
  r.check('Trace_Arrays', [exe], sess, stateful=True)


mbt.run('C20', main)
