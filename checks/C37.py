import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt
import regsess
from regsess import T


def main(r):
  rng = r.rng
  exe = r.build('drv_registry')
  r.mc('MC_Casts', cover=False)
  types = [T(s, k) for s in regsess.ALL for k in range(4)] + [T('tup', 0), T('tup', 1)]
  null = T('none')
  cmds = []
  for a, b in itertools.product(types + [null], repeat=2):
    for bc in (False, True):
      cmds.append({'op': 'common', 'a': a, 'b': b, 'bc': bc})
  for t in types:
    for n in [T(s) for s in regsess.ALL] + [T('i32', 1), T('tup', 0)]:
      cmds.append({'op': 'props', 't': t, 'n': n})
  num = [T(s, k) for s in regsess.NUM for k in range(4)]
  for _ in range(1500 if r.quick else 10000):
    pool = num if rng.random() < .8 else types
    cmds.append({'op': 'commonl', 'ts': [rng.choice(pool) for _ in range(rng.randint(0, 4))], 'bc': rng.random() < .7,
                 'q': rng.choice(pool)})
  r.check('Trace_Casts', [exe], mbt.each(cmds))
  r.check('Trace_Registry', [exe], regsess.sessions(r, 1200 if r.quick else 15000, 3 if r.quick else 4), stateful=True)

  r.check('Trace_ExprReg', [r.build('drv_expr')], regsess.expr_sessions(r, 1500 if r.quick else 15000, 3 if r.quick else 4), stateful=True)


mbt.run('C37', main)
