import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt

FUN = ['log', 'log2', 'log10', 'log1p', 'sqrt', 'symlog1p', 'exp', 'expm1', 'sigmoid', 'sigmoid_down',
       'logit', 'log_sigmoid', 'sin', 'cos', 'sinh', 'atan']


def main(r):
  exe = r.build('drv_math')
  pts = {'f32': [], 'f64': []}
  for x in r.gen('Gen_Num'):
    if x['t'] in pts:
      pts[x['t']].append(x['a'])

  def enc(t, v):
    return list(struct.pack('<f' if t == 'f32' else '<d', v))

  def grid(t):
    hi = 38 if t == 'f32' else 300
    g = []
    for k in range(-hi + 2, hi, 2 if t == 'f32' else 13):
      g += [m * 10.0 ** k for m in (1, 3)]
    step = 1 if r.quick else .25
    v = 0.0
    while v < 95:
      g.append(v + r.rng.random() * step * .5)
      v += step
    v = 0.0
    while v < 1:
      g.append(v + r.rng.random() * .01)
      v += .03
    g += [i / 16 for i in range(1, 40)]
    if t == 'f64':
      g += [96 + 20 * i for i in range(34)]
    g = sorted(g)
    # neighbours further apart than the error of any libm function
    out = []
    for v in g:
      if not out or v > out[-1] * 1.0005:
        out.append(v)
    return [-v for v in reversed(out)] + [0.0] + out

  cmds = []
  for t in pts:
    special = sorted(pts[t])
    for f in FUN:
      for a in special:
        cmds.append({'op': 'point', 'f': f, 't': t, 'x': a, 'y': a})
      g = grid(t)
      for a, b in zip(g, g[1:]):
        cmds.append({'op': 'point', 'f': f, 't': t, 'x': enc(t, a), 'y': enc(t, b)})
      for _ in range(100 if r.quick else 2000):
        a, b = r.rng.sample(g, 2)
        cmds.append({'op': 'point', 'f': f, 't': t, 'x': enc(t, a), 'y': enc(t, b)})
    for n in sorted(r.rng.sample(range(1, 50000), 500 if r.quick else 8000) + [1, 2, 500, 999, 1000, 1001, 2000, 2718]):
      cmds.append({'op': 'rel', 't': t, 'n': n})
    for n in r.rng.sample(range(-30000, 30000), 700 if r.quick else 8000) + [0, 1000, 8000, -1000, 1, -1]:
      cmds.append({'op': 'sym', 't': t, 'n': n, 'h': r.rng.randint(-50, 50), 's': r.rng.choice([-30, -10, -5, 1, 5, 10, 20, 40])})
    for k in range(3, 30 if t == 'f32' else 290):
      cmds.append({'op': 'tiny', 't': t, 'k': k})
    for k in range(6, 80 if t == 'f32' else 700):
      cmds.append({'op': 'large', 't': t, 'k': k})
    for k in range(-100, 101):
      cmds.append({'op': 'exact', 't': t, 'k': k, 'j': r.rng.randint(2, 23 if t == 'f32' else 52)})
    for a in special if not r.quick else r.rng.sample(special, 40):
      for b in special if not r.quick else r.rng.sample(special, 40):
        cmds.append({'op': 'pow', 't': t, 'x': a, 'y': b})
    for a in (0.0, -0.0, 1.0, -1.0, 2.0, -2.0, .5, -.5, float('inf'), -float('inf'), float('nan'), 3.0, -3.0):
      for b in (0.0, -0.0, 1.0, -1.0, 2.0, .5, -.5, float('inf'), -float('inf'), float('nan'), 3.0):
        cmds.append({'op': 'pow', 't': t, 'x': enc(t, a), 'y': enc(t, b)})
        for c in (0.0, 1.0, -1.0, 30.0, -30.0, float('nan')):
          cmds.append({'op': 'sig3', 't': t, 'x': enc(t, a), 'y': enc(t, b), 'z': enc(t, c)})
    for _ in range(500 if r.quick else 5000):
      cmds.append({'op': 'sig3', 't': t, 'x': r.rng.choice(special), 'y': r.rng.choice(special), 'z': r.rng.choice(special)})
  r.check('Trace_Math', [exe], mbt.each(cmds))
  r.assumptions.append('accuracy is bounded by functional equations in fixed point (about four digits), not to the last place')


mbt.run('C06', main)
