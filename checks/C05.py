import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def main(r):
  r.mc('MC_Num', need_actions=False)
  exe = r.build('drv_num')
  base = {}
  for x in r.gen('Gen_Num'):
    base.setdefault(x['t'], []).append(x['a'])
  cmds = []
  width = {'i32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8}
  for t, ops in sorted(base.items()):
    ops = sorted(ops)
    pairs = [(a, b) for a in ops for b in ops]
    if r.quick:
      pairs = r.rng.sample(pairs, 2600) + [(a, a) for a in ops] + [
          (a, b) for a in r.rng.sample(ops, 12) for b in ops]
    for _ in range(400 if r.quick else 6000):
      a = [r.rng.randrange(256) for _ in range(width[t])]
      b = [r.rng.randrange(256) for _ in range(width[t])]
      k = r.rng.random()
      if t[0] == 'f':
        if k < .5:  # fractions around the unit position
          bias, m = (127, 23) if t == 'f32' else (1023, 52)
          e = bias + r.rng.randint(-3, m + 2)
          s = r.rng.randint(0, 1)
          low = r.rng.getrandbits(m)
          if r.rng.random() < .5:
            low &= ~((1 << r.rng.randint(0, m)) - 1)
          a = list(((s << (8 * width[t] - 1)) | (e << m) | low).to_bytes(width[t], 'little'))
      elif k < .3:  # small divisors
        v = r.rng.choice([-3, -2, -1, 1, 2, 3, 7, 10, -10])
        b = list((v % (1 << (8 * width[t]))).to_bytes(width[t], 'little'))
      elif k < .4:
        b = [r.rng.randrange(256) for _ in range(width[t] // 2)] + [0] * (width[t] // 2)
      pairs.append((a, b))
    cmds += [{'op': 'pair', 't': t, 'a': a, 'b': b} for a, b in pairs]
  lim = 13 if r.quick else 45
  for t in ('f32', 'f64'):
    cmds += [{'op': 'quarters', 't': t, 'a': a, 'b': b} for a in range(-lim, lim + 1) for b in range(-lim, lim + 1)]
  strs = [[]] + [[a] for a in (0, 97, 127, 128, 255)] + [
      [a, b] for a in (0, 97, 128, 255) for b in (0, 97, 255)]
  for t in ('str', 'view'):
    cmds += [{'op': 'str', 't': t, 'a': a, 'b': b} for a in strs for b in strs]
  cmds += [{'op': 'bool', 'a': a, 'b': b} for a in (0, 1) for b in (0, 1)]
  r.check('Trace_Num', [exe], mbt.each(cmds))
  r.assumptions.append('float sums, products and quotients of inexact operands are checked by order, sign and special-value relations only')


mbt.run('C05', main)
