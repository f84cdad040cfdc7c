import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def walk(r, n, length):
  p, q, out = 0, n, []
  for _ in range(length):
    op = r.rng.choice(['add', 'sub', 'plus', 'rplus', 'minus', 'inc', 'dec', 'postinc', 'postdec', 'swap'])
    if op == 'swap':
      p, q = q, p
      out.append({'op': op, 'n': 0})
      continue
    if op in ('inc', 'postinc'): d = 1
    elif op in ('dec', 'postdec'): d = -1
    else: d = r.rng.randint(0, n) - p
    if not 0 <= p + d <= n:
      continue
    p += d
    out.append({'op': op, 'n': -d if op in ('sub', 'minus', 'dec', 'postdec') else d})
  return out


def main(r):
  r.mc('SeqSearch')
  if r.tlc('SeqSearch', 'SeqSearchOld').rc != 12:
    raise mbt.CheckError('the unguarded search is not rejected')
  exe = r.build('drv_seq')
  cmds = r.gen('Gen_SeqSearch')
  for _ in range(1500 if r.quick else 30000):
    n = r.rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 60])
    hi = r.rng.choice([2, 10, 1000])
    cmds.append({'op': 'lb', 's': sorted(r.rng.randint(-hi, hi) for _ in range(n)), 'k': r.rng.randint(-hi - 1, hi + 1)})
  for _ in range(300):
    cmds.append({'op': 'keys', 's': [r.rng.randint(0, 40) for _ in range(r.rng.randint(0, 30))]})
  r.check('Trace_SeqSearch', [exe], mbt.each(cmds))
  walks = r.gen('Gen_Iter')
  if r.quick and len(walks) > 3000:
    walks = r.rng.sample(walks, 3000)
  sess = [(2, w) for w in walks]
  for _ in range(200 if r.quick else 4000):
    n = r.rng.randint(0, 9)
    sess.append((n, walk(r, n, 30)))
  ss = []
  for n, w in sess:
    ss.append([{'op': 'begin', 'kind': r.rng.randint(0, 2), 'len': n}] + w)

  def run(sessions):
    out = r.execute([exe], sessions)
    return [[{'n': s[0]['len'], 'ev': s}] for s in out]

  r.check('Trace_Iter', run, ss, stateful=True)


mbt.run('C04', main)
