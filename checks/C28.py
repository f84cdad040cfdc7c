import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt
BLANK = {'k': 'none', 'i': 0, 'h': [], 'miss': False, 'key': '', 'v': 0, 'vs': [], 'es': [], 'c': -1, 'p': {'t': '', 'x': ''}}


def decode(rng, big):
  """Mostly sensible steps: what is referred to mostly exists and is of the right kind."""
  container = rng.random() < .35
  version = rng.choice([1, 1, 2, 2, 2, 2, 2, -1, 0, 3]) if container else -1
  err = rng.choice([0, 0, .03, .12])
  e = {'op': 'decode', 'via': 'container' if container else 'steps', 'infer': rng.random() < .7, 'version': version,
       'codecs': [], 'outv': [], 'oute': [], 'steps': []}
  codecs, vals, ops, exprs, known = [], [], [], [], []
  uses = {}
  if container and version == 1 or container and rng.random() < .1:
    e['codecs'] = [rng.choice('ABO') for _ in range(rng.randint(0, 3))] if rng.random() > .1 else rng.sample('ABOX', 2)
    codecs = [(i, x) for i, x in enumerate(e['codecs'])]
  nxt = len(codecs) if container and rng.random() < .1 and not err else 0
  n = rng.randint(2, 18 if big else 12)
  codec_at = {}
  two = not container and rng.random() < .4   # codecs numbered on their own
  nc = 0
  for j in range(n):
    s = dict(BLANK, p={'t': '', 'x': ''})
    def pick(l):
      if rng.random() < err: return rng.choice([0, 1, nxt, nxt + 1, 99])
      if not l: return rng.randint(0, max(nxt - 1, 0))
      r = rng.choice(l[-3:] if rng.random() < .5 else l)
      uses[r] = uses.get(r, 0) + 1
      return r
    k = rng.choice(['leaf', 'leaf', 'ph', 'lit', 'lit', 'op', 'op', 'op', 'val', 'val', 'val', 'val', 'codec', 'outv', 'oute', 'outv', 'oute', 'none'])
    if not codecs and rng.random() < .7 or (j < 3 and rng.random() < .6): k = 'codec'
    if k == 'op' and not ops and rng.random() > err: k = 'val'
    if k == 'lit' and not vals: k = 'val'
    if k == 'oute' and not exprs: k = 'leaf'
    if k == 'outv' and not vals + ops: k = 'leaf'
    if k == 'none' and rng.random() < .6: k = 'val'
    s['k'] = k
    s['miss'] = k in ('leaf', 'ph', 'lit', 'op') and rng.random() < err / 2
    here = j if container else nxt
    if not container and rng.random() < err: here = rng.choice([0, nxt, max(nxt - 1, 0), nxt + 1])
    if two and k == 'codec': here = nc
    if k == 'codec':
      s['key'] = rng.choice('ABO' if rng.random() > err else 'X')
      codecs.append((here, s['key'])); nc += 1
    if k in ('leaf', 'ph'): s['key'] = rng.choice('xyz')
    if k == 'lit': s['v'] = pick(vals + ops)
    if k == 'op':
      op = None
      s['v'] = pick(ops)
      name = next((x for i, x in codec_at.items() if i == s['v']), 'v')
      a = {'f1': 1, 'g2': 2}.get(name, rng.randint(0, 3))
      if rng.random() < err: a = rng.randint(0, 3)
      s['es'] = [pick(exprs) for _ in range(a)] if exprs or rng.random() < err else []
    if k == 'val':
      t = rng.choice('iiijtttu' if rng.random() < err + .02 else 'iiijttt')
      x = rng.choice(['f1', 'g2', 'v']) if t == 't' else str(rng.choice([-1, 5, 6]) if rng.random() < .1 else rng.randint(0, 9))
      s['p'] = {'t': t, 'x': x}
      if t != 't':
        s['vs'] = [pick(vals + ops) for _ in range(rng.choice([0, 0, 1, 2]))] if vals + ops else []
        s['es'] = [pick(exprs) for _ in range(rng.choice([0, 0, 0, 1, 2]))] if exprs else []
      fit = [i for i, c in codecs if c in {'i': 'AB', 'j': 'B', 't': 'O'}.get(t, '')]
      if rng.random() < .5 and fit: s['c'] = rng.choice(fit)
      if rng.random() < err: s['c'] = rng.choice([0, 1, 2, 99])
      if not fit and rng.random() > err:
        if container and version == 1: s['k'] = 'leaf'; s['key'] = 'x'; s['vs'], s['es'] = [], []; s['p'] = {'t': '', 'x': ''}; k = 'leaf'
        else: s = dict(BLANK, k='codec', key={'i': 'A', 'j': 'B', 't': 'O'}.get(t, 'A'), p={'t': '', 'x': ''}); k = 'codec'; here = nc if two else here; codecs.append((here, s['key'])); nc += 1
      elif t == 't': codec_at[here] = x
    if k in ('outv', 'oute'):
      s['v'] = pick(vals + ops if k == 'outv' else exprs)
      if not container: here = rng.choice([0, here])
    s['i'] = here
    e['steps'].append(s)
    if k in ('leaf', 'ph', 'lit', 'op'): exprs.append(here)
    if k == 'val': (ops if s['p']['t'] == 't' else vals).append(here)
    if container: nxt = j + 1
    elif here == nxt and not (two and k == 'codec') and k not in ('outv', 'oute', 'none'): nxt += 1
    elif two and k == 'codec' and here == nxt: nxt += 0
  if container and (version == 1 or rng.random() < .1):
    e['outv'] = [rng.choice(vals + ops) for _ in range(rng.randint(0, 2))] if vals + ops else []
    e['oute'] = [rng.choice(exprs) for _ in range(rng.randint(0, 2))] if exprs else []
    if rng.random() < err: e['oute'].append(rng.randint(0, 9))
  # counts: exact, or too high or low somewhere; at the first step, or later
  if rng.random() < .5 and e['steps']:
    for o in e['outv'] + e['oute']: uses[o] = uses.get(o, 0) + 1
    m = max(list(uses) + [nxt]) + 1
    h = [uses.get(i, rng.choice([1, 1, 1, 2, 0])) for i in range(min(m, 40))]
    for i in range(len(h)):
      if rng.random() < .03: h[i] = max(0, h[i] + rng.choice([1, 1, -1]))
    if rng.random() < .3: h = h[:rng.randint(0, len(h))]
    at = 0 if rng.random() < .7 else rng.randrange(len(e['steps']))
    e['steps'][at]['h'] = h
    if rng.random() < .05: e['steps'][rng.randrange(len(e['steps']))]['h'] = h
  return e


def encode(rng, big):
  ns = []
  vals, exprs = [], []
  small = rng.random() < .5
  for j in range(1, rng.randint(2, 14 if big else 9) + 1):
    k = rng.choice(['val', 'val', 'val', 'opv', 'leaf', 'leaf', 'ph', 'lit', 'op', 'op', 'op'])
    if k == 'lit' and not vals: k = 'val'
    if k == 'op' and not exprs: k = 'leaf'
    n = {'k': k, 'x': '', 'vs': [], 'es': []}
    recent = lambda l: rng.choice(l[-3:])
    if k == 'val':
      n['x'] = str(rng.randint(0, 1 if small else 9))
      n['vs'] = [recent(vals) for _ in range(rng.choice([0, 1, 2]))] if vals else []
      n['es'] = [recent(exprs) for _ in range(rng.choice([0, 0, 1, 2]))] if exprs else []
    if k in ('opv', 'op'): n['x'] = rng.choice(['f1', 'g2', 'v'])
    if k in ('leaf', 'ph'): n['x'] = rng.choice('xy')
    if k == 'lit': n['vs'] = [recent(vals)]
    if k == 'op': n['es'] = [recent(exprs) for _ in range({'f1': 1, 'g2': 2}.get(n['x'], rng.randint(0, 3)))]
    ns.append(n)
    (vals if k in ('val', 'opv') else exprs).append(j)
  m = len(ns)
  outs = [rng.randint(max(1, m - 4), m) if rng.random() < .7 else rng.randint(1, m) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
  return {'op': 'encode', 'two': rng.random() < .4, 'ns': ns, 'outs': outs}


def size(ns, outs):
  """Unfolded size, to keep the terms short."""
  z = []
  for n in ns: z.append(1 + sum(z[i - 1] for i in n['vs'] + n['es']))
  return max([z[o - 1] for o in outs] + [0])

SCALARS = ['unit', 'bool', 'bytes', 'text', 'i32', 'i64', 'u64', 'f32', 'f64']


def term(t, **kw): return dict({'t': t, 's': '', 'x': '', 'n': 0, 'xs': [], 'f': [], 'es': [], 'of': [], 'd': ''}, **kw)


class Terms:
  """Values and expressions of the library."""
  def __init__(self, rng): self.rng = rng

  def lit(self, s):
    r = self.rng
    if s == 'unit': return ''
    if s == 'bool': return r.choice('01')
    if s == 'bytes': return r.choice(['', '00', 'ff00fe', '61', '6162', '2e', bytes(r.randrange(256) for _ in range(r.randint(1, 40))).hex()])
    if s == 'text': return r.choice(['', 'a', 'ab', '\0', '\u00e9', '\U0001f600x', 'x' * r.randint(1, 40), '~', '"']).encode().hex()
    if s == 'i32': return str(r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randint(-99, 99)]))
    if s == 'i64': return str(r.choice([0, 1, -1, 2**63 - 1, -2**63, 2**31, -2**31 - 1, 2**53 + 1, r.randint(-99, 99)]))
    if s == 'u64': return str(r.choice([0, 1, 2**64 - 1, 2**63, 2**32, r.randint(0, 99)]))
    if s == 'f32': return struct.pack('<I', r.choice([0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x3f800000, 0x007fffff, 0x7f7fffff, r.getrandbits(23) | 0x40000000])).hex()
    return struct.pack('<Q', r.choice([0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 1, 0x3ff << 52, (1 << 52) - 1, (0x7ff << 52) - 1, r.getrandbits(52) | 1 << 62, 0x3fb999999999999a])).hex()

  def lits(self, s):
    r = self.rng
    n = r.choice([0, 1, 2, 3, 5, 8, 31, 32, 33, 40, 65]) if r.random() < .5 else r.randint(0, 6)
    p = r.choice([0, .3, .7, 1])
    if r.random() < .15: return [self.lit(s)] * n
    return ['~' if r.random() < p else self.lit(s) for _ in range(n)]

  def value(self, d=2):
    r = self.rng
    k = r.choice(['s', 's', 's', 'o', 'o', 'k', 'd', 'd', 'd', 'a', 'a', 'a', 'de', 'ae', 'one', 'qt', 'qt'] + (['tup', 'tup', 'nt', 'nt', 'sl', 'q', 'op', 'op'] if d else []))
    if k == 's': s = r.choice(SCALARS + ['wf']); return term('s', s=s, x=self.lit(s))
    if k == 'o': s = r.choice(SCALARS + ['wf']); return term('o', s=s, x='~' if r.random() < .4 else self.lit(s))
    if k == 'k': return term('k', s=r.choice(['sshape', 'oshape', 'sedge', 'unspec']))
    if k in 'da': s = r.choice(SCALARS); return term(k, s=s, xs=self.lits(s))
    if k in ('de', 'ae'):
      if r.random() < .5:
        xs = sorted(r.randint(0, 9) for _ in range(r.randint(0, 5)))
        return term(k, s='split', xs=['0'] + [str(x) for x in xs])
      n = r.randint(1, 5)
      return term(k, s='map', n=n, xs=['~' if r.random() < .3 else str(r.randrange(n)) for _ in range(r.choice([0, 1, 4, 33]))])
    if k == 'one': return term(r.choice(['dts', 'ats', 'dsh', 'ash']), n=r.choice([0, 1, 7, 2**31 - 1]))
    if k == 'qt': return term('qt', of=[self.value(max(d - 1, 0))])
    if k == 'q': return term('q', es=[self.expr(d - 1)])
    if k == 'op': return self.op(d - 1)[0]
    if k == 'sl': return term('sl', f=[self.value(d - 1) for _ in range(3)])
    f = [self.value(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    if len(f) > 1 and r.random() < .3: f[-1] = f[0]
    return term('nt', xs=r.sample(['a', 'b', 'c1', 'long_name'], len(f)), f=f) if k == 'nt' else term('tup', f=f)

  def op(self, d):
    """An operator and its number of arguments (-1: any)."""
    r = self.rng
    k = r.choice(['tuple', 'tuple', 'nth', 'reg', 'lambda', 'lambda', 'over', 'dummy']) if d > 0 else r.choice(['tuple', 'nth', 'reg', 'dummy'])
    if k == 'tuple': return term('op', s=k), -1
    if k == 'nth': return term('op', s=k, n=r.choice([0, 1, 5])), 1
    if k == 'reg': return term('op', s=k, x='verif.id'), 1
    if k == 'over': return term('op', s=k, x=r.choice(['o', 'm.over']), f=[self.op(0)[0] for _ in range(r.randint(1, 2))]), 0 if False else None
    ps = r.sample(['x', 'y', 'z', 'arg_1'], r.randint(1, 3))
    many = r.random() < .25
    free = len(ps) - many
    f = [self.value(0) for _ in range(r.randint(0, free))]
    out = term('op', s=k, x=r.choice(['l', 'm.lam', 'anonymous.lambda']), d=r.choice(['', '', 'doc', 'two\nlines']), n=int(many), xs=ps, f=f)
    if k == 'dummy': out['of'] = [self.value(0)]
    else: out['es'] = [self.expr(d - 1, ps)]
    return out, None if many else len(ps)

  def expr(self, d, ph=None):
    r = self.rng
    k = r.choice(['leaf', 'ph', 'lit'] + (['node', 'node', 'node', 'node'] if d > 0 else []))
    if k == 'leaf' and ph is not None: k = 'ph'
    if k == 'leaf': return term('leaf', x=r.choice(['x', 'y', 'a b', '']))
    if k == 'ph': return term('ph', x=r.choice(ph if ph is not None else ['x', 'p', 'q.r']))
    if k == 'lit': return term('lit', f=[self.value(0)])
    while True:
      op, n = self.op(d - 1)
      if n is None or op['s'] == 'nth': continue
      es = [self.expr(d - 1, ph) for _ in range(n if n >= 0 else r.randint(0, 3))]
      if len(es) > 1 and r.random() < .4: es[-1] = es[0]
      return term('node', f=[op], es=es)

  def event(self):
    r = self.rng
    return {'op': 'trip', 'vals': [self.value() for _ in range(r.choice([0, 1, 1, 2]))], 'exprs': [self.expr(r.choice([1, 2, 3])) for _ in range(r.choice([0, 0, 1, 2]))],
            'off': r.choice([0, 0, 1, 5, 31, 33]), 'form': r.randrange(4), 'cut': r.randrange(1000)}


def main(r):
  rng = r.rng
  r.mc('MC_Serial', 'MC_Serial' if r.quick else 'MC_Serial_thorough', cover=False)
  ev = []
  for _ in range(9000 if r.quick else 150000): ev.append(decode(rng, rng.random() < .3))
  for _ in range(3000 if r.quick else 50000):
    e = encode(rng, rng.random() < .3)
    if size(e['ns'], e['outs']) <= 60: ev.append(e)
  r.check('Trace_Serial', [r.build('drv_serial')], mbt.each(ev))
  t = Terms(rng)
  r.check('Trace_Codecs', [r.build('drv_codecs')], mbt.each([t.event() for _ in range(2500 if r.quick else 40000)]))


mbt.run('C28', main)
