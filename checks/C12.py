import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import drivers, mbt, paths, vb

BASE = drivers.PATH
BAD = ['', 'a b', '1a', 'a[x]', 'a[-1]', 'a[]', 'a.b', 'a[:', '@key', 'a@key', 'a[:]@foo', "a['']", 'a[""]', '&&', '**', '&::', '&::a b', 'a[0', 'count()', 'count(a)', 'count(a[0])', 'a+b', 'a[0:2]', 'é b']


def multi(es):
  return any(e['k'] in ('rep', 'keys', 'vals', 'root') for e in es)


def is_size(es):
  return es[-1]['k'] == 'size'


def ctype(rng, t, mode):
  # (std::string(Text) needs absl built with std::string_view)
  if t in ('string', 'bytes') and mode != 'mut' and rng.random() < .5:
    return '::arolla::Text'
  if t in ('int32', 'sint32') and rng.random() < .15:
    return 'int64_t'
  if t == 'float' and rng.random() < .3:
    return 'double'
  return ''


def declare(i, rng, p, mode):
  es, t = p['es'], p['t']
  ct = ctype(rng, t, mode)
  c = dict(op='decl', id=i, root=p['root'], es=es, t=t, mode=mode, arr=multi(es) or is_size(es) or rng.random() < .5, ct=ct,
           wild=any(e['k'] == 'wild' for e in es), input=paths.cpp(p['root']) if rng.random() < .5 else '')
  if mode == 'def':
    base = {'string': '::arolla::Bytes', 'bytes': '::arolla::Bytes', 'bool': 'bool', 'float': 'float', 'double': 'double', 'uint64': 'uint64_t', 'fixed64': 'uint64_t'}
    if not ct:
      c['dtype'] = base.get(t) or ('int64_t' if t in ('int64', 'sint64', 'sfixed64', 'uint32', 'fixed32') else 'int32_t')
    else:
      c['dtype'] = ct
    c['ct'] = c['dtype']
    if t in ('string', 'bytes'):
      c['dflt'], c['dflt_cpp'] = [100], c['dtype'] + '("d")'
    elif t == 'bool':
      c['dflt'], c['dflt_cpp'] = 1, 'true'
    else:
      c['dflt'], c['dflt_cpp'] = 57, '57'
  c['text'] = paths.text(es, rng)
  c['chars'] = [ord(x) for x in c['text']]
  return c


def can_mutate(S, p):
  es = p['es']
  ks = {e['k'] for e in es}
  if ks & {'keys', 'addr', 'wild'} or es[-1]['k'] in ('rep', 'vals', 'root'):
    return False
  if is_size(es):
    if not multi(es) or es[-1]['m']['k'] == 'root':
      return False
    return sizable(S, p)
  return True


def sizable(S, p):
  t = p['root']
  for e in p['es'][:-1]:
    t = paths.step_type(S, t, e)
  s = S[t][p['es'][-1]['m']['f']]
  return s['c'] == 'rep' and (s['t'] in S or s['t'] in ('string', 'bytes'))


def function(c, body):
  root, es, m = paths.cpp(c['root']), c['es'], multi(c['es'])
  if c['mode'] == 'mut':
    call = 'PutMeta'
  elif c['wild']:
    call = 'GetFacKey' if m else 'GetOutKey'
  elif m:
    call = 'GetFac'
  else:
    call = 'GetRet' if is_size(es) else 'GetOut'
  return '#line 1 "acc_%d"\nvoid F%d(json& e) { %s<%s>(e, %s); }\n#line 1 "acc_%d"\nReg R%d("%d", &F%d);\n' % (c['id'], c['id'], call, root, body, c['id'], c['id'], c['id'], c['id'])


def count(S, t, v, es):
  """Number of values a write through es may take (only to choose lengths)."""
  cur = [(t, v)]
  for e in es:
    nxt = []
    for t, v in cur:
      if e['k'] == 'size':
        nxt.append((t, v)); continue
      u = paths.step_type(S, t, e)
      f = ('x:' if e['k'] == 'ext' else '') + e.get('f', '')
      x = None
      if v is not None:
        if e['k'] == 'root': nxt += [(u, y) for y in v]; continue
        if e['k'] == 'rep': nxt += [(u, y) for y in v.get(f, [])]; continue
        if e['k'] == 'vals': nxt += [(u, y[1]) for y in v.get(f, [])]; continue
        if e['k'] in ('reg', 'st', 'ext'): x = v.get(f)
        elif e['k'] == 'idx': x = (v.get(f, []) + [None] * 9)[e['i']]
        elif e['k'] == 'mapk': x = dict((bytes(a), b) for a, b in v.get(f, [])).get(bytes(e['key']))
        elif e['k'] == 'deref': x = v[0] if v else None
      elif e['k'] in ('root', 'rep', 'vals'):
        continue
      nxt.append((u, x))
    cur = nxt
  return len(cur)


def build(r, accs, adir, rsrcs):
  """Compiles the generated accessors; the ones that do not compile are reported."""
  texts = {c['id']: open(os.path.join(adir, '%d.txt' % c['id'])).read() for c in accs}
  failed = {}
  per = 24
  while True:
    live = [c for c in accs if c['id'] not in failed]
    srcs = []
    for k in range(0, len(live), per):
      name = 'gen:verif/path/acc%d.cc' % (k // per)
      vb._write(os.path.join(vb.GEN, name[4:]), '#include "verif_path/path.h"\nnamespace verif { namespace {\n%s}}\n' % ''.join(function(c, texts[c['id']]) for c in live[k:k + per]))
      srcs.append(name)
    try:
      return r.build('drv_path', BASE + srcs + rsrcs), failed
    except mbt.CheckError as e:
      ids = {int(x) for x in re.findall(r'acc_(\d+):', str(e))}
      if not ids and re.search(r'\bpath/(render/r\d+|acc\d+)\S*', str(e)):
        return None, {'render': str(e)}
      if not ids - set(failed) or len(failed) > 40:
        raise
      failed.update({i: str(e)[:1500] for i in ids})


# ------------------------------------------------ rendered loaders and listeners
HDRS = ['verif_path/load.h']
ODD = ['', 'é', '\\', 'q"', ' ', 'x/', '/', '字']


def key_of(a):
  return tuple(json.dumps(e, sort_keys=True) for e in a['es'])


def clash(S, root, p, q):
  """May the results of writing through both depend on more than the sizes-first order?"""
  a, b = p['es'], q['es']
  i, t = 0, root
  while i < len(a) and i < len(b) and a[i] == b[i]:
    t = paths.step_type(S, t, a[i])
    i += 1
  if i == len(a) or i == len(b):
    return True
  fld = lambda e: ('x:' if e['k'] == 'ext' else '') + (e['m'].get('f', '') if e['k'] == 'size' else e.get('f', ''))
  x, y = a[i], b[i]
  if t in S and fld(x) != fld(y):
    sx, sy = S[t].get(fld(x), {}), S[t].get(fld(y), {})
    return 'oo' in sx and sx['oo'] == sy.get('oo')
  ks = {x['k'], y['k']}
  return not (ks <= {'rep', 'size'} or ks == {'idx'} or ks == {'mapk'})


def grow(S, t, v, es, vals):
  """Applies the sizes (only to choose the lengths of values)."""
  vals = list(vals)

  def go(t, v, es):
    e = es[0]
    if v is None:
      return
    if e['k'] == 'size':
      f = e['m'].get('f')
      x = vals.pop(0) if vals else []
      if x:
        old = v.get(f, [])
        v[f] = (old + [{} if S[t][f]['t'] in S else []] * x[0])[:x[0]]
        v[f] = [json.loads(json.dumps(y)) for y in v[f]]
        if not v[f]:
          del v[f]
      return
    u = paths.step_type(S, t, e)
    f = ('x:' if e['k'] == 'ext' else '') + e.get('f', '')
    if e['k'] == 'root':
      for y in v: go(u, y, es[1:])
    elif e['k'] == 'rep':
      for y in v.get(f, []): go(u, y, es[1:])
    elif e['k'] == 'vals':
      for y in v.get(f, []): go(u, y[1], es[1:])
    elif e['k'] == 'idx':
      xs = v.get(f, [])
      if e['i'] < len(xs): go(u, xs[e['i']], es[1:])
    elif e['k'] == 'deref':
      if v: go(u, v[0], es[1:])
    elif e['k'] == 'st':
      go(u, v[f], es[1:])
    elif multi(es):
      if e['k'] == 'mapk':
        for y in v.get(f, []):
          if y[0] == e['key']: go(u, y[1], es[1:])
      elif f in v:
        go(u, v[f], es[1:])
    else:
      if e['k'] == 'mapk':
        ps = v.setdefault(f, [])
        hit = [y for y in ps if y[0] == e['key']]
        if not hit:
          hit = [[e['key'], {}]]
          ps += hit
        go(u, hit[0][1], es[1:])
      else:
        go(u, v.setdefault(f, {}), es[1:])
  go(t, v, es)


def default_name(es):
  """The name TLC computes as NameOf (it checks that this is the same)."""
  res = '/'
  add = lambda n, x: n + x if n == '/' else n + '/' + x
  for e in es:
    k = e['k']
    if k in ('reg', 'rep', 'st'): res = add(res, e['f'])
    elif k == 'ext': res = add(res, 'Ext::' + e['f'])
    elif k in ('keys', 'vals'): res = add(add(res, e['f']), '@key' if k == 'keys' else '@value')
    elif k == 'idx': res = add(res, '%s[%d]' % (e['f'], e['i']))
    elif k == 'mapk': res = add(res, '%s["%s"]' % (e['f'], ''.join(map(chr, e['name']))))
    elif k == 'wild': res = add(res, '%s["%%s"]' % e['f'])
    elif k == 'size': res = add(res if 'f' not in e['m'] else add(res, e['m']['f']), '@size')
  return res


def cps(s):
  return [ord(c) for c in s]


def unit(rng, S, pool, i, kind, n):
  """A loader or listener of some related paths."""
  root = rng.choice(['M2', 'M2', 'M2', 'M3', 'Node', 'Node', 'vec:M2', 'vec:Node'])
  cand = [p for p in pool if p['root'] == root and not p['t'].startswith('ptr:') and not any(e['k'] == 'addr' for e in p['es'])]
  lst, wild = kind == 'listener', kind == 'wild'
  if lst:
    cand = [p for p in cand if can_mutate(S, p)]
  if wild:
    cand = [p for p in cand if any(e['k'] == 'wild' for e in p['es'])]
  elif rng.random() < .6 or lst:
    cand = [p for p in cand if not any(e['k'] == 'wild' for e in p['es'])]
  if not cand:
    return unit(rng, S, pool, i, kind, n)
  # paths that share beginnings are the interesting ones
  firsts = {}
  for p in cand:
    firsts.setdefault(json.dumps(p['es'][0]), []).append(p)
  focus = rng.sample(sorted(firsts), min(len(firsts), rng.choice([1, 2, 3, 5])))
  near = [p for f in focus for p in firsts[f]]
  accs, names = [], set()
  for _ in range(n * 4):
    if len(accs) >= n:
      break
    p = rng.choice(near if rng.random() < .8 else cand)
    if lst and any(clash(S, root, p, q) for q in accs):
      continue
    a = dict(es=p['es'], t=p['t'], ct='' if is_size(p['es']) else ctype(rng, p['t'], 'mut' if lst else 'get'), mode='mut' if lst else 'get')
    isw = any(e['k'] == 'wild' for e in p['es'])
    pat = '%s' if isw else ''
    name = '' if rng.random() < .5 else '%s%s%d%s' % (rng.choice(ODD), pat, len(accs), rng.choice(ODD))
    full = name or default_name(p['es'])
    if full in names or (name and name.count('%') != len(pat) // 2):
      continue
    names.add(full)
    a.update(gen='wild' if isw else 'proto', path=paths.text(p['es'], rng), name=cps(name), fname=full)
    accs.append(a)
  if kind == 'loader' and root == 'Node' and rng.random() < .7:
    for f, t in rng.sample([('x', 'int32'), ('flag', 'bool'), ('d', 'double'), ('big', 'int64')], 2):
      accs.append(dict(es=[{'k': 'st', 'f': f}], t=t, ct='', mode='raw', gen='path', path='.' + f, name=cps('raw ' + f), fname='raw ' + f))
  rng.shuffle(accs)
  pats = [a['fname'].split('%s') for a in accs if a['gen'] == 'wild']
  # a name that a wildcard also denotes would be declared twice
  hit = lambda n, p: n.startswith(p[0]) and n.endswith(p[1]) and len(n) >= len(p[0]) + len(p[1])
  accs = [a for a in accs if a['gen'] == 'wild' or not any(hit(a['fname'], p) for p in pats)]
  return dict(kind=kind, root=root, accs=accs, cls=paths.cpp(root), fn='::verif::gen%d::Get%s%d' % (i % 3, kind.capitalize(), i), hdrs=HDRS,
              shards=rng.choice([0, 0, 1, 2, 3, 5]) if not wild else 0)


def files(rng, units):
  res = []
  for kind in ('loader', 'listener', 'wild'):
    us = [u for u in units if u['kind'] == kind]
    while us:
      k = 1 if kind != 'wild' and rng.random() < .4 else rng.choice([2, 3, 4])
      if kind == 'wild':
        k = max(i for i in range(1, len(us) + 1) if len({u['root'] for u in us[:i]}) == 1)
      part, us = us[:k], us[k:]
      n = len(res)
      main = {'loader': 'input_loader_main', 'listener': 'slot_listener_main'}[kind] if k == 1 and kind != 'wild' else {'loader': 'input_loader_set', 'listener': 'slot_listener_set', 'wild': 'wildcard_input_loaders_main'}[kind]
      res.append(dict(main=main, units=part, file='r%d' % n, target='//verif/path/render%d:r%d' % (n, n), max_shards=max([u['shards'] for u in part] + [1])))
  return res


def render(r, S, pool):
  """Renders the files through the mains and returns (cc sources, registrations)."""
  rng = r.rng
  units = [unit(rng, S, pool, i, kind, rng.choice([1, 4, 9, 14, 20])) for i, kind in
           enumerate(['loader'] * (12 if r.quick else 48) + ['listener'] * (8 if r.quick else 32))]
  for _ in range(2 if r.quick else 8):
    root = rng.choice(['M2', 'Node'])
    ws = [u for u in (unit(rng, S, pool, 100 + 10 * len(units) + j, 'wild', 1) for j in range(6)) if u['root'] == root and u['accs']]
    units += ws
  units = [u for u in units if u['accs']]
  fs = files(rng, units)
  rdir = os.path.join(vb.GEN, 'verif/path/render')
  os.makedirs(rdir, exist_ok=True)
  for f in os.listdir(rdir):
    os.unlink(os.path.join(rdir, f))
  cmds = []
  for f in fs:
    cmds.append(dict(op='render', main=f['main'], file=f['file'], target=f['target'], max_shards=f['max_shards'],
                     units=[dict(fn=u['fn'], cls=u['cls'], hdrs=u['hdrs'], shards=u['shards'],
                                 accs=[dict(gen=a['gen'], path=a['path'], name=''.join(map(chr, a['name'])), ct=a['ct']) for a in u['accs']]) for u in f['units']]))
  r.check('Trace_Path', mbt.pydrv('drv_path'), mbt.each(cmds), env={'RENDER_DIR': rdir})
  srcs = ['gen:verif/path/render/' + f for f in sorted(os.listdir(rdir)) if f.endswith('.cc') and os.path.getsize(os.path.join(rdir, f))]
  reg = '#include "verif_path/load.h"\n' + ''.join('#include "verif/path/render/%s.h"\n' % f['file'] for f in fs) + 'namespace verif { namespace {\n'
  for f in fs:
    for u in f['units']:
      call = '*%s()' % u['fn'] if u['kind'] != 'wild' else '**%s()' % u['fn']
      reg += 'Reg R%s("%s", +[](json& e) { %s(e, %s); });\n' % (u['fn'].replace(':', '_'), u['fn'], 'Listen' if u['kind'] == 'listener' else 'Load', call)
      if u['kind'] == 'loader' and u['shards'] > 1 and len(u['accs']) > 1 and not any(a['gen'] == 'wild' for a in u['accs']):
        reg += 'Reg S%s("%s#", +[](json& e) { Names(e, %s_Shards()); });\n' % (u['fn'].replace(':', '_'), u['fn'], u['fn'])
        u['sharded'] = True
  vb._write(os.path.join(vb.GEN, 'verif/path/reg.cc'), reg + '}}\n')
  return srcs + ['gen:verif/path/reg.cc'], fs


def want_of(rng, u, k):
  res, seen = [], set()
  for i in rng.sample(range(len(u['accs'])), min(k, len(u['accs']))):
    a = u['accs'][i]
    for _ in range(2 if a['gen'] == 'wild' else 1):
      w = dict(a=i + 1, n=a['fname'])
      if a['gen'] == 'wild':
        key = rng.choice(paths.KEYS + ['', 'zz'])
        w.update(key=list(key.encode()), kname=cps(key), n=a['fname'].replace('%s', key, 1))
      if w['n'] not in seen:
        seen.add(w['n'])
        res.append(dict(w, n=cps(w['n'])))
  if rng.random() < .15:
    w = rng.choice([x for x in ['no', '', '/f_int33', 'é'] if x not in [a['fname'] for a in u['accs']] and not any(a['gen'] == 'wild' for a in u['accs'])] or ['@@'])
    if w not in seen:
      res.append(dict(a=0, n=cps(w)))
  rng.shuffle(res)
  return res


def accs_of(u):
  return [{k: a[k] for k in ('es', 't', 'ct', 'mode', 'name')} for a in u['accs']]


def runs(r, S, fs):
  rng = r.rng
  out = []
  for f in fs:
    for u in f['units']:
      es = lambda: rng.choice(u['accs'])['es']
      tree = lambda: paths.tree(rng, S, u['root'], p=rng.choice([.15, .5, .8]), depth=4, focus=es())
      base = dict(fn=u['fn'], root=u['root'], accs=accs_of(u))
      if u.get('sharded'):
        out.append(dict(base, op='shards', fn=u['fn'] + '#', count=u['shards']))
      for j in range(8 if r.quick else 40):
        want = want_of(rng, u, rng.choice([1, 2, 5, 30]))
        if rng.random() < .04:
          rng.choice(want)['as'] = 1
        if u['kind'] != 'listener':
          c = dict(base, op='load', want=want, vs=[tree() for _ in range(rng.choice([1, 2, 3]))], arena=rng.random() < .3)
          if not any(a['gen'] == 'wild' for a in u['accs']):
            c['partial'] = rng.random() < .2 and not any('as' in w for w in want)
          out.append(c)
          continue
        v = tree()
        w2 = json.loads(json.dumps(v))
        phase = lambda w: 1000 if not is_size(u['accs'][w['a'] - 1]['es']) else len(u['accs'][w['a'] - 1]['es']) if multi(u['accs'][w['a'] - 1]['es']) else 0
        touched = 0
        for w in sorted([w for w in want if w['a']], key=phase):
          a = u['accs'][w['a'] - 1]
          e = a['es']
          val = lambda: rng.choice([0, 1, 2, 3]) if is_size(e) else paths.scalar(rng, a['t'])
          if multi(e):
            n = count(S, u['root'], w2, e)
            if rng.random() < .03:
              n = max(0, n + rng.choice([-1, 1]))
            w['val'] = [[val()] if rng.random() < .75 else [] for _ in range(n)]
            if is_size(e):
              grow(S, u['root'], w2, e, w['val'])
          elif is_size(e):
            w['val'] = val()
            grow(S, u['root'], w2, e, [[w['val']]])
          else:
            w['val'] = [val()] if touched > 5 or rng.random() < .7 else []
            touched += not w['val']
        out.append(dict(base, op='listen', want=want, v=v, how=rng.choice([0, 1, 2])))
  return out


def main(r):
  rng = r.rng
  S = paths.schema()
  sfile, kfile, adir = r.path('schema.json'), r.path('keys.json'), r.path('acc')
  os.makedirs(adir)
  json.dump(S, open(sfile, 'w'))
  json.dump([{'name': [ord(x) for x in k], 'key': list(k.encode())} for k in rng.sample(paths.KEYS, 2)], open(kfile, 'w'))
  env = {'SCHEMA': sfile, 'KEYS': kfile}
  drv = mbt.pydrv('drv_path')
  all_paths = r.gen('Gen_Path', env=dict(env, DEPTH=3 if r.quick else 4))
  # ---- a sample with every combination of step kinds
  def shape(p):
    return (p['root'], p['t'] if len(p['es']) < 3 else '', tuple(e['k'] for e in p['es']), p['es'][0].get('f') if len(p['es']) == 1 else '')
  rng.shuffle(all_paths)
  chosen, seen = [], set()
  limit = 230 if r.quick else 2500
  for p in sorted(all_paths, key=lambda p: len(p['es'])):
    if shape(p) in seen:
      continue
    seen.add(shape(p))
    chosen.append(p)
  short = [p for p in chosen if len(p['es']) == 1]
  rest = [p for p in chosen if len(p['es']) > 1]
  rng.shuffle(rest)
  deep = paths.splices(rng, S, all_paths, 120 if r.quick else 1500)
  chosen = short + rest[:limit - len(short)] + deep
  accs = []
  for p in chosen:
    modes = ['get']
    if not multi(p['es']) and not is_size(p['es']) and not p['t'].startswith('ptr:') and rng.random() < .15:
      modes.append('def')
    if can_mutate(S, p) and rng.random() < (.5 if r.quick else 1):
      modes.append('mut')
    for m in modes:
      accs.append(declare(len(accs), rng, p, m))
  cmds = list(accs)
  # ---- declarations only: every path, every mode, malformed texts
  for p in all_paths if not r.quick else rng.sample(all_paths, 700):
    mode = rng.choice(['parse', 'get', 'mut', 'parse'])
    c = declare(-1, rng, p, mode)
    if rng.random() < .2:
      c['wild'] = not c['wild']
    if rng.random() < .2 and not (is_size(p['es']) and not multi(p['es']) and mode == 'get'):
      c['arr'] = False
    cmds.append(c)
  for i in range(250):
    p = rng.choice(all_paths)
    es = [dict(e) for e in p['es']]
    k = rng.random()
    if k < .7:
      es.insert(rng.randint(0, len(es)), {'k': 'bad', 's': rng.choice(BAD)})
    elif k < .85:
      es.insert(rng.randint(0, len(es) - 1), {'k': 'size', 'm': {'k': 'rep', 'f': 'a'}})
    else:
      es.insert(rng.randint(0, len(es)), {'k': 'wild', 'f': 'map_sub'})
    t = paths.text(es, None)
    if es[0].get('s') == '' and len(es) == 1:
      continue
    if es[0]['k'] == 'bad' and es[0]['s'] == '':
      t = '/' + t  # a single leading slash is allowed
    if es[0]['k'] == 'bad' and es[0]['s'].startswith('@') or re.search('/@', t):
      continue
    wild = any(e['k'] == 'wild' for e in es)
    cmds.append(dict(op='decl', id=-1, root=p['root'], es=es, t=p['t'], mode='parse', arr=True, ct='', wild=wild, input='', text=t, chars=[ord(x) for x in t]))
  r.check('Trace_Path', drv, mbt.each(cmds), env=dict(env, ACC_DIR=adir))

  have = [c for c in accs if os.path.exists(os.path.join(adir, '%d.txt' % c['id']))]
  rsrcs, fs = render(r, S, all_paths)
  exe, failed = build(r, have, adir, rsrcs)
  if 'render' in failed:
    r.validate('Trace_Path', [[dict(op='compile', ok=False, what=failed['render'][:3000])]], env=env)
    return
  if failed:
    r.validate('Trace_Path', [[dict(op='compile', ok=False, what=w, **{k: v for k, v in c.items() if k != 'op'})] for c in have for i, w in failed.items() if c['id'] == i][:3], env=env)
  run = []
  for c in have:
    if c['id'] in failed:
      continue
    for j in range(12 if r.quick else 40):
      v = paths.tree(rng, S, c['root'], p=rng.choice([.15, .5, .8]), depth=max(4, len(c['es'])), focus=c['es'])
      e = {k: c[k] for k in ('root', 'es', 't', 'mode', 'ct')}
      e.update(op='put' if c['mode'] == 'mut' else 'get', fn=str(c['id']), v=v, text=c['text'])
      if 'dflt' in c:
        e['dflt'] = c['dflt']
      if c['wild']:
        e['key'] = list(rng.choice(paths.KEYS).encode())
      if c['mode'] == 'mut':
        n = count(S, c['root'], v, c['es'])
        if rng.random() < .1:
          n = max(0, n + rng.choice([-1, 1, 2]))
        val = lambda: rng.choice([0, 1, 2, 5]) if is_size(c['es']) else paths.scalar(rng, c['t'])
        one = lambda: [] if rng.random() < .25 else [val()]
        e['val'] = [one() for _ in range(n)] if multi(c['es']) else one()
      run.append(e)
  r.check('Trace_Path', [exe], mbt.each(run), env=env)
  r.check('Trace_Path', [exe], mbt.each(runs(r, S, fs)), env=env)


mbt.run('C12', main)
