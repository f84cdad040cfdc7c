import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt


def cp(s):
  return [ord(c) for c in s]


EXPANDS = re.compile(r'\$[A-Za-z0-9_{(@*#?$!\-\[]')
REF = re.compile(r'\$\((?:location|execpath|rootpath) [^)]*\)|\$[@<]')


def main(r):
  rng = r.rng
  drv = mbt.pydrv('drv_text')
  r.mc('MC_Shell', timeout=300)
  r.mc('MC_Shell', 'MC_ShellStrong', timeout=300)
  cmds = []
  # all texts of up to three special characters.
  A = ['a', '$', '"', '\\', '`', "'", '\n', ' ', '(', ')', '@', '<', '*', ';', '&', '{', '~', '#', '!', '|']
  texts = [''.join(x) for n in range(0, 4) for x in itertools.product(A, repeat=n)]
  POOL = A + ['$(location a:b)', '$(execpath //x:y)', '$(rootpath q)', 'é', '\U0001f4cd', '%s', '%', '\t', '$$', '\\$', '\\"', '$ ', '\\\\', 'location', '$(', '\r', '\x01', '\x7f', '=', '"}', '[1,2]', '{"a":"b\\n"}', '>', 'x']
  for _ in range(3000 if r.quick else 40000):
    texts.append(''.join(rng.choice(POOL) for _ in range(rng.randint(1, 14))))
  ok = lambda s: not re.search(r'\$\((location|execpath|rootpath)(?! [^)]*\))', s)
  texts = [t for t in texts if ok(t)]
  plain = [t for t in texts if not EXPANDS.search(t)]
  left = [t for t in texts if EXPANDS.search(t)]
  vars_ = [t for t in texts if not EXPANDS.search(REF.sub('/p/x', t))]
  for wo, ts, run in ((False, plain, True), (True, vars_, True), (False, left, False), (True, texts, False)):
    ts = sorted(set(ts))
    rng.shuffle(ts)
    for b in mbt.batched(ts, 40):
      cmds.append({'op': 'esc', 'wo': wo, 'run': run, 'ss': [cp(t) for t in b]})
  # recorded findings: a dollar before a name is left to the shell.
  dollar = [{'op': 'dollar', 'wo': wo, 'run': True, 'ss': [cp(t) for t in ['$HOME', '${x}', '$1', 'a$b']]} for wo in (False, True)]
  r.check('Trace_Shell', drv, mbt.each(dollar))
  vals = [{'b': True, 's': list(range(256))}, {'b': True, 's': []}, {'b': False, 's': []}]
  vals += [{'b': True, 's': [i, j]} for i in range(256) for j in (48, 65, 102, 103, 0, 255)]
  vals += [{'b': False, 's': [c]} for c in (0, 1, 10, 34, 92, 127, 128, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x85)]
  for _ in range(300 if r.quick else 3000):
    n = rng.choice([1, 2, 5, 20])
    vals.append({'b': True, 's': [rng.randrange(256) for _ in range(n)]})
    vals.append({'b': False, 's': [rng.choice([rng.randrange(128), rng.randrange(0x800), rng.randrange(0xd800), rng.randrange(0x10000, 0x110000)]) for _ in range(n)]})
  for b in mbt.batched(vals, 50):
    cmds.append({'op': 'cesc', 'vs': b})
  B = ['a', 'Z', '0', '9', '_', '-', ' ', '/', '.', 'foo', '"', '\n', ':', '::', '@', '__']
  ids = [''.join(x) for n in range(0, 3) for x in itertools.product(B, repeat=n)]
  ids += [chr(c) for c in range(1, 0x180)] + ['a' + chr(c) for c in range(1, 0x180)] + ['½', 'a½b', 'x²', '①', 'д', 'дом 5', '5дом', 'ͺ', 'ำ', '中文', 'a\u0301']
  for _ in range(400 if r.quick else 4000):
    ids.append(''.join(rng.choice(B + ['é', '½', '²', '٣']) for _ in range(rng.randint(1, 9))))
  for s in ids:
    cmds.append({'op': 'ident', 's': cp(s)})
  for s in ['', 'a', 'a/b', '/a/b.c', 'a/', '//', '$(x)/y', 'é/ü']:
    cmds.append({'op': 'base', 's': cp(s)})
  W = ['', 'a', '<b>', '&', '{{ x }}', '{% y %}', '\n', 'é', '"', ' z ', '\\']
  for _ in range(150):
    w = rng.choice(W)
    cmds.append({'op': 'plain', 'a': cp(rng.choice(W)), 'x': cp(rng.choice(W)), 'key': rng.choice(['x', 'x', 'x', 'y']),
                 'l': [cp(rng.choice(W)) for _ in range(rng.randint(0, 4))], 'stop': cp(w)})
  L = ['a();', '', ' b', '\t', '}', '  c', '[&]() {']
  for _ in range(400):
    cmds.append({'op': 'wrap', 'wrap': rng.random() < .7, 's': cp(rng.choice(['', '', '\n', '\n\n']) + '\n'.join(rng.choice(L) for _ in range(rng.randint(0, 5))))})
  P = ['', 'a', '/x/y', '::std::string', '~', 'a[*]/b', 'a~b']
  for _ in range(300):
    cmds.append({'op': 'wild', 's': cp('~~'.join(rng.choice(P) for _ in range(rng.choice([1, 2, 3, 4, 4, 4, 4, 5, 8]))))})
  r.check('Trace_Shell', drv, mbt.each(cmds))


mbt.run('C15', main)
