"""Fills DESIGN.md's generated parts (from design.in.md)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(V + '/tools/design_parts.py').read(), g)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
t = []
for p in props:
  t.append('\n### %s %s\n' % (p['id'], p['title']))
  if p['id'] in g['METHOD']: t.append(g['METHOD'][p['id']] + '\n')
  else:
    c = [c for c in man['checks'] if c['property'] == p['id']]
    t.append((c[0]['technique'] if c else 'Plan: see props_data.') + '\n')
  if p['id'] in na: t.append('Not claimed: %s\n' % na[p['id']])
k = json.load(open(V + '/known_findings.json'))
f = []
for x in k['fixed']: f.append('* ' + (x if isinstance(x, str) else json.dumps(x)))
for x in k['findings']: f.append('* known, not repaired: %s — %s' % (x['property'], x['what']))
for x in g.get('NOTES', []): f.append('* ' + x)
s = []
try: res = json.load(open(V + '/tools/seed_results.json'))
except OSError: res = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
  m = json.load(open(d)); sid = os.path.basename(os.path.dirname(d))
  s.append('* %s (%s): %s. Needs: %s. %s' % (sid, m['property'], m['what_it_breaks'], m['needs'], res.get(sid, '')))
o = open(V + '/tools/design.in.md').read()
o = o.replace('@@TABLE@@', '\n'.join(t)).replace('@@FINDINGS@@', '\n'.join(f)).replace('@@SEEDS@@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(o)
