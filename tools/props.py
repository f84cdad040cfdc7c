"""Single source for properties.jsonl and MANIFEST.json (run to regenerate)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note,
         observe=None, level='model_checking'):
  P.append(dict(pid=pid, title=title, statement=statement, over=over.split(),
                qtext=qtext, why=why, files=files.split(),
                mech=[dict(name=n, where=w) for n, w in mech],
                technique=technique, note=note, observe=observe or [],
                level=level))


NA = {}
exec(open(os.path.join(HERE, 'props_data.py')).read())  # pylint: disable=exec-used


def main():
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P:
      d = {
          'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['qtext']},
          'why_tests_cant': p['why'],
          'anchors': {'files': p['files'], 'mechanism': p['mech'],
                      'observe_at': p['observe'], 'hook_needed': None},
      }
      assert len(d['title']) <= 80, (p['pid'], len(d['title']))
      f.write(json.dumps(d) + '\n')
      for x in p['files']:
        if not os.path.exists(os.path.join('/repo', x)):
          print('missing anchor', p['pid'], x)
  checks, na = [], []
  for p in P:
    pid = p['pid']
    if pid in NA:
      na.append({'property': pid, 'reason': NA[pid]})
    elif os.path.exists(os.path.join(VERIF, 'checks', pid + '.py')):
      checks.append({
          'property': pid,
          'quick_cmd': 'python3 checks/%s.py quick' % pid,
          'thorough_cmd': 'python3 checks/%s.py thorough' % pid,
          'technique': p['technique'], 'level': p['level'],
          'level_note': p['note'],
      })
    else:
      na.append({'property': pid, 'reason': 'check not built yet'})
  m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
       'not_applicable': na,
       'notes': 'TLA+ specifications in spec/, checked with TLC; drivers in '
                'harness/; see DESIGN.md.'}
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
  main()
