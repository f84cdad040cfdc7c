"""Runner shared by all checks: TLC, drivers, trace validation, evidence.

A check is a function main(r: Run).  Its outcome is decided by TLC only:
  r.mc(...)        exhaustive model checking of a specification;
  r.gen(...)       TLC enumerates commands / behaviours (printed as JSON);
  r.execute(...)   a driver runs the commands in the real code -> NDJSON trace;
  r.validate(...)  TLC checks the recorded trace against the specification.
A rejection is reported only when re-executing the rejected session in a fresh
process is rejected again.  Everything else that goes wrong is an error (exit 2).
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import drivers  # pylint: disable=g-import-not-at-top
import vb  # pylint: disable=g-import-not-at-top

VERIF = vb.VERIF
REPO = vb.REPO
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/arolla-venv/bin/python'
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')


class CheckError(Exception):
  """The check itself failed (no verdict)."""


def tla(v):
  """Python value -> TLA+ expression text."""
  if isinstance(v, bool):
    return 'TRUE' if v else 'FALSE'
  if isinstance(v, int):
    return '(%d)' % v if v < 0 else str(v)
  if isinstance(v, str):
    return json.dumps(v)
  if isinstance(v, (list, tuple)):
    return '<<%s>>' % ', '.join(tla(x) for x in v)
  if isinstance(v, (set, frozenset)):
    return '{%s}' % ', '.join(tla(x) for x in sorted(v))
  if isinstance(v, dict):
    return '[%s]' % ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items())
  raise TypeError(v)


class Tlc:
  """Result of one TLC run."""

  def __init__(self, rc, out):
    self.rc = rc
    self.out = out
    m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    self.generated = int(m.group(1).replace(',', '')) if m else 0
    self.distinct = int(m.group(2).replace(',', '')) if m else 0
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    self.depth = int(m.group(1)) if m else 0

  def prints(self):
    """JSON values printed with PrintT(ToJson(..))."""
    res = []
    for line in self.out.split('\n'):
      if line.startswith('"') and line.endswith('"') and len(line) > 2:
        try:
          res.append(json.loads(json.loads(line)))
        except ValueError:
          pass
    return res

  @property
  def actions(self):
    """Per-action (distinct, total) counts when run with -coverage."""
    res = {}
    for m in re.finditer(r'^<(\w+) line.*?>: (\d+):(\d+)', self.out, re.M):
      res[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    return res


class Run:

  def __init__(self, pid):
    self.pid = pid
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
      self.tier = sys.argv[1]
    self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    self.rng = random.Random('%s/%d' % (pid, self.seed))
    self.t0 = time.time()
    base = os.path.join(vb.BUILD, 'work')
    os.makedirs(base, exist_ok=True)
    self.work = tempfile.mkdtemp(prefix=pid + '.', dir=base)
    self.violations = []
    self.cov = {
        'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
        'trace_events_validated': 0, 'tlc_runs': [], 'events_by_op': {},
        'samples': []
    }
    self.level = 'model_checking'
    self.assumptions = []
    self.known_hit = {}
    try:
      with open(os.path.join(VERIF, 'known_findings.json')) as f:
        self.known = [
            k for k in json.load(f)['findings'] if k['property'] == pid
        ]
    except OSError:
      self.known = []
    self._n = 0

  @property
  def quick(self):
    return self.tier != 'thorough'

  def log(self, *a):
    print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

  def path(self, name):
    self._n += 1
    return os.path.join(self.work, '%03d.%s' % (self._n, name))

  # ---------------------------------------------------------------- TLC
  def tlc(self, module, cfg=None, env=None, workers=4, timeout=600, extra=(),
          heap='3g'):
    cfg = cfg or module
    meta = self.path('meta')
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m',
           '-Xmx' + heap, '-cp', TLA_CP, 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers), '-config', cfg + '.cfg']
    cmd += list(extra) + [module + '.tla']
    try:
      p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, timeout=timeout,
                         errors='replace')
    except subprocess.TimeoutExpired as ex:
      raise CheckError('TLC timed out on %s/%s' % (module, cfg)) from ex
    finally:
      shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, p.stdout)

  def _note(self, kind, module, cfg, t, secs):
    d = {'kind': kind, 'module': module, 'cfg': cfg or module,
         'generated': t.generated, 'distinct': t.distinct,
         'depth': t.depth, 'secs': round(secs, 1)}
    a = t.actions
    if a:
      d['actions'] = {k: v[1] for k, v in a.items()}
    if len(self.cov['tlc_runs']) < 40:
      self.cov['tlc_runs'].append(d)

  def mc(self, module, cfg=None, need_actions=True, cover=True, **kw):
    """Exhaustive model checking: the design satisfies its invariants."""
    t0 = time.time()
    t = self.tlc(module, cfg, extra=('-coverage', '60') if cover else (), **kw)
    if t.rc != 0:
      raise CheckError('model %s/%s failed (rc=%d)\n%s' %
                       (module, cfg, t.rc, t.out[-4000:]))
    dead = [a for a, (_, n) in t.actions.items() if n == 0]
    if need_actions and dead:
      raise CheckError('vacuous: actions never taken in %s: %s' % (module, dead))
    self._note('model_checking', module, cfg, t, time.time() - t0)
    self.cov['states'] += t.distinct
    self.cov['transitions'] += t.generated
    self.log('mc %s/%s: %d distinct states, %d transitions' %
             (module, cfg or module, t.distinct, t.generated))
    return t

  def gen(self, module, cfg=None, unique=True, count_states=True, **kw):
    """TLC enumerates behaviours / cases; returns the printed JSON values."""
    t0 = time.time()
    kw.setdefault('workers', 1)
    t = self.tlc(module, cfg, **kw)
    if t.rc != 0:
      raise CheckError('generator %s/%s failed (rc=%d)\n%s' %
                       (module, cfg, t.rc, t.out[-4000:]))
    res = t.prints()
    if unique:
      seen, out = set(), []
      for x in res:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
          seen.add(k)
          out.append(x)
      res = out
    if not res:
      raise CheckError('generator %s/%s produced nothing\n%s' %
                       (module, cfg, t.out[-3000:]))
    self._note('generation', module, cfg, t, time.time() - t0)
    if count_states:
      self.cov['states'] += t.distinct
      self.cov['transitions'] += t.generated
    self.log('gen %s/%s: %d items' % (module, cfg or module, len(res)))
    return res

  # ------------------------------------------------------------- drivers
  def build(self, name, srcs=None, extra=()):
    """Builds a C++ driver; falls back to the whole library if needed."""
    t0 = time.time()
    if srcs is None:
      srcs, extra = drivers.DRIVERS[name]
    try:
      objs = vb.compile_all(srcs, extra)
      try:
        exe = vb.link(name, [objs[s] for s in srcs])
      except vb.BuildError as e:
        if 'undefined reference' not in str(e):
          raise
        self.log('falling back to the full library for', name)
        more = [s for s in vb.repo_lib_sources() + vb.pb_sources()
                if s not in objs]
        objs2 = vb.compile_all(more, extra)
        exe = vb.link(name, [objs[s] for s in srcs] + [objs2[s] for s in more])
    except vb.BuildError as e:
      raise CheckError('build failed: ' + str(e)) from e
    self.log('built %s in %.1fs' % (name, time.time() - t0))
    return exe

  def execute(self, argv, sessions, timeout=120, env=None, per_session=20):
    """Runs sessions (lists of command dicts) through a driver.

    The driver is called as argv + [commands, trace]; it appends one NDJSON
    line per command and flushes it.  Returns a list of traced sessions.
    """
    results = []
    todo = list(sessions)
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.update(env or {})
    crashes = 0
    while todo:
      cpath, tpath = self.path('cmds'), self.path('trace')
      with open(cpath, 'w') as f:
        for s in todo:
          for c in s:
            f.write(json.dumps(c) + '\n')
      open(tpath, 'w').close()
      why = None
      try:
        p = subprocess.run(argv + [cpath, tpath], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=e,
                           cwd=self.work)
        if p.returncode == 77:
          raise CheckError('driver failed: ' + p.stdout[-3000:].decode(
              'utf8', 'replace'))
        if p.returncode:
          why = 'exit %d' % p.returncode
        tail = p.stdout[-2000:].decode('utf8', 'replace')
      except subprocess.TimeoutExpired:
        why, tail = 'hang', ''
      with open(tpath) as f:
        lines = f.read().split('\n')
      if lines and lines[-1]:
        lines.pop()  # partial line
      lines = [json.loads(l) for l in lines if l]
      os.unlink(cpath)
      os.unlink(tpath)
      i = 0
      done = 0
      for s in todo:
        got = lines[i:i + len(s)]
        if len(got) == len(s):
          results.append(got)
          i += len(s)
          done += 1
        else:
          break
      if done == len(todo):
        if why:
          raise CheckError('driver ended with %s after all commands: %s' %
                           (why, tail))
        break
      if not why:
        raise CheckError('driver stopped early without an error: ' + tail)
      s = todo[done]
      got = lines[i:i + len(s)]
      bad = {k: v for k, v in s[len(got)].items()}
      bad['crash'] = why
      got.append(bad)
      results.append(got)
      self.log('driver crash (%s) at %s\n%s' % (why, json.dumps(bad)[:500], tail[-600:]))
      crashes += 1
      todo = todo[done + 1:]
      if crashes >= 3:
        break  # enough: these sessions are rejected anyway.
    return results

  # ---------------------------------------------------------- validation
  def _validate_once(self, module, cfg, sessions, stateful, workers, timeout,
                     env):
    tpath = self.path('ndjson')
    starts = []
    n = 0
    with open(tpath, 'w') as f:
      for s in sessions:
        starts.append(n)
        if stateful:
          # One line per session; its events are the steps of one behaviour.
          if len(s) == 1 and 'ev' in s[0]:
            line = dict(s[0])
          else:
            line = {'ev': s}
          f.write(json.dumps(line) + '\n')
          n += len(line['ev']) + 1
          continue
        for x in s:
          f.write(json.dumps(x) + '\n')
          n += 1
    e = dict(env or {})
    e['TRACE'] = tpath
    t0 = time.time()
    t = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout)
    self._note('trace_validation', module, cfg, t, time.time() - t0)
    if not os.environ.get('VERIF_KEEP'):
      os.unlink(tpath)
    if t.rc == 0:
      if not stateful and t.distinct != n:
        raise CheckError('trace %s: %d states for %d events\n%s' %
                         (module, t.distinct, n, t.out[-2000:]))
      if stateful and t.distinct < n:
        raise CheckError('trace %s: %d states for %d steps\n%s' %
                         (module, t.distinct, n, t.out[-2000:]))
      return None, t
    # 75/76: an observation of the wrong shape that the specification cannot
    # evaluate (wrong type, out of domain) is not a behaviour either.
    if t.rc not in (11, 12) and not (t.rc in (75, 76) and 'Starting' in t.out):
      raise CheckError('trace validation %s failed (rc=%d)\n%s' %
                       (module, t.rc, t.out[-5000:]))
    if t.rc in (75, 76):
      self.log('TLC evaluation error: ' + ' '.join(
          x for x in re.split('Error:|Reason', t.out)[1:] if x)[:600])
      if not re.search(r'^(?:/\\ )?l = (\d+)', t.out, re.M):
        # in an initial state: no position is printed.
        if len(sessions) == 1:
          return (0, 0), t
        lo, hi = 0, len(sessions)
        while hi - lo > 1:
          mid = (lo + hi) // 2
          r, _ = self._validate_once(module, cfg, sessions[lo:mid], stateful,
                                     workers, timeout, env)
          if r is not None and r != (0, 0):
            return (lo + r[0], r[1]), t
          if r is not None:
            hi = mid
          else:
            lo = mid
        return (lo, 0), t
    ls = re.findall(r'^(?:/\\ )?l = (\d+)', t.out, re.M)
    if not ls:
      raise CheckError('no position in the TLC output\n' + t.out[-3000:])
    l = int(ls[-1]) - 1  # 0-based
    if stateful:
      bs = re.findall(r'^(?:/\\ )?b = (\d+)', t.out, re.M)
      return (int(bs[-1]) - 1, l), t
    si = max(i for i, st in enumerate(starts) if st <= l)
    return (si, l - starts[si]), t

  def validate(self, module, traced, sessions=None, rerun=None, cfg=None,
               stateful=False, workers=6, timeout=600, max_bad=3, env=None,
               retries=1, rerun_all=None):
    """TLC validates the traced sessions; rejected ones are re-executed.

    rerun(session) -> traced session of a fresh execution (same commands).
    """
    live = list(range(len(traced)))
    bad = 0
    while live:
      rej, t = self._validate_once(module, cfg, [traced[i] for i in live],
                                   stateful, workers, timeout, env)
      if rej is None:
        break
      idx, pos = live[rej[0]], rej[1]
      if stateful and len(traced[idx]) == 1 and 'ev' in traced[idx][0]:
        evs = traced[idx][0]['ev']
        ev = {'session': {k: v for k, v in traced[idx][0].items() if k != 'ev'},
              'at': pos, 'event': evs[pos] if pos < len(evs) else 'end of trace'}
      else:
        ev = traced[idx][min(pos, len(traced[idx]) - 1)]
      self.log('REJECTED by %s: %s' % (module, json.dumps(ev)[:1500]))
      confirmed = rerun is None
      again = None
      for _ in range(retries):
        if rerun is None:
          break
        again = rerun(sessions[idx] if sessions is not None else traced[idx])
        if again is None:
          continue
        r2, _ = self._validate_once(module, cfg, [again], stateful, 2, timeout,
                                    env)
        if r2 is not None:
          confirmed = True
          break
      history = None
      if not confirmed and rerun_all is not None:
        # It may need the sessions before it: repeat the whole history.
        every = rerun_all()
        if len(every) > idx:
          again = every[idx]
          r2, _ = self._validate_once(module, cfg, [again], stateful, 2,
                                      timeout, env)
          if r2 is not None:
            confirmed = True
            history = sessions[:idx][-2000:] if sessions is not None else None
      live.remove(idx)
      k = self._known(ev)
      if not confirmed:
        raise CheckError('a rejection did not repeat: ' + json.dumps(ev)[:2000])
      if k:
        self.known_hit[k['id']] = k
        if len(live) and bad < 50:
          bad += 1
          continue
        break
      self.report(module, sessions[idx] if sessions is not None else None,
                  again or traced[idx], ev, t, history)
      bad += 1
      if bad >= max_bad:
        break
    self.cov['traces_validated_against_impl'] += len(live)
    for i in live:
      for x in (traced[i][0]['ev'] if 'ev' in traced[i][0] else traced[i]):
        self.cov['trace_events_validated'] += 1
        op = str(x.get('op', '?'))
        self.cov['events_by_op'][op] = self.cov['events_by_op'].get(op, 0) + 1
    if live:
      for i in (live[0], live[len(live) // 2], live[-1]):
        s = json.dumps(traced[i][:6])
        if len(s) < 1500 and len(self.cov['samples']) < 12:
          self.cov['samples'].append(traced[i][:6])
    self.log('validated %s: %d sessions, %d events' %
             (module, len(live),
              sum(len(traced[i][0].get('ev', traced[i])) for i in live)))

  def check(self, module, argv, sessions, stateful=False, timeout=300, **kw):
    """execute + validate."""
    if callable(argv):
      run = argv
    else:
      run = lambda ss: self.execute(argv, ss, timeout=timeout, env=kw.get('env'))
    traced = run(sessions)
    sessions = sessions[:len(traced)]
    self.validate(module, traced, sessions, lambda s: run([s])[0],
                  stateful=stateful, rerun_all=lambda: run(sessions), **kw)
    return traced

  def _known(self, ev):
    for k in self.known:
      m = k['match']
      if all(json.dumps(ev.get(a), sort_keys=True) == json.dumps(b, sort_keys=True)
             for a, b in m.items()):
        return k
    return None

  def report(self, module, session, traced, ev, t, history=None):
    d = os.path.join(vb.BUILD, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.%d.json' % (self.pid, len(self.violations)))
    with open(p, 'w') as f:
      json.dump({'property': self.pid, 'seed': self.seed, 'spec': module,
                 'commands': session, 'observed': traced,
                 'rejected_event': ev, 'sessions_before': history,
                 'tlc_tail': t.out[-1500:] if t else ''}, f, indent=1)
    self.violations.append(p)
    print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)

  # ------------------------------------------------------------- evidence
  def finish(self):
    wall = round(time.time() - self.t0, 2)
    ev = {'property': self.pid, 'tier': 'thorough' if not self.quick else 'quick',
          'seed': self.seed, 'level': self.level, 'coverage': self.cov,
          'assumptions': self.assumptions, 'wall_s': wall,
          'violations': len(self.violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', self.pid + '.json')
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and self.cov['samples']:
      self.cov['samples'].pop()
      s = json.dumps(ev, indent=1)
    with open(p, 'w') as f:
      f.write(s + '\n')
    for k in self.known_hit.values():
      print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))


def run(pid, main):
  r = Run(pid)
  try:
    main(r)
    r.finish()
    rc = 1 if r.violations else 0
  except CheckError as e:
    if r.violations:  # a violation was confirmed before the error.
      r.finish()
      rc = 1
    else:
      print('CHECK-ERROR', e, flush=True)
      rc = 2
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    rc = 1 if r.violations else 2
  finally:
    if not os.environ.get('VERIF_KEEP'):
      shutil.rmtree(r.work, ignore_errors=True)
  r.log('done rc=%d' % rc)
  sys.exit(rc)


def pydrv(name):
  """Command line of a Python driver of harness/py."""
  return [PY, os.path.join(VERIF, 'harness/py', name + '.py')]


def each(cmds):
  """One session per command."""
  return [[c] for c in cmds]


def batched(cmds, n):
  return [cmds[i:i + n] for i in range(0, len(cmds), n)]
