"""Content-addressed C++ builder for the checks.

Compiles /repo's sources (never a copy) against the compat headers, keyed by the
comment-stripped contents of everything a translation unit includes from /repo
and /verif, so a rebuild happens exactly when the code changed.  Objects live in
/verif/build (git-ignored).
"""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
GEN = os.path.join(BUILD, 'gen')
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))
CXX = 'g++'
BASE_FLAGS = [
    '-std=gnu++20', '-w', '-O0', '-pthread', '-DAROLLA_IMPLEMENTATION',
    '-DAROLLA_SHARED_COMPILATION'
]


def include_flags():
  return [
      '-I' + os.path.join(VERIF, 'compat/include'), '-I' + GEN,
      '-I' + os.path.join(GEN, 'pb'), '-I' + os.path.join(GEN, 'src'),
      '-I' + REPO, '-I' + os.path.join(VERIF, 'harness')
  ]


class BuildError(Exception):
  pass


_norm_re = re.compile(
    r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', re.S)
_file_hash = {}
_lock = threading.Lock()


def _normalize(text):
  if 'R"' in text:  # raw strings: do not try to be clever.
    return text
  # Digit separators (1'000) would confuse the character-literal pattern.
  if re.search(r"[0-9a-fA-F]'[0-9a-fA-F]", text):
    return text

  def rep(m):
    t = m.group(0)
    return ' ' if t[0] == '/' else t

  text = _norm_re.sub(rep, text)
  return '\n'.join(l.rstrip() for l in text.split('\n') if l.strip())


def file_hash(path):
  h = _file_hash.get(path)
  if h is None:
    try:
      with open(path, encoding='utf8', errors='surrogateescape') as f:
        t = f.read()
    except OSError:
      h = 'missing'
    else:
      h = hashlib.sha256(
          _normalize(t).encode('utf8', 'surrogateescape')).hexdigest()
    _file_hash[path] = h
  return h


def _write(path, text):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  tmp = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident())
  with open(tmp, 'w') as f:
    f.write(text)
  os.replace(tmp, path)


def ensure_gen():
  """(Re)generates the compat headers and the protos if their inputs changed."""
  import glob
  ins = [os.path.join(VERIF, 'compat/gen_compat.py')] + sorted(
      glob.glob(REPO + '/arolla/**/*.proto', recursive=True) +
      glob.glob(VERIF + '/harness/pb/**/*.proto', recursive=True))
  key = hashlib.sha256()
  for p in ins:
    key.update(p.encode() + file_hash(p).encode())
  stamp = os.path.join(GEN, 'stamp')
  try:
    if open(stamp).read() == key.hexdigest():
      return
  except OSError:
    pass
  r = subprocess.run([sys.executable, ins[0], GEN, REPO],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True)
  if r.returncode:
    raise BuildError('gen_compat failed:\n' + r.stdout)
  _write(stamp, key.hexdigest())


def _abs_source(src):
  if os.path.isabs(src):
    return src
  if src.startswith('gen:'):
    return os.path.join(GEN, src[4:])
  if src.startswith('harness/'):
    return os.path.join(VERIF, src)
  return os.path.join(REPO, src)


def compile_one(src, extra=()):
  path = _abs_source(src)
  flags = [CXX] + BASE_FLAGS + list(extra) + include_flags()
  base = hashlib.sha256(('\0'.join(flags) + '\0' + path).encode()).hexdigest()
  mpath = os.path.join(BUILD, 'man', base[:2], base)
  try:
    with open(mpath) as f:
      manifests = json.load(f)
  except (OSError, ValueError):
    manifests = []

  def key_of(deps):
    h = hashlib.sha256(base.encode())
    for d in deps:
      h.update(d.encode() + b'\0' + file_hash(d).encode())
    return h.hexdigest()

  for deps in manifests:
    k = key_of(deps)
    obj = os.path.join(BUILD, 'obj', k[:2], k + '.o')
    if os.path.exists(obj):
      return obj
  os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
  tmp = os.path.join(BUILD, 'tmp', '%s.%d' % (base[:24], os.getpid()))
  r = subprocess.run(
      flags + ['-MMD', '-MF', tmp + '.d', '-c', path, '-o', tmp + '.o'],
      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if r.returncode:
    err = [l for l in r.stdout.split('\n') if 'error' in l or 'required from here' in l]
    raise BuildError('compiling %s failed:\n%s' % (src, '\n'.join(err)[:3000]))
  with open(tmp + '.d') as f:
    d = f.read().replace('\\\n', ' ')
  os.unlink(tmp + '.d')
  deps = []
  for w in d.split(':', 1)[1].split():
    w = os.path.normpath(w)
    if w.startswith((REPO + '/', VERIF + '/', BUILD + '/')) and w not in deps:
      deps.append(w)
  k = key_of(deps)
  obj = os.path.join(BUILD, 'obj', k[:2], k + '.o')
  os.makedirs(os.path.dirname(obj), exist_ok=True)
  os.replace(tmp + '.o', obj)
  if deps not in manifests:
    manifests.append(deps)
  _write(mpath, json.dumps(manifests[-8:]))
  return obj


def compile_all(srcs, extra=(), keep_going=False):
  """Returns {src: object path}."""
  ensure_gen()
  out, errors = {}, []
  with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
    futs = {ex.submit(compile_one, s, extra): s for s in srcs}
    for f in concurrent.futures.as_completed(futs):
      try:
        out[futs[f]] = f.result()
      except BuildError as e:
        errors.append(str(e))
  if errors and not keep_going:
    raise BuildError('\n'.join(errors[:3]))
  if errors:
    sys.stderr.write('\n'.join(errors) + '\n')
  return out


ABSL = [
    'absl_status', 'absl_statusor', 'absl_synchronization', 'absl_hash',
    'absl_raw_hash_set', 'absl_hashtablez_sampler', 'absl_str_format_internal',
    'absl_strings', 'absl_strings_internal', 'absl_cord', 'absl_cord_internal',
    'absl_cordz_functions', 'absl_cordz_info', 'absl_cordz_handle', 'absl_time',
    'absl_time_zone', 'absl_civil_time', 'absl_base', 'absl_raw_logging_internal',
    'absl_throw_delegate', 'absl_int128', 'absl_city', 'absl_low_level_hash',
    'absl_bad_optional_access', 'absl_bad_variant_access',
    'absl_stacktrace', 'absl_symbolize', 'absl_spinlock_wait',
    'absl_random_distributions', 'absl_random_seed_sequences',
    'absl_random_internal_pool_urbg', 'absl_random_internal_randen',
    'absl_random_internal_randen_slow', 'absl_random_internal_randen_hwaes',
    'absl_random_internal_randen_hwaes_impl', 'absl_random_internal_platform',
    'absl_random_internal_seed_material', 'absl_random_seed_gen_exception',
    'absl_graphcycles_internal', 'absl_malloc_internal', 'absl_exponential_biased',
    'absl_log_severity', 'absl_demangle_internal', 'absl_debugging_internal',
]


def libs():
  r = []
  for a in ABSL:
    if os.path.exists('/usr/lib/x86_64-linux-gnu/lib%s.so' % a):
      r.append('-l' + a)
  return r + ['-lprotobuf', '-licuuc', '-licui18n', '-licudata', '-lz', '-ldl']


def link(name, objs, extra=()):
  h = hashlib.sha256(('\0'.join(objs) + '\0'.join(extra)).encode()).hexdigest()
  out = os.path.join(BUILD, 'bin', '%s.%s' % (name, h[:16]))
  if os.path.exists(out):
    return out
  os.makedirs(os.path.dirname(out), exist_ok=True)
  rsp = out + '.%d.rsp' % os.getpid()
  _write(rsp, '\n'.join(objs))
  tmp = out + '.%d.tmp' % os.getpid()
  r = subprocess.run(
      [CXX, '-pthread', '-fuse-ld=bfd', '-o', tmp, '@' + rsp] + list(extra) + libs(),
      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  os.unlink(rsp)
  if r.returncode:
    raise BuildError('linking %s failed:\n%s' % (name, r.stdout[-6000:]))
  os.replace(tmp, out)
  return out


def repo_lib_sources():
  """All non-test C++ sources of arolla that take part in the library."""
  skip = re.compile(
      r'(_test\.cc$|benchmark|/testing/|/demo/|/examples/|arolla/codegen/|'
      r'riegeli|qtype/strings/regex\.cc$|arolla/optools/)')
  res = []
  for root, dirs, names in os.walk(os.path.join(REPO, 'arolla')):
    dirs.sort()
    for n in sorted(names):
      p = os.path.relpath(os.path.join(root, n), REPO)
      if n.endswith('.cc') and not skip.search(p):
        res.append(p)
  return res


def pb_sources():
  ensure_gen()
  res = []
  for root, _, names in os.walk(os.path.join(GEN, 'pb')):
    for n in sorted(names):
      p = os.path.relpath(os.path.join(root, n), GEN)
      if n.endswith('.pb.cc') and not re.search(r'testing|test_|codegen/io|demo|verifpb', p):
        res.append('gen:' + p)
  return sorted(res)


if __name__ == '__main__':
  import time
  t = time.time()
  objs = compile_all(repo_lib_sources() + pb_sources(), keep_going=True)
  print(len(objs), 'objects', round(time.time() - t, 1), 's')
