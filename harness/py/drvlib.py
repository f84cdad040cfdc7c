"""NDJSON loop shared by the Python drivers: `driver.py commands trace`."""
import json
import os
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def cps(s):
  """Text -> code points."""
  return [ord(c) for c in s]


def txt(c):
  return ''.join(chr(x) for x in c)


def guarded(fn, *errors):
  """Runs fn; an exception of the given kinds becomes an observation."""
  try:
    res = fn()
    return {'err': '', **res}
  except errors or Exception as e:  # pylint: disable=broad-except
    return {'err': type(e).__name__, 'msg': str(e)}


def main(ops):
  try:
    with open(sys.argv[1]) as f, open(sys.argv[2], 'a') as out:
      for line in f:
        c = json.loads(line)
        fn = ops.get(c['op'])
        if fn is None:
          print('unknown op', c['op'])
          sys.exit(77)
        try:
          res = fn(c)
        except Exception as e:  # pylint: disable=broad-except
          # The code under test (or what it returned) is at fault: an
          # observation no specification accepts.
          traceback.print_exc()
          res = {'crash': '%s: %s' % (type(e).__name__, str(e)[:300])}
        c.update(res)
        out.write(json.dumps(c) + '\n')
        out.flush()
  except (OSError, ValueError):
    traceback.print_exc()
    sys.exit(77)


def protos():
  """Generates Python protos of the repository and of the harness."""
  import glob
  import subprocess
  import tempfile
  out = tempfile.mkdtemp(prefix='pbpy.', dir=os.getcwd())
  here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pb')
  files = ([os.path.join(REPO, 'arolla/proto/io.proto')] +
           glob.glob(REPO + '/arolla/proto/testing/*.proto') +
           glob.glob(here + '/verifpb/*.proto'))
  r = subprocess.run(['protoc', '-I' + REPO, '-I' + here, '--python_out=' + out] + files, capture_output=True)
  if r.returncode:
    print(r.stderr.decode())
    sys.exit(77)
  sys.path.insert(0, out)
