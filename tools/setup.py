"""Prebuilds every driver in parallel; checks rebuild whatever has changed."""
import concurrent.futures
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drivers  # pylint: disable=g-import-not-at-top
import vb  # pylint: disable=g-import-not-at-top


def main():
  t0 = time.time()
  vb.ensure_gen()
  jobs = []
  for name, (srcs, extra) in drivers.DRIVERS.items():
    for s in srcs:
      if (s, tuple(extra)) not in jobs:
        jobs.append((s, tuple(extra)))
  jobs += [(s, ()) for s in dict.fromkeys(drivers.PRE) if (s, ()) not in jobs]
  # Big harness sources first.
  jobs.sort(key=lambda j: not j[0].startswith('harness/'))

  def one(j):
    try:
      vb.compile_one(*j)
      return None
    except vb.BuildError as e:
      return str(e)

  with concurrent.futures.ThreadPoolExecutor(vb.JOBS) as ex:
    errs = [e for e in ex.map(one, jobs) if e]
  for name, (srcs, extra) in drivers.DRIVERS.items():
    if errs:
      break
    objs = vb.compile_all(srcs, extra)
    vb.link(name, [objs[s] for s in srcs])
  for e in errs[:5]:
    print(e)
  print('setup: %d objects in %.1fs, %d errors' % (len(jobs), time.time() - t0, len(errs)))
  # A check that needs something that does not build reports it itself.


if __name__ == '__main__':
  main()
