"""Worker process: one shard of one check against the code in /repo."""
import argparse
import importlib
import json
import os
import sys
import traceback


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--shard', type=int, required=True)
  ap.add_argument('--nshards', type=int, required=True)
  ap.add_argument('--seed', type=int, required=True)
  ap.add_argument('--tier', required=True)
  ap.add_argument('--x64', type=int, required=True)
  ap.add_argument('--out', required=True)
  ap.add_argument('--scratch', required=True)
  ap.add_argument('--budget', type=float, required=True)
  ap.add_argument('--opts', default='{}')
  a = ap.parse_args()
  opts = json.loads(a.opts)
  import jax
  if a.x64:
    jax.config.update('jax_enable_x64', True)
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
  from . import core
  mon = core.Monitor(a.pid, a.shard, a.seed, a.tier, bool(a.x64), a.budget)
  env = core.Env(a.pid, a.shard, a.nshards, a.seed, a.tier, bool(a.x64),
                 a.scratch, opts)
  status = 'ok'
  err = ''
  try:
    import e3x  # An import failure of the library is reported as an error.
    src = os.path.realpath(e3x.__file__)
    repo = os.path.realpath(os.environ.get('E3X_REPO', '/repo'))
    assert src.startswith(repo + os.sep), 'e3x imported from %s' % src
    tables = opts.get('tables') or {}
    if tables.get('cg'):
      e3x.Config.set_clebsch_gordan_cache(tables['cg'])
    if tables.get('wd'):
      e3x.Config.set_wigner_d_cache(tables['wd'])
    mod = importlib.import_module('monitors.checks.' + a.pid.lower())
    mod.run(mon, env)
  except core.TooManyViolations:
    pass
  except core.Skip:
    pass
  except Exception:  # pylint: disable=broad-except
    status = 'error'
    err = traceback.format_exc()
  res = mon.result()
  res.update(status=status, error=err, shard=a.shard, x64=a.x64)
  tmp = a.out + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(res, f)
  os.replace(tmp, a.out)
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)  # Skip slow interpreter/XLA shutdown.


if __name__ == '__main__':
  main()
