"""Driver: python run.py P01 [--tier quick|thorough] [--replay FILE]."""
import argparse
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get('E3X_REPO', '/repo')
PY = os.environ.get('E3X_PYTHON', '/opt/venv/bin/python')

from monitors import plans  # pylint: disable=g-import-not-at-top


def worker_env():
  env = dict(os.environ)
  env.update(
      PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', PYTHONHASHSEED='0',
      XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
      OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3',
      PYTHONPATH=REPO + os.pathsep + VERIF, E3X_REPO=REPO)
  for k in ('JAX_ENABLE_X64', 'JAX_DEBUG_NANS', 'JAX_DISABLE_JIT', 'PYTHONSTARTUP'):
    env.pop(k, None)
  return env


def make_tables(scratch, want, procs):
  """Pre-generates lookup tables from the current code with the documented
  parallel command line; on any failure the checks fall back to on-the-fly
  generation (slower, never a verdict)."""
  out = {}
  for kind, module in (('cg', 'e3x.so3._clebsch_gordan_lut'),
                       ('wd', 'e3x.so3._wigner_d_lut')):
    if not want.get(kind):
      continue
    path = os.path.join(scratch, kind + '.npz')
    try:
      r = subprocess.run(
          [PY, '-m', module, '--max_degree', str(want[kind]), '--path', path,
           '--num_processes', str(procs)], env=worker_env(), cwd=scratch,
          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
      if r.returncode == 0 and os.path.exists(path):
        out[kind] = path
    except (subprocess.TimeoutExpired, OSError):
      pass
    if kind not in out:
      # Fall back to a cache that the library itself fills on first use.
      out[kind] = path if not os.path.exists(path) else None
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--only-shard', type=int)
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  only = a.only_shard
  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    seed, tier, only = rep['seed'], rep['tier'], rep['violations'][0]['shard']
  pid = a.pid
  plan = plans.plan(pid, tier)
  t0 = time.time()
  scratch = tempfile.mkdtemp(prefix='e3xmon_%s_' % pid)
  procs = []
  try:
    tables = make_tables(scratch, plan.get('tables', {}), 8)
    shards = list(enumerate(plan['shards']))
    n = {0: sum(1 for s in plan['shards'] if not s), 1: sum(1 for s in plan['shards'] if s)}
    count = {0: 0, 1: 0}
    for i, x64 in shards:
      idx = count[x64]
      count[x64] += 1
      if only is not None and i != only:
        continue
      out = os.path.join(scratch, 'out%d.json' % i)
      sdir = os.path.join(scratch, 'shard%d' % i)
      os.mkdir(sdir)
      # Every worker has its own copy of the tables: the library may extend them.
      own = {}
      for kind, path in tables.items():
        own[kind] = os.path.join(sdir, kind + '_table.npz')
        if path and os.path.exists(path):
          shutil.copy(path, own[kind])
      opts = dict(tables=own, tables_degree=plan.get('tables', {}))
      cmd = [PY, '-m', 'monitors.worker', pid, '--shard', str(idx), '--nshards',
             str(n[x64]), '--seed', str(seed), '--tier', tier, '--x64', str(x64),
             '--out', out, '--scratch', sdir, '--budget', str(plan['budget']),
             '--opts', json.dumps(opts)]
      log = open(os.path.join(scratch, 'log%d' % i), 'wb')
      procs.append((i, out, subprocess.Popen(
          cmd, env=worker_env(), cwd=sdir, stdout=log, stderr=log,
          start_new_session=True), log))
    deadline = time.time() + plan['budget'] + plan.get('grace', 150)
    results = []
    errors = []
    for i, out, p, log in procs:
      try:
        p.wait(timeout=max(1, deadline - time.time()))
      except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        errors.append('shard %d timed out' % i)
      log.close()
      if os.path.exists(out):
        with open(out) as f:
          r = json.load(f)
        r['index'] = i
        results.append(r)
        if r['status'] != 'ok':
          errors.append('shard %d: %s' % (i, r['error'][-3000:]))
      else:
        with open(os.path.join(scratch, 'log%d' % i), 'rb') as f:
          errors.append('shard %d died (status %s): %s' % (
              i, p.returncode, f.read()[-3000:].decode('utf8', 'replace')))
  finally:
    for _, _, p, _ in procs:
      if p.poll() is None:
        try:
          os.killpg(p.pid, 9)
        except OSError:
          pass
    shutil.rmtree(scratch, ignore_errors=True)

  # Merge.
  covered = set()
  by_label = {}
  max_ratio = {}
  samples = []
  violations = []
  tot = dict(evaluations=0, calls=0, comparisons=0, values_compared=0)
  notes = []
  early = 0
  for r in results:
    covered.update(r['covered'])
    for k, v in r['by_label'].items():
      by_label[k] = by_label.get(k, 0) + v
    for k, v in r['max_ratio'].items():
      max_ratio[k] = max(max_ratio.get(k, 0.0), v)
    samples += r['samples'][:2]
    for v in r['violations']:
      v['shard'] = r['index']
      violations.append(v)
    for k in tot:
      tot[k] += r[k]
    notes += r['notes']
    early += bool(r['stopped_early'])

  known = []
  kf = os.path.join(VERIF, 'known_findings.json')
  if os.path.exists(kf):
    with open(kf) as f:
      known = [k for k in json.load(f)['findings']
               if k['property'] == pid and k['status'] == 'known']
  fresh = []
  hit = {}
  for v in violations:
    for k in known:
      if v['label'] == k['label'] and re.search(
          k.get('case_regex', ''), json.dumps(v['case'], sort_keys=True) + ' ' + v['msg']):
        hit[k['id']] = k
        break
    else:
      fresh.append(v)

  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  ev = dict(
      property=pid, tier=tier, seed=seed, level=plan['level'],
      coverage=dict(
          evaluations=tot['evaluations'], distinct_nontrivial=len(covered),
          rule=plan['rule'], samples=samples[:12] or ['none'],
          library_calls_monitored=tot['calls'],
          oracle_comparisons=tot['comparisons'],
          values_compared=tot['values_compared'],
          comparisons_by_monitor=dict(sorted(by_label.items())),
          largest_error_over_bound={k: round(v, 4) for k, v in sorted(max_ratio.items())},
          worker_processes=len(results), workers_stopped_by_time_limit=early,
          notes=sorted(set(notes))[:40]),
      assumptions=plan.get('assumptions', []),
      wall_s=round(time.time() - t0, 2), violations=len(fresh))
  tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))

  for k in hit.values():
    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  print('%s %s seed=%d: %d cases (%d distinct), %d calls, %d comparisons, %.1fs%s' % (
      pid, tier, seed, tot['evaluations'], len(covered), tot['calls'],
      tot['comparisons'], time.time() - t0,
      ', %d workers stopped at the time limit' % early if early else ''))
  if fresh:
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    h = hashlib.sha256(json.dumps(fresh, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
      json.dump(dict(property=pid, seed=seed, tier=tier, violations=fresh,
                     replay_cmd='python3 monitors/run.py %s --replay %s' % (pid, path)),
                f, indent=1)
    for v in fresh[:8]:
      print('  [%s] %s | case=%s' % (v['label'], v['msg'][:400],
                                      json.dumps(v['case'])[:300]))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.exit(1)
  if errors:
    print('ERROR (no verdict):')
    for e in errors[:4]:
      print(e)
    sys.exit(3)
  min_cmp = plan.get('min_comparisons', 20)
  if tot['comparisons'] < min_cmp and not a.replay and only is None:
    print('ERROR: only %d comparisons were observed' % tot['comparisons'])
    sys.exit(3)
  sys.exit(0)


if __name__ == '__main__':
  main()
