"""Fork server for P07: runs requests against the real library in forked children,
with the file-operation shim (LD_PRELOAD) armed as told.

Protocol: one JSON command per line on stdin; one JSON line back on stdout when the
child was started ({"pid":..}); results are written by the child to a file.
"""
import ctypes
import json
import os
import pkgutil
import sys

import numpy as np


def value(kind, degree):
  import e3x
  if kind == 'cg':
    return e3x.so3.clebsch_gordan(degree, degree, degree)
  if kind == 'wd':
    return e3x.so3.wigner_d(np.asarray(ROT), degree)
  if kind == 'sh':
    return e3x.so3.spherical_harmonics(np.asarray(VEC), degree)
  if kind == 'tc':
    return e3x.so3.irreps_to_tensor(np.linspace(-1, 2, 2 * degree + 1), degree=degree)
  if kind == 'ct':
    t = np.asarray(TEN)
    return e3x.so3.tensor_to_irreps({0: t[0, 0], 1: t[0], 2: t}.get(degree, np.zeros((3,) * degree)), degree=degree)
  raise ValueError(kind)

ROT = [[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]
TEN = [[1.0, 2.0, -0.5], [2.0, 0.5, 3.0], [-0.5, 3.0, -1.5]]
VEC = [[0.3, -1.2, 0.7], [1.0, 0.0, 0.0], [0.1, 0.2, -2.0]]


def child(cmd, shim):
  import e3x
  out = dict(results=[], events=0)
  arrays = {}
  if cmd.get('no_package'):
    def get_data(*a):
      raise FileNotFoundError('package data unavailable (injected)')
    pkgutil.get_data = get_data
  setter = dict(cg=e3x.Config.set_clebsch_gordan_cache, wd=e3x.Config.set_wigner_d_cache,
                sh=e3x.Config.set_spherical_harmonics_cache, tc=e3x.Config.set_tensor_conversion_cache)
  setter['ct'] = setter['tc']
  shim.shim_arm(cmd['prefix'].encode(), int(cmd.get('target', -1)), int(cmd.get('mode', 0)),
                cmd.get('pause', '').encode())
  for i, op in enumerate(cmd['ops']):
    if op[0] == 'set':
      setter[op[1]](op[2])
    elif op[0] == 'get':
      try:
        arrays['r%d' % i] = np.asarray(value(op[1], op[2]))
        out['results'].append('ok')
      except Exception as e:  # pylint: disable=broad-except
        out['results'].append('raised %s: %s' % (type(e).__name__, str(e)[:200]))
        continue
    elif op[0] == 'put':  # write a (damaged) file, without counting it
      shim.shim_disarm()
      with open(op[1], 'wb') as f:
        f.write(bytes.fromhex(op[2]))
    elif op[0] == 'damage':  # many damaged versions of one file in one process
      path, kind, degree, jobs = op[1:]
      shim.shim_disarm()
      with open(path, 'rb') as f:
        raw = f.read()
      res = []
      for job in jobs:
        b = bytearray(raw)
        if job[0] == 'cut':
          b = b[:job[1]]
        elif job[0] == 'flip':
          b[job[1]] ^= job[2]
        elif job[0] == 'zero':
          b[job[1]:job[2]] = bytes(len(b[job[1]:job[2]]))
        elif job[0] == 'append':
          b += os.urandom(job[1])
        elif job[0] == 'drop':
          del b[job[1]:job[2]]
        with open(path, 'wb') as f:
          f.write(bytes(b))
        try:
          v = np.asarray(value(kind, degree))
          key = 'd%d' % len(res)
          arrays[key] = v
          res.append('ok')
        except Exception as e:  # pylint: disable=broad-except
          res.append('raised %s' % type(e).__name__)
      with open(path, 'wb') as f:
        f.write(raw)
      out['damage'] = res
  out['events'] = shim.shim_count()
  shim.shim_disarm()
  np.savez(cmd['out'] + '.npz', **arrays)
  with open(cmd['out'] + '.tmp', 'w') as f:
    json.dump(out, f)
  os.replace(cmd['out'] + '.tmp', cmd['out'])


def main():
  shim = ctypes.CDLL(os.environ['E3X_SHIM'])
  import jax
  if os.environ.get('E3X_X64') == '1':
    jax.config.update('jax_enable_x64', True)
  import e3x  # pylint: disable=unused-import
  import sympy  # pylint: disable=unused-import
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
  print(json.dumps(dict(ready=True)), flush=True)
  for line in sys.stdin:
    cmd = json.loads(line)
    if cmd.get('quit'):
      break
    if cmd.get('wait'):
      try:
        _, st = os.waitpid(cmd['wait'], 0 if not cmd.get('nohang') else os.WNOHANG)
      except ChildProcessError:
        st = -1
      print(json.dumps(dict(status=st)), flush=True)
      continue
    pid = os.fork()
    if pid == 0:
      code = 0
      try:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        child(cmd, shim)
      except BaseException:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        code = 7
      os._exit(code)
    print(json.dumps(dict(pid=pid)), flush=True)


if __name__ == '__main__':
  main()
