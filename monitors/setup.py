"""Smoke test of the environment: compiles the monitors and imports the library."""
import ast
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for path in glob.glob(os.path.join(HERE, '**', '*.py'), recursive=True):
  with open(path) as f:
    ast.parse(f.read(), path)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu',
           PYTHONPATH=os.environ.get('E3X_REPO', '/repo'))
py = os.environ.get('E3X_PYTHON', '/opt/venv/bin/python')
sys.exit(subprocess.run([py, '-c', 'import e3x, jax, flax, numpy, mpmath; print(e3x.__file__)'],
                        env=env, cwd=HERE).returncode)
