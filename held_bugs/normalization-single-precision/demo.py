import os, sys
sys.path.insert(0, os.getcwd())
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp, numpy as np
import e3x
r = jnp.asarray(np.random.RandomState(0).normal(size=(50, 3)))
ok = True
for norm, const in (('racah', lambda l: 1), ('4pi', lambda l: 2 * l + 1), ('orthonormal', lambda l: (2 * l + 1) / 4 / np.pi)):
  y = np.asarray(e3x.so3.spherical_harmonics(r, 5, normalization=norm))
  for l in range(6):
    err = np.abs((y[:, l * l:(l + 1)**2]**2).sum(-1) / const(l) - 1).max()
    ok &= err < 1e-12
  print(norm, err)
sys.exit(0 if ok else 1)
