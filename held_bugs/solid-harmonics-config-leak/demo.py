import os, sys
sys.path.insert(0, os.getcwd())
import jax.numpy as jnp, numpy as np
import e3x
e3x.Config.set_normalization('4pi')
r = jnp.array([0.3, -0.4, 1.2])
want = np.asarray(e3x.so3.spherical_harmonics(r, 2))
for args in ((jnp.zeros((2, 4)), 1), (r, -1)):
  try:
    e3x.so3.solid_harmonics(*args)
  except ValueError:
    pass
got = np.asarray(e3x.so3.spherical_harmonics(r, 2))
print(e3x.Config.normalization, np.abs(got - want).max())
sys.exit(0 if np.allclose(got, want) and e3x.Config.normalization == '4pi' else 1)
