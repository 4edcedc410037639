import os, sys
sys.path.insert(0, os.getcwd())
import jax.numpy as jnp, numpy as np
import e3x, functools
r = jnp.array([[0.3, -0.4, 1.2], [1.0, 2.0, -2.0]])
f = lambda r: np.asarray(e3x.nn.basis(r, max_degree=2, num=3,
    radial_fn=lambda x, num: jnp.ones((*x.shape, num), x.dtype)))
ok = True
for scale in (1.0, 1e-3, 1e-5, 1e-7, 1e-9):
  err = np.abs(f(r * scale) - f(r)).max()
  print(scale, err)
  ok &= err < 1e-4
sys.exit(0 if ok else 1)
