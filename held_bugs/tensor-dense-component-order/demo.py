import os, sys
sys.path.insert(0, os.getcwd())
import jax, jax.numpy as jnp, numpy as np
import e3x
x = jax.random.normal(jax.random.PRNGKey(0), (5, 1, 9, 4))
ok = True
for order in (True, False):
  layer = e3x.nn.TensorDense(cartesian_order=order)
  params = layer.init(jax.random.PRNGKey(2), x)
  rot = e3x.so3.random_rotation(jax.random.PRNGKey(3))
  d = e3x.so3.wigner_d(rot, 2, cartesian_order=order)
  a = layer.apply(params, e3x.nn.rotate(x, d))
  b = e3x.nn.rotate(layer.apply(params, x), d)
  err = float(jnp.abs(a - b).max())
  print(order, err)
  ok &= err < 1e-3
sys.exit(0 if ok else 1)
