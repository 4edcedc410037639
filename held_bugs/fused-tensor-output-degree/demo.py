import os, sys
sys.path.insert(0, os.getcwd())
import jax, jax.numpy as jnp, numpy as np
import e3x
x = jax.random.normal(jax.random.PRNGKey(0), (5, 1, 9, 4))
y = jax.random.normal(jax.random.PRNGKey(1), (5, 1, 9, 4))
ok = True
for degree in (2, 3, 4):
  layer = e3x.nn.FusedTensor(max_degree=degree)
  params = layer.init(jax.random.PRNGKey(2), x, y)
  params = jax.tree_util.tree_map(jnp.ones_like, params)
  z = np.asarray(layer.apply(params, x, y))
  top = np.abs(z[:, :, degree**2:, :]).max()
  print(degree, top)
  ok &= top > 1e-3
sys.exit(0 if ok else 1)
