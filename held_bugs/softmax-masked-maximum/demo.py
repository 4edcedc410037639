import os, sys
sys.path.insert(0, os.getcwd())
import jax.numpy as jnp, numpy as np
import e3x
adj = jnp.array([[1, 2, 3], [0, 2, 3], [0, 1, 3]])
where = adj < 3
ok = True
for big in (0.0, 50.0, 1e3, 1e20):
  x = jnp.array([[0.3, -0.2, big], [1.0, 2.0, big], [-5.0, 0.1, big]])
  w = np.asarray(e3x.ops.indexed_softmax(x, adj_idx=adj, where=where))
  print(big, w.sum(-1))
  ok &= np.allclose(w.sum(-1), 1, atol=1e-5)
sys.exit(0 if ok else 1)
