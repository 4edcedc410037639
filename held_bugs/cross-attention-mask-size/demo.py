import os, sys
sys.path.insert(0, os.getcwd())
import jax, jax.numpy as jnp, numpy as np
import e3x
nq, nk = 3, 6
key = jax.random.PRNGKey(0)
q = jax.random.normal(key, (nq, 1, 4, 8))
kv = jax.random.normal(jax.random.PRNGKey(1), (nk, 1, 4, 8))
adj = jnp.array([[0, 4, 5], [1, 2, 3], [5, 3, 0]])
dst = jnp.repeat(jnp.arange(nq), 3)
src = adj.reshape(-1)
mha = e3x.nn.MultiHeadAttention(num_heads=2, use_relative_positional_encoding_qk=False,
                                use_relative_positional_encoding_v=False)
params = mha.init(jax.random.PRNGKey(2), q, kv, dst_idx=dst, src_idx=src)
sparse = np.asarray(mha.apply(params, q, kv, dst_idx=dst, src_idx=src))
dense = np.asarray(mha.apply(params, q, kv, adj_idx=adj))
print(np.abs(sparse - dense).max())
sys.exit(0 if np.allclose(sparse, dense, atol=1e-4) else 1)
