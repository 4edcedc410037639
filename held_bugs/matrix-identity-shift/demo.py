import os, sys
sys.path.insert(0, os.getcwd())
import jax.numpy as jnp, numpy as np
import e3x
from e3x.matrix import matmat
ok = True
for degrees, mult in (([0, 1, 2], 1), ([1, 1], 1), ([0, 2, 0], 2)):
  counts = matmat.make_dict_irreps_mult(degrees, 4)
  irreps = [jnp.asarray(np.random.RandomState(l).normal(size=(2 * l + 1, counts.get(l, 0) * mult**2)),
                        jnp.float32) for l in range(max(counts) + 1)]
  a, b = (np.asarray(matmat.make_square_matrix(irreps, degrees, mult, 4, shift, None))
          for shift in (False, True))
  err = np.abs(b - a - np.eye(len(a))).max()
  print(degrees, mult, err)
  ok &= err < 1e-5
sys.exit(0 if ok else 1)
