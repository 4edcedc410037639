import os, sys
sys.path.insert(0, os.getcwd())
import jax, numpy as np
import e3x
bad = 0
for p in (0.3, 0.5, 0.9):
  rot = np.asarray(e3x.so3.random_rotation(jax.random.PRNGKey(7), perturbation=p, num=2000), float)
  cos = (np.trace(rot, axis1=-2, axis2=-1) - 1) / 2
  angle = np.degrees(np.arccos(np.clip(cos, -1, 1)))
  print(p, angle.max(), 180 * p)
  bad += np.sum(angle > 180 * p + 0.5)
sys.exit(1 if bad else 0)
