import os, sys
sys.path.insert(0, os.getcwd())
import tempfile, os
import numpy as np
import e3x
want = np.asarray(e3x.so3.clebsch_gordan(2, 2, 3))
with tempfile.TemporaryDirectory() as d:
  e3x.Config.set_clebsch_gordan_cache(os.path.join(d, 'cg.npz'))
  e3x.so3.clebsch_gordan(1, 1, 1)
  e3x.so3.clebsch_gordan(2, 2, 2)
  got = np.asarray(e3x.so3.clebsch_gordan(2, 2, 3))
  e3x.Config.set_clebsch_gordan_cache(None)
print(np.abs(got - want).max())
sys.exit(0 if np.allclose(got, want, atol=1e-6) else 1)
