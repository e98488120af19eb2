"""setup_cmd: nothing to compile; checks that the simulator boots against /repo and is deterministic."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import boot, rng
boot.boot()
import numpy as np
rng.mode_buggify(3)
a = np.random.rand(50).tolist()
rng.mode_buggify(3)
assert a == np.random.rand(50).tolist()
rng.mode_real(3)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
print('setup ok')
