"""Process set-up: must be imported before torch / pygame / lcp_physics.

Pins every source of nondeterminism that lives outside the code under test
(thread pools, CPU dispatch of the BLAS, SDL drivers) and makes sure the code
under test is /repo's working tree.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for k, v in {
    'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'MKL_CBWR': 'COMPATIBLE', 'SDL_VIDEODRIVER': 'dummy', 'SDL_AUDIODRIVER': 'dummy',
    'PYGAME_HIDE_SUPPORT_PROMPT': '1', 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1',
}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True

import warnings  # noqa: E402
warnings.filterwarnings('ignore')

for p in (REPO,):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

import torch  # noqa: E402
torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass


def load():
    """Import the package under test and check where it came from."""
    import lcp_physics
    import lcp_physics.physics
    import lcp_physics.lcp.lcp
    real = os.path.realpath(lcp_physics.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real
    return lcp_physics
