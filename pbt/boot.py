"""Puts the code under test, its interpreter's libraries and hypothesis on sys.path.

Imported before anything else. The code under test is always imported from the
working tree ($VERIF_REPO or /repo), never from an installed copy, and no byte
code is read from or written to that tree.
"""
import os
import sys
import tempfile
import warnings

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SRC = os.path.join(REPO, 'src')

sys.dont_write_bytecode = True
# byte code of the tree under test is neither read nor written
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-pycache-here')

sys.path.insert(0, SRC)
for _extra in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _extra not in sys.path:
        sys.path.append(_extra)     # hypothesis and sortedcontainers only

warnings.simplefilter('ignore')

import numpy as np                                     # noqa: E402
np.seterr(all='ignore')

import sunwhere                                        # noqa: E402

if not os.path.realpath(sunwhere.__file__).startswith(SRC + os.sep):
    raise SystemExit(f'harness error: sunwhere imported from {sunwhere.__file__}, not {SRC}')
