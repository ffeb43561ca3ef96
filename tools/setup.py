"""Checks that what the checks need is there; builds nothing, for the checks
import the library straight from /repo."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import hypothesis  # noqa: E402
from vf import core  # noqa: E402
from vf.ref import hashes, wire  # noqa: E402

assert hashes.sha256d(b'')[:2] == b'\x5d\xf6'
assert wire.cs(253) == b'\xfd\xfd\x00'
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('hypothesis', hypothesis.__version__, 'library at', core.REPO)
