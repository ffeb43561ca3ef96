"""Writes tools/words.json: the words of the tree the checks were written
against (see vf/words.py). Run by hand after a commit to /repo."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import words  # noqa: E402

with open(words.BASELINE, 'w') as f:
    json.dump(words.pack(words.read()), f, indent=0, sort_keys=True)
    f.write('\n')
