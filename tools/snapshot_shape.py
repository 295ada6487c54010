#!/usr/bin/env python3
"""writes sa/baseline_shape.json from a clean /repo"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import shape, specs as S
from sa.repo import Repo
repo = Repo()
S.load(repo)
with open(shape.BASE, "w") as f:
    json.dump(shape.snapshot(repo), f, indent=1, sort_keys=True)
    f.write("\n")
