"""The pool of seeded operations of one C13 run in a process of its own.

    fresh13.py POOL_JSON GLOBAL_SEED
"""
import json
import os
import random
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa: E402
from props import c13  # noqa: E402


class Quiet:
    def event(self, *a):
        pass


pool, g = json.loads(sys.argv[1]), int(sys.argv[2])
random.seed(g)
np.random.seed(g)
out = [json.loads(json.dumps(c13.OPS[n](Quiet(), s, k))) for n, s, k in pool]
print(json.dumps(out))
