#!/usr/bin/env python
"""check.py <property> [--thorough] [--replay FILE]"""
import os, sys
env = dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", PYTHONNOUSERSITE="1")
if any(os.environ.get(k) != v for k, v in env.items()):
    os.environ.update(env)
    os.execv(sys.executable, [sys.executable] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [repo, os.path.join(repo, "irreptables"), here]
from mc import core
sys.exit(core.run(sys.argv[1], sys.argv[2:]))
