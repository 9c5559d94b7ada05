#!/opt/venv/bin/python
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/pyvc_numba_cache_%d" % os.getpid())
os.environ.setdefault("MPLCONFIGDIR", "/tmp/pyvc_mpl_%d" % os.getpid())
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from pyvc.runner import main

main()
