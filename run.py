#!/opt/venv/bin/python
"""Entry point of the checks: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME]"""
import os, sys
sys.dont_write_bytecode = True
for k, v in dict(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
                 CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1").items():
    if os.environ.get(k) != v:
        os.environ.update(dict(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
                               CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1"))
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
