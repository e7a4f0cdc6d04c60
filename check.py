#!/usr/bin/env python3
"""Runs the simulated runs of one property and reports.

  check.py C01                     tier and seed from VERIF_TIER, VERIF_SEED
  check.py --replay FILE           executes a replay file once more
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = sys.executable


def clean_environment():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "VERIF_WORKERS", "TMPDIR", "VERIF_SCALE")}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             MKL_NUM_THREADS="1", MPLBACKEND="Agg", COLUMNS="30000", LINES="50", TERM="dumb", LC_ALL="C.UTF-8", TZ="UTC",
             PYTHONPATH=HERE, PYTHONUNBUFFERED="1", MPLCONFIGDIR=os.path.join(HERE, "evidence", ".mpl"),
             PYTHONNOUSERSITE="1")
    return e


if __name__ == "__main__":
    if sys.executable != PYTHON or os.environ.get("PYTHONPATH") != HERE:
        os.makedirs(os.path.join(HERE, "evidence", ".mpl"), exist_ok=True)
        try:
            # no address randomisation: one seed is one memory layout
            import ctypes
            libc = ctypes.CDLL(None)
            if not libc.personality(0xFFFFFFFF) & 0x0040000:
                libc.personality(0x0040000)
        except Exception:
            pass
        os.chdir(HERE)
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], clean_environment())
    sys.path.insert(0, HERE)
    from dst import engine
    sys.exit(engine.main(sys.argv[1:]))
