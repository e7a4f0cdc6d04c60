"""A whole process of its own: works through programs and tells what it saw.

  python -m dst.probe      (JSON spec on stdin, JSON observations on stdout)
"""
import gc
import json
import os
import random
import re
import shutil
import sys
import tempfile


def ordered(x):
    """A plain form that keeps the order of dictionaries."""
    if isinstance(x, dict):
        return ["dict"] + [[str(k), ordered(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [ordered(v) for v in x]
    return x if isinstance(x, (int, float, str, bool, type(None))) else re.sub(r"0x[0-9a-f]+", "0x", str(x))


def main():
    spec = json.load(sys.stdin)
    out = os.dup(1)
    env = spec["env"]
    import numpy as np
    import scipy.linalg, scipy.sparse  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import warnings
    warnings.simplefilter("ignore")
    from . import boot, model as M, sim, world
    from .sim import SIM
    sim.install_environment()
    boot.install()
    SIM.reset()
    SIM.now += env.get("uptime", 0)
    SIM.wall_offset = env.get("epoch", 1.7e9)
    scratch = tempfile.mkdtemp(prefix="probe.")
    for d in "uvw":
        os.mkdir(os.path.join(scratch, d))
    if env.get("cwd"):                     # @u: where some programs find their files
        os.chdir(os.path.join(scratch, env["cwd"][1:]) if env["cwd"][0] == "@" else env["cwd"])
    mode = env.get("gc", "normal")
    if mode == "off":
        gc.disable()
    elif mode == "often":
        gc.set_threshold(5, 2, 2)
    ballast = [bytearray(37 * k) for k in range(env.get("ballast", 0))]
    random.seed(env.get("random", 1))
    np.random.seed(env.get("random", 1))
    image = boot.Image("qudiet")
    sim.monitor(False, False)
    gc.freeze()

    class Recorder(world.World):
        record = None

        def judge(self, op, k, c, value, err, harmful, before):
            if k == "run" and err is None:
                v = M.plain(value)
            elif k in ("new", "load"):
                v = None
            elif isinstance(value, dict):
                v = ordered(value)
            elif k == "peek" and isinstance(value, str):
                v = re.sub(r"0x[0-9a-f]+", "0x", value)    # a dump of objects with their addresses
            else:
                v = value
            if self.record is not None:
                self.record.append([k, type(err).__name__ if err is not None else None, v])
            if k in ("new", "load"):
                if err is None:
                    self.circ[op["c"]] = value
            elif k == "measure" and err is None:
                c.model.seal()
            if k == "run" and op.get("spoil") and err is None:
                value.clear()

        def load_real(self, op, be):
            if not op.get("file"):
                return super().load_real(op, be)
            # from a file, named relative to the directory of the moment
            here, there = os.getcwd(), os.path.join(scratch, op["dir"])
            path = os.path.join(there, op["file"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", newline="", encoding="utf-8") as f:
                f.write(op["text"])
            os.chdir(there)
            try:
                return self.image.qasm.parse_qasm(op["file"] if op.get("rel") else path, backend=be)
            finally:
                os.chdir(here)
                os.remove(path)

    w = Recorder(image)
    seen = {}
    sys.stdout = w.stdout
    SIM.on = True
    extras = {int(k): v for k, v in spec.get("extras", {}).items()}
    n = 0

    def other():
        nonlocal n
        for op in extras.get(n, []):
            w.record = None
            w.step(op)
        n += 1
    for i in spec["order"]:
        w.record = None
        rec = seen[str(i)] = []
        for op in spec["programs"][i]:
            other()
            w.record = rec
            w.step(op)
        w.circ.pop(spec["programs"][i][0]["c"], None)
        if env.get("gc") == "collect":
            gc.collect()
    SIM.on = False
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    del ballast
    data = json.dumps(seen).encode()
    while data:
        k = os.write(out, data)
        data = data[k:]


if __name__ == "__main__":
    main()
