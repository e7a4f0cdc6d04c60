"""One worker: a zygote that forks a clean process image for every simulated
run, so that a run is a pure function of its spec and the code.

  python -m dst.worker search  PROP SEED FIRST STRIDE COUNT SECONDS TIER
  python -m dst.worker one     PROP            (JSON specs on stdin, one per line)
  python -m dst.worker minimise PROP SECONDS   (JSON {spec, tag} on stdin)
"""
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import traceback
import warnings

OUT = None
RUN_TIMEOUT = 90.0


def emit(obj):
    data = (json.dumps(obj) + "\n").encode()
    while data:
        n = os.write(OUT, data)
        data = data[n:]


def derive(seed, prop, i, what=""):
    return int.from_bytes(hashlib.sha256(f"{seed}:{prop}:{i}:{what}".encode()).digest()[:8], "big")


class Zygote:
    def __init__(self, prop_id):
        import numpy  # noqa: F401
        import scipy  # noqa: F401
        import scipy.linalg  # noqa: F401
        import scipy.sparse  # noqa: F401
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        import pickle, glob, tempfile, shutil, argparse, pathlib, logging, queue, concurrent.futures, typing, unittest, pprint  # noqa
        import rich.console, rich.pretty, rich.markup, rich.live, rich.status, rich.table  # noqa
        import xmlrpc.client  # noqa
        warnings.simplefilter("ignore")
        plt.show = lambda *a, **k: None
        from . import sim, boot
        self.sim = sim
        sim.install_environment()
        boot.install()
        self.prop = importlib.import_module(f"dst.props.{prop_id.lower()}")
        if getattr(self.prop, "FS", False):
            from . import simfs
            simfs.install()
            rich.live._RefreshThread.start = lambda self: None     # redraws nothing; a thread of its own
            rich.live._RefreshThread.join = lambda self, timeout=None: None
        self.image = self.prop.image()
        self.forks = 0
        fontwarm(plt) if getattr(self.prop, "FIGURES", False) else None
        gc.collect()
        gc.freeze()

    def now(self):
        return self.sim.REAL["monotonic"]()

    # ------------------------------------------------------------------
    def fork(self, fn, *args, timeout=RUN_TIMEOUT):
        """fn(image, *args) in a clean copy of this process."""
        self.forks += 1
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                gc.disable()
                self.sim.SIM.reset()
                self.sim.fresh_entropy()
                try:
                    res = {"ok": fn(self.image, *args)}
                except BaseException as e:  # harness boundary
                    self.sim.SIM.on = False
                    if isinstance(e, (self.sim.Deadlock, self.sim.StepLimit)):
                        res = {"stuck": str(e)}
                    else:
                        res = {"error": "".join(traceback.format_exception(e))[-4000:]}
                data = json.dumps(res).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        parts = []
        end = self.now() + timeout
        hung = False
        while True:
            left = end - self.now()
            if left <= 0:
                hung = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            b = os.read(r, 1 << 16)
            if not b:
                break
            parts.append(b)
        os.close(r)
        if hung:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        if getattr(self.prop, "FS", False) and (hung or os.WIFSIGNALED(status)):
            from . import simfs
            import shutil
            shutil.rmtree(simfs.scratch_path(pid), ignore_errors=True)
        if hung:
            return {"hung": True}
        if os.WIFSIGNALED(status):
            return {"signal": os.WTERMSIG(status)}
        try:
            return json.loads(b"".join(parts))
        except ValueError:
            return {"error": "child ended without an answer"}

    # ------------------------------------------------------------------
    def evaluate(self, spec):
        """Executes one spec and judges it.  Returns the execution's result
        with 'violations': [[tag, message], ...], or raises HarnessError."""
        r = self.fork(self.prop.execute, spec)
        if "ok" in r:
            res = r["ok"]
            v = [list(x) for x in res.get("findings", []) if x[0] in self.prop.ENFORCE]
            v += self.resolve(res.get("suspects", []))
        elif "stuck" in r:
            res = {}
            v = [["stuck", r["stuck"]]]
        elif "hung" in r:
            # a slow machine is no violation: ask again with much more time
            again = self.fork(self.prop.execute, spec, timeout=4 * RUN_TIMEOUT)
            if "hung" not in again:
                raise SlowRun(f"run took more than {RUN_TIMEOUT} s once")
            res = {}
            v = [["hang", "the run does not end"]]
        elif "signal" in r:
            res = {}
            v = [["crash", f"the process died of signal {r['signal']}"]]
        else:
            raise HarnessError(r["error"])
        if v and "stuck" not in r:
            # the same finding twice is one finding
            seen, u = set(), []
            for x in v:
                if x[0] not in seen:
                    seen.add(x[0])
                    u.append(x)
            v = u
        res["violations"] = v
        return res

    def resolve(self, suspects):
        out = []
        done = {}
        for s in suspects:
            if s["tag"] not in self.prop.ENFORCE or s["tag"] in {x[0] for x in out}:
                continue
            if getattr(self.prop, "ABSOLUTE", False):
                out.append([s["tag"], s["msg"]])
                continue
            key = json.dumps(s["ref"], sort_keys=True)
            if key not in done:
                r = self.fork(self.prop.reference, s["ref"])
                if "ok" not in r:
                    raise HarnessError("reference: " + str(r))
                done[key] = r["ok"]
            from . import model
            d = model.same_plain(s["got"], done[key])
            if d:
                out.append([s["tag"], s["msg"] + f" (alone, the same circuit differs: {d})"])
        return out

    # ------------------------------------------------------------------
    def shrink(self, spec, tag, seconds):
        """Greedy minimisation that keeps the violation's class."""
        end = self.now() + seconds
        tries = 0

        def fails(s):
            nonlocal tries
            tries += 1
            try:
                r = self.evaluate(s)
            except HarnessError:
                return None
            return r if any(v[0] == tag for v in r["violations"]) else None
        best = spec
        res = fails(spec)
        if res is None:
            return spec, None, tries
        if hasattr(self.prop, "concretise"):
            c = self.prop.concretise(spec, res)
            if c is not None:
                r = fails(c)
                if r is not None:
                    best, res = c, r
        progress = True
        while progress and self.now() < end:
            progress = False
            for cand in self.prop.shrinks(best):
                if self.now() >= end:
                    break
                if cand == best:
                    continue
                r = fails(cand)
                if r is not None:
                    best, res = cand, r
                    progress = True
                    break
        return best, res, tries


class HarnessError(Exception):
    pass


class SlowRun(HarnessError):
    """A run that was slow once and not the second time: decides nothing."""


def fontwarm(plt):
    f, ax = plt.subplots()
    t = ax.text(0, 0, r"$X^{+1}_{3}$")
    t.get_window_extent()
    plt.close("all")


def search(z, seed, first, stride, count, seconds, tier):
    prop = z.prop
    start = z.now()
    agg = {"runs": 0, "base_runs": 0, "fired": {}, "stats": {}, "probes": {}, "sim_steps": 0, "sim_time": 0.0,
           "switches": 0, "determinism_checked": 0, "determinism_mismatch": 0, "done": 0}
    keys, places = set(), set()
    samples = []

    def add(res, spec, base):
        agg["runs"] += 1
        agg["base_runs"] += 1 if base else 0
        for name in ("fired", "stats", "probes"):
            for k, n in res.get(name, {}).items():
                agg[name][k] = agg[name].get(k, 0) + n
        agg["sim_steps"] += res.get("steps", 0)
        agg["sim_time"] += res.get("time", 0.0)
        agg["switches"] += len(res.get("switches", []))
        if prop.nontrivial(spec, res):
            keys.add(res.get("digest") or hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16])
            if len(samples) < 2 and not base and len(json.dumps(spec)) < 4000:
                samples.append(spec)
        for p in res.get("places", []):
            places.add(p)

    def flush(final=False):
        emit({"progress": agg, "keys": sorted(keys), "places": sorted(places), "samples": samples, "final": final,
              "wall": z.now() - start})

    i = first - stride
    n = 0
    errors = 0
    while n < count and z.now() - start < seconds:
        i += stride
        n += 1
        try:
            rng = random.Random(derive(seed, prop.ID, i))
            spec = prop.generate(rng, i, tier)
            res = z.evaluate(spec)
            add(res, spec, True)
            if res["violations"]:
                emit({"violation": res["violations"][0], "spec": spec, "index": i})
                break
            if derive(seed, prop.ID, i, "again") % 40 == 1:
                again = z.evaluate(spec)
                agg["determinism_checked"] += 1
                if again.get("digest") != res.get("digest"):
                    agg["determinism_mismatch"] += 1
            stop = False
            for full in prop.place(rng, spec, res):
                r = z.evaluate(full)
                add(r, full, False)
                if r["violations"]:
                    emit({"violation": r["violations"][0], "spec": full, "index": i})
                    stop = True
                    break
                if derive(seed, prop.ID, i, "again") % 40 == 0:
                    again = z.evaluate(full)
                    agg["determinism_checked"] += 1
                    if again.get("digest") != r.get("digest"):
                        agg["determinism_mismatch"] += 1
            agg["done"] += 1
            if stop:
                break
        except SlowRun:
            agg["stats"]["slow runs left out"] = agg["stats"].get("slow runs left out", 0) + 1
        except HarnessError as e:
            # goes on: another run may still decide
            errors += 1
            if errors <= 3:
                emit({"harness_error": str(e), "index": i})
            if errors >= 100:
                break
    flush(True)


def main():
    global OUT
    OUT = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    mode, prop_id = sys.argv[1], sys.argv[2]
    z = Zygote(prop_id)
    if mode == "search":
        seed, first, stride, count = map(int, sys.argv[3:7])
        search(z, seed, first, stride, count, float(sys.argv[7]), sys.argv[8])
    elif mode == "one":
        for line in sys.stdin:
            spec = json.loads(line)
            try:
                res = z.evaluate(spec)
                emit({"violations": res["violations"], "digest": res.get("digest"), "findings": res.get("findings"),
                      "fired": res.get("fired"), "stats": res.get("stats"), "switches": res.get("switches"),
                      "log": res.get("log")})
            except HarnessError as e:
                emit({"harness_error": str(e)})
    elif mode == "known":
        from . import known
        for name in sys.argv[3:]:
            r = z.fork(known.SCENARIOS[name])
            emit({"name": name, "result": r})
    elif mode == "minimise":
        job = json.loads(sys.stdin.read())
        spec, res, tries = z.shrink(job["spec"], job["tag"], float(sys.argv[3]))
        msg = None
        if res is not None:
            msg = [v for v in res["violations"] if v[0] == job["tag"]][0][1]
        emit({"spec": spec, "message": msg, "tries": tries, "digest": res.get("digest") if res else None,
              "log": res.get("log") if res else None})


if __name__ == "__main__":
    main()
