"""C11: reported durations measure elapsed time whatever the clock does."""
import copy
import pickle

from .. import batch, boot, common
from ..sim import SIM
from . import c10

ID = "C11"
TITLE = "durations"
ABSOLUTE = True
FS = True
ENFORCE = {"duration", "negative", "batch-ended", "no-duration"}
QUICK = (5200, 110)
THOROUGH = (300000, 900)
RULE = ("a run is one to three batch runs over a directory of circuits while the wall clock is stepped forwards and "
        "backwards at file operations, backend operations and single lines of the code, and file and backend "
        "operations take (simulated) time from milliseconds to days; the recorded durations are compared with the "
        "simulated time that passed while each circuit was loaded and run; non-trivial: a clock step or a stall "
        "fired and a duration was compared; distinct: by event log")
REAL = c10.REAL
STUBS = ["every clock of the time and datetime modules", "open() and the os functions: real files behind a stalling layer"]

image = c10.image
shrinks = c10.shrinks
concretise = c10.concretise


def generate(rng, i, tier):
    mode = rng.choice(["qasm", "txt"])
    backends = rng.choice([["sparse"], ["numpy"]])
    files, old, other = batch.directory(rng, rng.choice([1, 1, 2, 3, 4]), backends, mode)
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = {"mode": mode, "backend": backends[0], "path": rng.choice(["abs", "rel", "dot"])}
        if rng.random() < .2:
            r["args"] = rng.choice([["-v"], ["-vv"], ["-t", "1"], ["-v", "-t", "1"]])
        phases.append({"runs": [r], "order": rng.randrange(1 << 20)})
    return {"prop": ID, "files": files, "old": old, "other": other, "phases": phases, "blksize": rng.choice([8192, 64]),
            "epoch": rng.choice([1.7e9, 1.7e9, 0.0, 4.2e9, 2 ** 31 - 1100.0])}


SECS = [.000015, .001, .0123456, .02, .5, 1, 3, 3.1415926, 59, 61.75, 3600, 86400 * 3]


def clock_fault(rng, at):
    do = rng.choice(["clock", "clock", "stall", "stall", "both", "compute"])
    f = {"at": at, "do": do}
    if do in ("clock", "both"):
        f["jump"] = rng.choice([-1, 1]) * rng.choice([.01, 1, 60, 3600, 86400, 3.2e7, 1e9])
    if do != "clock":
        f["secs"] = rng.choice(SECS)
    if rng.random() < .5 and at[0] != "line":
        f["when"] = "after"
    return f


def place(rng, spec, res):
    for _ in range(3):
        out = copy.deepcopy(spec)
        hit = False
        for n, ph in enumerate(out["phases"]):
            c = res["counts"][n][0]
            plan = {}
            for _ in range(rng.choice([1, 2, 3, 6])):
                kinds = [k for k in ("fs", "backend", "line") if c.get(k)]
                if not kinds:
                    break
                k = rng.choice(kinds)
                at = [k, rng.randint(1, c[k])]
                f = clock_fault(rng, at)
                if k == "line":
                    if "jump" not in f:
                        f = {"at": at, "jump": rng.choice([-5, 5, -7200, 1e6])}
                    f = {"at": at, "do": "clock", "jump": f["jump"]}
                elif rng.random() < .06:
                    f = {"at": at, "do": "raise", "exc": "MemoryError"} if k == "backend" else {"at": at, "do": "errno", "err": "EIO"}
                plan[tuple(at)] = f
            if plan:
                ph["runs"][0]["plan"] = list(plan.values())
                hit = True
        if hit:
            yield out


class Timed(batch.Batch):
    """Knows how much simulated time passed while each circuit was loaded and run."""

    lines = True

    def __init__(self, spec):
        super().__init__(spec)
        self.stage = self.file = None
        self.spent = {}
        self.names = {f["name"] for f in spec["files"]}
        SIM.wall_offset = spec["epoch"] - SIM.now + 1000.0

    def on_touch(self, label, rel):
        if rel in self.names:
            if self.file != rel or self.stage is None:
                self.spent[rel] = {"loading-time": 0.0, "execution-time": 0.0, "jumps": 0}
            self.file, self.stage = rel, "loading-time"

    def on_time(self, secs):
        if self.stage and self.file:
            self.spent[self.file][self.stage] += secs

    def on_image(self, image):
        for cls in image.circuits:
            real = cls.run

            def run(qc, *a, _real=real, **k):
                if self.stage == "loading-time":
                    self.stage = "execution-time"
                try:
                    return _real(qc, *a, **k)
                finally:
                    self.stage = None
            cls.run = run

    def phase(self, ph, n):
        self.spent, self.stage, self.file = {}, None, None
        SIM.on_time = self.on_time
        try:
            return super().phase(ph, n)
        finally:
            SIM.on_time = None

    def on_judge(self, p, run, n):
        for rel, name in self.results.items():
            data = self.read(rel)
            if data is None or data == self.baseline.get(rel):
                continue
            try:
                r = pickle.loads(data)
            except Exception:
                continue                   # another property's business
            for k in ("loading-time", "execution-time"):
                v = r.get(k) if isinstance(r, dict) else None
                if not isinstance(v, (int, float)):
                    self.find("no-duration", f"phase {n}: {rel} records {k} as {v!r}")
                    continue
                want = self.spent.get(name, {}).get(k, 0.0)
                self.bump("durations compared")
                if v < 0:
                    self.find("negative", f"phase {n}: {rel} records a {k} of {v} s")
                elif abs(v - want) > 1e-6 + 1e-9 * abs(want):
                    self.find("duration", f"phase {n}: {rel} records a {k} of {v} s, but {want} s passed ({batch.describe(p.fired)})")


def execute(image, spec):
    return Timed(spec).run()


def nontrivial(spec, res):
    return bool(res.get("fired")) and res.get("stats", {}).get("durations compared", 0) > 0
