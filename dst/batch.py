"""Simulated batch runs: a directory of circuit files on the simulated disk,
and the batch runner as processes that can be killed and started again."""
import base64
import os
import pickle
import random
import re
import sys
import warnings

from . import boot, gen, model as M, qasmgen, sim, simfs
from .sim import SIM
from .simfs import DISK

RUNNER = os.path.join(boot.REPO, "experimental.py")

# ------------------------------------------------------------------ workload
STEMS = ["a", "b", "circ", "tof-3", "v1.2", "two words", "x[1]", "x[red]", "[bold]", "[-red]", "[slash]", "ünï", "x-sparse", "long" * 12]
DIRS = ["", "", "", "sub", "sub/deep", "d.ir", "other", "s p", "k[2]", "sub/deep/er", "other/x/y/z"]


def stem(rng, taken):
    for _ in range(50):
        s = rng.choice(STEMS)
        if rng.random() < .6:
            s += str(rng.randrange(30))
        d = rng.choice(DIRS)
        p = (d + "/" if d else "") + s
        if p not in taken:
            taken.add(p)
            return p
    p = f"n{len(taken)}"
    taken.add(p)
    return p


def good_text(rng, cap=16, wide=False):
    prog = qasmgen.program(rng, cap, wide=wide)
    text, end = qasmgen.layout(rng, prog)
    if "\r" in text:
        end -= text[:end].count("\r\n")
        text = text.replace("\r\n", "\n")
    return prog, text, end


def twin(rng, f):
    """The same text but for one shift that acts on another register, or None."""
    prog = f["program"]
    n = len(prog["dims"])
    lines = f["data"].split("\n")
    xs = [i for i, g in enumerate(prog["instr"]) if g[0] == "X" and len(g) == 2]
    begin = next(i for i, l in enumerate(lines) if l.strip().startswith(".begin"))
    end = next(i for i, l in enumerate(lines) if i > begin and l.strip().startswith(".end"))
    at = [i for i in range(begin, end) if re.match(r"\s*[Xx] x\d", lines[i])]
    if n < 2 or n > 9 or not xs or len(at) != sum(g[0] == "X" for g in prog["instr"]):
        return None
    i = rng.choice(xs)
    q = rng.choice([r for r in range(n) if r != prog["instr"][i][1]])
    line = at[sum(g[0] == "X" for g in prog["instr"][:i])]
    text = list(lines)
    text[line] = re.sub(r"x\d", f"x{q}", lines[line], count=1)
    new = {"declared": prog["declared"], "dims": prog["dims"], "gates": list(prog["gates"]), "instr": list(prog["instr"])}
    new["instr"][i] = ["X", q]
    new["gates"][i] = dict(prog["gates"][i], q=q)
    return {"kind": "good", "data": "\n".join(text), "program": new}


BAD = ["empty", "cut", "garbage", "binary", "dir", "dangling", "register", "nonsense", "number", "spoilt", "spoilt"]


def bad_file(rng, name):
    kind = rng.choice(BAD)
    f = {"name": name, "kind": "bad", "how": kind}
    prog, text, end = good_text(rng, 8)
    if kind == "empty":
        f["data"] = ""
    elif kind == "cut":
        f["data"] = text[: rng.randrange(end)]
    elif kind == "garbage":
        f["data"] = rng.choice(["hello [world]\n", "[/red] not a circuit [bold]", "\n\n\n", "OPENQASM 2.0;\n"])
    elif kind == "binary":
        f["hex"] = bytes(rng.randrange(128, 256) for _ in range(30)).hex()
    elif kind == "register":
        f["data"] = "\n.qudit 2\nqudit x0 (2)\nqudit x1 (3)\n.begin\nX x0\nCX x0 x7\n.end\n"
    elif kind == "nonsense":
        f["data"] = "\n.qudit 2\nqudit x0 (2)\nqudit x1 (2)\n.begin\nCX x0\n.end\n"
    elif kind == "spoilt":
        f["data"] = qasmgen.spoil(rng, text, prog["declared"])
    elif kind == "number":
        f["data"] = "\n.qudit 1\nqudit x0 (2)\n.begin\nX x0 two\n.end\n"
    return f


def old_result(rng, name):
    r = rng.random()
    if r < .3:
        data = rng.choice([pickle.dumps({"value": [1, 2]})[:-3], b"", b"", b"\n", b"not a result\n", b"cno_such_module\nthing\n.",
                           pickle.dumps({"value": [1, 2]})[:1], b"\x80\xff.", bytes(300)])
        return {"name": name, "hex": data.hex(), "damaged": True}
    if r < .36:                            # loads, but is no result
        data = rng.choice([[1, 2], 7, None, "text", {}, {"value": None}, {"value": 3, "config": []}, (1,), {1: 2}, b"bytes"])
        return {"name": name, "hex": pickle.dumps(data).hex(), "odd": True}
    value = {"value": [{"|0>": 0.6 + 0j}, {"|stale>": 0.8}], "config": {"width": 77, "depth": rng.randrange(99)},
             "loading-time": 0.5, "execution-time": 0.25}
    return {"name": name, "hex": pickle.dumps(value).hex()}


def result_name(path, backend):
    return path.rsplit(".", 1)[0] + f"-{backend}.pkl"


def directory(rng, n, backends, mode):
    taken = set()
    files = []
    for _ in range(n):
        p = stem(rng, taken) + "." + mode
        if rng.random() < .72:
            prog, text, _ = good_text(rng, rng.choice([4, 8, 16]) if n < 10 else 4, backends == ["sparse"] and rng.random() < .01)
            files.append({"name": p, "kind": "good", "data": text, "program": prog})
        else:
            files.append(bad_file(rng, p))
    good = [f for f in files if f["kind"] == "good"]
    if good and rng.random() < .25:
        # a twin: a file of the same name (or its neighbour) and length that holds another circuit
        f = rng.choice(good)
        t = twin(rng, f)
        if t:
            d, base = os.path.split(f["name"])
            p = rng.choice([os.path.join(rng.choice([x for x in DIRS if x != d]), base), os.path.join(d, "T" + base[1:])])
            if p not in {x["name"] for x in files} and result_name(p, "b") not in {result_name(x["name"], "b") for x in files}:
                t["name"] = p
                files.append(t)
    old = []
    for f in files:
        for b in backends:
            if rng.random() < .4:
                old.append(old_result(rng, result_name(f["name"], b)))
    other = []
    if rng.random() < .3:
        other.append({"name": rng.choice(["notes.md", "sub/readme", "a.qasm.bak", "data.csv"]), "data": "keep me\n"})
    if rng.random() < .2:
        other.append({"name": "elsewhere-sparse.pkl", "hex": pickle.dumps({"value": [{"|7>": 1.0}]}).hex()})
    for n in rng.sample(["m-numpy.pkl", "sub/a0-sparse.pkl", "old/z.pkl"], rng.choice([0, 0, 1, 3])):
        if n not in {o["name"] for o in old}:
            other.append(old_result(rng, n))
    return files, old, other


def write_tree(root, items):
    for f in items:
        p = os.path.join(root, f["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.get("how") == "dir":
            os.makedirs(p, exist_ok=True)
            continue
        if f.get("how") == "dangling":
            os.symlink("nowhere-at-all", p)
            continue
        data = bytes.fromhex(f["hex"]) if "hex" in f else f["data"].encode()
        with open(p, "wb") as h:
            h.write(data)


# ------------------------------------------------------------------ faults
ERR = {
    "open-r": ["EACCES", "EIO", "ENOENT", "EMFILE", "ENOMEM"],
    "open-w": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EDQUOT"],
    "read": ["EIO"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "replace": ["EIO", "EACCES", "ENOSPC", "EBUSY"],
    "rename": ["EIO", "EACCES", "ENOSPC", "EBUSY"],
    "remove": ["EIO", "EACCES", "EBUSY"],
    "unlink": ["EIO", "EACCES", "EBUSY"],
    "chmod": ["EPERM", "EIO", "EROFS"],
    "fsync": ["EIO", "ENOSPC"],
    "scandir": ["EACCES", "EIO", "EMFILE"],
    "utime": ["EPERM", "EIO"],
    "mkdir": ["EACCES", "ENOSPC"],
}


def fs_fault(rng, ops, kills=True, styles=None):
    """One fault at one of the measured file operations `ops` (labels)."""
    by = {}
    for n, l in enumerate(ops, 1):
        by.setdefault(l, []).append(n)
    if not by:
        return None
    label = rng.choice(sorted(by))
    n = rng.choice(by[label])
    at = ["fs", n]
    style = rng.choice(styles or (["errno", "errno", "kill", "kill", "special", "special", "stall", "interrupt"]))
    if style == "kill" and not kills:
        style = "errno"
    if label == "write" and rng.random() < .4:
        style = "special"
    if style == "special" and label == "write":
        s = rng.choice(["torn", "torn", "short", "tornkill" if kills else "torn", "tornkill" if kills else "torn", "full"])
        part = rng.choice([0, 1, 2, 7, 30, 100, 200, 500, 1000])
        if s == "torn":
            return {"at": at, "do": "errno", "err": rng.choice(ERR["write"]), "part": part}
        if s == "full":
            return {"at": at, "do": "full", "room": part}
        return {"at": at, "do": s, "part": part}
    if style == "special" and label == "read":
        return {"at": at, "do": "short", "part": rng.choice([1, 1, 3, 10, 50])}
    if style == "special":
        style = rng.choice(["errno", "full"])
    if style == "full":
        return {"at": at, "do": "full", "room": rng.choice([0, 0, 5, 60, 300, 2000])}
    if style == "kill":
        return {"at": at, "do": "kill", "when": rng.choice(["before", "after"])}
    if style == "stall":
        return {"at": at, "do": "stall", "secs": rng.choice([.01, 1, 300, 86400]), "when": rng.choice(["before", "after"])}
    if style == "interrupt":
        return {"at": at, "do": "interrupt", "when": rng.choice(["before", "after"])}
    return {"at": at, "do": "errno", "err": rng.choice(ERR.get(label, ["EIO"]))}


# ------------------------------------------------------------------ execution
REPORT = re.compile(r"error|exception|fail|cannot|can't|could not|unable|invalid|skip|warn|damaged|unreadable|corrupt|\[x\]|traceback", re.I)


def reported(text, err, name):
    """Does the output name this file as one with a problem?"""
    base = os.path.basename(name)
    here = re.compile(r"(?<![\w\].-])" + re.escape(base))
    for line in err.splitlines():
        if here.search(line):
            return True
    for line in text.splitlines():
        # the listing of all files names everything and says nothing
        if here.search(line) and REPORT.search(line.replace(base, "")):
            return True
    return False


class Batch:
    def __init__(self, spec):
        self.spec = spec
        self.findings = []
        self.root = None
        self.cache = {}
        self.baseline = {}
        self.checks = 0
        self.pids = 100
        self.good = {f["name"]: f for f in spec["files"] if f["kind"] == "good"}
        self.models = {}
        self.results = {}
        self.ops = []              # per phase, per process: labels of its file operations
        self.counts = []
        self.switches = []
        self.stats = {}

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def find(self, tag, msg):
        if len(self.findings) < 20:
            self.findings.append((tag, msg))

    def model(self, name):
        m = self.models.get(name)
        if m is None:
            p = self.good[name]["program"]
            m = M.Model(p["dims"], [0] * len(p["dims"]))
            for g in p["gates"]:
                m.accept(g)
            self.models[name] = m
        return m

    # -- one result file ---------------------------------------------------
    def read(self, rel):
        try:
            fd = simfs.REAL["open"](os.path.join(self.root, rel), os.O_RDONLY)
        except OSError:
            return None
        try:
            out = b""
            while True:
                b = simfs.REAL["read"](fd, 1 << 16)
                if not b:
                    return out
                out += b
        except IsADirectoryError:
            return None
        finally:
            simfs.REAL["close"](fd)

    def verdict(self, name, data):
        """None if data is the complete right result of circuit `name`."""
        key = (name, data)
        if key not in self.cache:
            self.cache[key] = self._verdict(name, data)
        return self.cache[key]

    def _verdict(self, name, data):
        on, SIM.on = SIM.on, False
        try:
            try:
                r = pickle.loads(data)
            except Exception as e:
                return f"it cannot be loaded ({type(e).__name__}: {e}; {len(data)} bytes)"
            if not isinstance(r, dict) or not {"value", "config", "loading-time", "execution-time"} <= set(r):
                return f"it holds {str(r)[:200]}"
            m = self.model(name)
            d = M.compare(r["value"], m, "print", "amplitude")
            if d:
                return "its value is wrong: " + d
            if r["config"] != m.config():
                return f"its configuration is {r['config']}, must be {m.config()}"
            for k in ("loading-time", "execution-time"):
                if not isinstance(r[k], (int, float)):
                    return f"its {k} is {r[k]!r}"
            return None
        finally:
            SIM.on = on

    def check_result(self, rel, name, when):
        self.checks += 1
        data = self.read(rel)
        base = self.baseline.get(rel)
        if data == base:
            return
        if data is None:
            self.find("lost", f"{when}: result file {rel} has disappeared")
        elif name not in self.good:
            self.find("wrong-result", f"{when}: result file {rel} of a circuit that cannot be run has been replaced")
        else:
            v = self.verdict(name, data)
            if v:
                self.find("torn", f"{when}: result file {rel} is neither what it was nor complete and right: {v}")

    def watch(self, label, rel):
        # rel is relative to the scratch root: w/...
        w = rel[2:] if rel.startswith("w/") else None
        if w in self.results:
            self.check_result(w, self.results[w], f"during '{label} {w}'")
        elif label in ("rename", "replace", "link"):
            for r, n in self.results.items():
                self.check_result(r, n, f"during '{label} {w}'")

    def check_all(self, when):
        for r, n in self.results.items():
            self.check_result(r, n, when)

    # -- processes -----------------------------------------------------------
    def process(self, run, name):
        image = boot.RunnerImage(self.spec.get("gpu", False))
        form = run.get("path", "abs")
        cwd = boot.REPO
        if form == "abs":
            arg = self.root
        elif form == "slash":
            arg = self.root + "/"
        elif form == "rel":
            cwd, arg = os.path.dirname(self.root), "w"
        elif form == "dot":
            cwd, arg = self.root, "."
        else:
            cwd, arg = self.root, "./"
        if run.get("sub"):
            arg = os.path.join(arg, run["sub"])
        argv = [RUNNER, "-m", run["mode"], "-b", run["backend"]] + run.get("args", []) + [arg]
        # a restarted process may be given the id of the one that was killed
        if run.get("samepid") is None or self.pids == 100 or not name.endswith(".0") or self.crowded:
            self.pids += 1
        if self.on_image:
            self.on_image(image)
        return simfs.Proc(name, self.pids, argv, cwd, image.modules, image.runner.main)

    on_image = on_judge = on_touch = None
    lines = False

    def phase(self, ph, n):
        self.baseline = {r: self.read(r) for r in self.results}
        DISK.order = ph.get("order", 0)
        self.crowded = len(ph["runs"]) > 1
        procs = [self.process(r, f"run{n}.{i}") for i, r in enumerate(ph["runs"])]
        ops = {p.name: [] for p in procs}

        def on_op(label, rel):
            ops.setdefault(SIM.ctx.name, []).append(label)
            if self.on_touch:
                self.on_touch(label, rel[2:] if rel.startswith("w/") else rel)
        DISK.on_op = on_op
        DISK.watch = self.watch
        counts, sched = simfs.run_procs(procs, ph.get("policy"), [r.get("plan") for r in ph["runs"]])
        DISK.watch = DISK.on_op = None
        self.ops.append([ops[p.name] for p in procs])
        self.counts.append(counts)
        self.switches.append(sched.switches)
        self.bump("switches", len(sched.switches))
        self.check_all(f"after phase {n}")
        self.disturbed = any(f["do"] == "full" for p in procs for f in p.fired)
        self.alone = len(procs) == 1
        for p, r in zip(procs, ph["runs"]):
            self.bump("ended: " + p.outcome.split()[0])
            self.judge(p, r, n)
            if self.on_judge:
                self.on_judge(p, r, n)
        return procs

    def judge(self, p, run, n):
        fired = p.fired
        if p.outcome == "killed":
            return
        if any(f["do"] == "interrupt" or f.get("exc") == "KeyboardInterrupt" for f in fired):
            return
        if "cuda" in run["backend"] and not self.spec.get("gpu"):
            return                         # no such device: nothing was touched (check_all), and nothing can be done
        if p.outcome != "returned":
            self.find("batch-ended", f"phase {n}: the batch run ended early ({p.outcome}: {p.error}) after {describe(fired)}")
            return
        # a directory that could not be listed hides files
        blind = any(f.get("label") == "scandir" for f in fired) or any(
            f["do"] == "errno" and self.label_of(n, p, f) == "scandir" for f in fired)
        text, err = p.out.text(), p.err.text()
        if run["mode"] in ("pkl", "pickle"):
            return self.judge_listing(p, run, n, blind, text, err)
        below = run["sub"] + "/" if run.get("sub") else ""
        for f in self.spec["files"]:
            if blind:
                break
            if not f["name"].endswith("." + run["mode"]) or not f["name"].startswith(below):
                continue
            rel = result_name(f["name"], run["backend"])
            data = self.read(rel)
            fresh = f["kind"] == "good" and data is not None and self.verdict(f["name"], data) is None
            if not fresh and self.unique(f["name"]) and not reported(text, err, f["name"]):
                self.find("unreported", f"phase {n}: {f['name']} has no right result and was not reported as failed "
                          f"({f.get('how', 'good')}; {describe(fired)})")
            if f["kind"] == "good" and not fresh and not fired and not self.disturbed:
                self.find("missing", f"phase {n}: a run without any fault left no right result for {f['name']}: "
                          + ("no file" if data is None else str(self.verdict(f["name"], data)))
                          + "; its output: " + last_lines(text + err, f["name"]))
            self.bump("stored" if fresh else "reported")

    disturbed = False

    def unique(self, name):
        """No other file of that name in another directory?"""
        plain = os.path.basename
        names = [f["name"] for f in self.spec["files"]] + list(self.results) + [f["name"] for k in ("other", "old") for f in self.spec.get(k, [])]
        return sum(plain(x) == plain(name) for x in set(names) | {name}) == 1

    def label_of(self, n, p, f):
        i = int(p.name.split(".")[1])
        ops = self.ops[n][i]
        k = f["at"][1]
        return ops[k - 1] if f["at"][0] == "fs" and k <= len(ops) else None

    def judge_listing(self, p, run, n, blind, text, err):
        if blind:
            return
        on, SIM.on = SIM.on, False
        found = sorted(self.pickles())
        SIM.on = on
        for r in found:
            if run.get("sub") and not r.startswith(run["sub"] + "/"):
                continue
            data = self.read(r)
            if not self.alone and data != self.baseline.get(r, data):
                continue                   # another process changed it meanwhile
            if not self.alone and r in self.results and self.baseline.get(r) is None:
                continue
            on, SIM.on = SIM.on, False
            try:
                val = pickle.loads(data)
                damaged = False
            except Exception:
                damaged = True
            SIM.on = on
            base = os.path.basename(r)
            if base not in text + err:
                self.find("unlisted", f"phase {n}: listing says nothing about {r} ({describe(p.fired)})")
            elif not self.unique(r):
                pass
            elif damaged:
                if not reported(text, err, r):
                    self.find("unlisted", f"phase {n}: listing does not report the damaged {r}")
                self.bump("listed-damaged")
            elif not reported(text, err, r):
                try:
                    labels = [str(k) for e in val["value"] for k in e]
                except Exception:
                    labels = []
                if any(k not in text for k in labels):
                    self.find("unlisted", f"phase {n}: listing does not show the content of {r}")
                self.bump("listed")
            elif not p.fired and self.alone and isinstance(val, dict) and isinstance(val.get("value"), list):
                self.find("unlisted", f"phase {n}: listing reports the intact {r} as damaged")

    def pickles(self):
        out = []
        for d, _, names in os.walk(self.root):
            for x in names:
                if x.endswith(".pkl") and not x.startswith("."):
                    out.append(os.path.relpath(os.path.join(d, x), self.root))
        return out

    # -- the whole run ---------------------------------------------------------
    def run(self):
        spec = self.spec
        sim.monitor(lines=self.lines, calls=False)
        warnings.resetwarnings()
        warnings.simplefilter("default")
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        DISK.__init__()
        self.root = simfs.make_root()
        DISK.blksize = spec.get("blksize", 8192)
        DISK.encoding = spec.get("locale", "utf-8")
        try:
            write_tree(self.root, spec["files"] + spec.get("other", []) + spec.get("old", []))
            kept = {f["name"]: self.read(f["name"]) for f in spec["files"] + spec.get("other", [])}
            for ph in spec["phases"]:
                for r in ph["runs"]:
                    if r["mode"] not in ("pkl", "pickle"):
                        for f in spec["files"]:
                            if f["name"].endswith("." + r["mode"]):
                                self.results[result_name(f["name"], r["backend"])] = f["name"]
            SIM.on = True
            try:
                for n, ph in enumerate(spec["phases"]):
                    self.phase(ph, n)
            finally:
                SIM.on = False
                DISK.watch = DISK.on_op = None
            for name, data in kept.items():
                if self.read(name) != data:
                    self.find("input", f"the batch runner changed {name}")
            if DISK.refused:
                self.find("outside", f"the batch runner wrote outside its directory: {DISK.refused[:3]}")
        finally:
            simfs.drop_root()
        return {
            "findings": self.findings, "suspects": [], "counts": self.counts, "ops": self.ops, "stats": self.stats,
            "fired": SIM.fired, "probes": {"result files judged": self.checks}, "steps": SIM.total_steps,
            "time": SIM.now - 1000.0, "digest": SIM.digest(), "phase_switches": self.switches,
            "log": [list(map(str, x)) for x in SIM.log[-60:]],
        }


def last_lines(text, name):
    base = os.path.basename(name)
    hits = [l for l in text.splitlines() if base in l and "Analyzing" not in l]
    return " / ".join(hits[-2:])[-400:]


def describe(fired):
    if not fired:
        return "no fault"
    return "faults: " + ", ".join(f["do"] + (":" + f.get("err", f.get("exc", "")) if f.get("err") or f.get("exc") else "")
                                  + f" at {f['at'][0]} {f['at'][1]}" for f in fired[:4])
