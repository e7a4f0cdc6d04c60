"""C10: the batch runner never loses, tears or mixes up results."""
import copy
import os

from .. import batch, boot, common, gen

ID = "C10"
TITLE = "batch runner"
ABSOLUTE = True
FS = True
KNOWN = ["C10-unlisted"]
ENFORCE = {"lost", "torn", "wrong-result", "batch-ended", "unreported", "missing", "unlisted", "input", "outside"}
QUICK = (2200, 130)
THOROUGH = (300000, 900)
RULE = ("a run is one directory of good and bad circuit files with old results, worked on by one to four batch runs "
        "(one after the other, or two at once with pre-emption at every file and backend operation) of which the "
        "earlier meet failing file operations, full disks, torn and short writes, backend failures, interrupts and "
        "kills, then a clean run and a listing; every result file is judged after every change of the disk; "
        "non-trivial: a fault fired or two runs were interleaved, and a result was stored; distinct: by event log")
REAL = ["experimental.py", "qudiet (both copies the runner loads)", "rich", "pickle", "glob", "numpy", "scipy",
        "the kernel's files (in a scratch directory)"]
STUBS = ["open() and the os functions: real files behind a failing layer", "clock, process id", "process kill: the code stops, its buffers are lost"]


def image():
    return boot.RunnerImage()


def ups(name):
    """The directories that lead to a file."""
    d = os.path.dirname(name)
    return [d] + ups(d) if d else []


def generate(rng, i, tier):
    mode = rng.choice(["qasm", "qasm", "txt"])
    backends = rng.choice([["sparse"], ["numpy"], ["sparse", "numpy"]] if rng.random() < .88 else
                          [["cuda"], ["sparse-cuda"], ["cuda", "sparse-cuda"], ["sparse", "sparse-cuda"]])
    files, old, other = batch.directory(rng, rng.choice([1, 2, 2, 3, 4, 6]) if rng.random() < .96 else rng.choice([11, 17]), backends, mode)

    below = sorted({d for f in files for d in ups(f["name"])})

    def one(mode=mode):
        r = {"mode": mode, "backend": rng.choice(backends), "path": rng.choice(["abs", "abs", "slash", "rel", "dot", "dotslash"])}
        a = []
        if rng.random() < .3:
            a.append(rng.choice(["-v", "-vv"]))
        if rng.random() < .1:
            a += ["-t", "1"]
        if a:
            r["args"] = a
        if rng.random() < .15:
            r["samepid"] = 1
        if below and rng.random() < .2:
            r["sub"] = rng.choice(below)
        return r
    phases = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        runs = [one()]
        r = rng.random()
        if r < .3:
            runs.append(one())
        elif r < .36:
            runs.append(one("pkl"))
        elif r < .42:
            runs = [one("pkl")]
        phases.append({"runs": runs, "order": rng.randrange(1 << 20)})
    # everything that a faulty run left undone is done by a clean one
    seen = {r["backend"] for p in phases for r in p["runs"] if r["mode"] == mode}
    for b in sorted(seen):
        r = one()
        r["backend"] = b
        r.pop("sub", None)
        phases.append({"runs": [r], "order": rng.randrange(1 << 20), "clean": 1})
    if rng.random() < .5:
        phases.append({"runs": [one("pkl")], "order": rng.randrange(1 << 20), "clean": 1})
    return {"prop": ID, "files": files, "old": old, "other": other, "phases": phases,
            "gpu": any("cuda" in b for b in backends) and rng.random() < .85, "blksize": rng.choice([8192, 8192, 64, 512]),
            **({"locale": rng.choice(["ascii", "cp1252", "latin-1"])} if rng.random() < .06 else {})}


def place(rng, spec, res):
    for _ in range(4):
        out = copy.deepcopy(spec)
        hit = False
        for n, ph in enumerate(out["phases"]):
            if ph.get("clean"):
                continue
            for i, r in enumerate(ph["runs"]):
                ops = res["ops"][n][i]
                be = res["counts"][n][i].get("backend", 0)
                plan = []
                for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
                    if be and rng.random() < .22:
                        f = gen.fault(rng, "backend", be, interrupts=rng.random() < .2)
                        if f["do"] == "raise" and rng.random() < .15:
                            f["exc"] = "MarkupError"
                        if rng.random() < .2:
                            f = {"at": ["backend", rng.randint(1, be)], "do": "kill", "when": rng.choice(["before", "after"])}
                        plan.append(f)
                    else:
                        f = batch.fs_fault(rng, ops)
                        if f:
                            plan.append(f)
                if plan:
                    r["plan"] = plan
                    hit = True
            if len(ph["runs"]) > 1:
                total = sum(len(x) for x in res["ops"][n]) + sum(c.get("backend", 0) for c in res["counts"][n])
                pol = next(common.policies(rng, [total, total], 1))
                if rng.random() < .6:
                    pol["kinds"] = rng.choice([["fs"], ["fs", "stat"], ["fs", "stat", "backend"]])
                    pol["p"] = rng.choice([.1, .3, .5, .8])
                    pol.pop("max", None)
                ph["policy"] = pol
                hit = True
        if hit:
            yield out


def execute(image, spec):
    return batch.Batch(spec).run()


def concretise(spec, res):
    if "phase_switches" not in res:
        return None
    out = copy.deepcopy(spec)
    for ph, sw in zip(out["phases"], res["phase_switches"]):
        if ph.get("policy"):
            ph["policy"] = {"switches": sw, "first": ph["policy"].get("first", 0)}
    return out


def shrinks(spec):
    for part in ("phases", "files", "old", "other"):
        for c in common.chunks(spec.get(part, [])):
            yield dict(spec, **{part: c})
    for n, ph in enumerate(spec["phases"]):
        def put(p):
            return dict(spec, phases=spec["phases"][:n] + [p] + spec["phases"][n + 1:])
        if len(ph["runs"]) > 1:
            for i in range(len(ph["runs"])):
                yield put(dict(ph, runs=ph["runs"][:i] + ph["runs"][i + 1:]))
        for i, r in enumerate(ph["runs"]):
            def run(r2):
                return put(dict(ph, runs=ph["runs"][:i] + [r2] + ph["runs"][i + 1:]))
            for c in common.chunks(r.get("plan", [])):
                yield run(dict(r, plan=c))
            for k in ("args", "samepid", "sub"):
                if k in r:
                    yield run({a: b for a, b in r.items() if a != k})
            if r.get("path", "abs") != "abs":
                yield run(dict(r, path="abs"))
        pol = ph.get("policy") or {}
        if pol.get("switches"):
            for c in common.chunks(pol["switches"]):
                yield put(dict(ph, policy=dict(pol, switches=c)))
    if "locale" in spec:
        yield {k: v for k, v in spec.items() if k != "locale"}
    if spec.get("blksize") != 8192:
        yield dict(spec, blksize=8192)
    for i, f in enumerate(spec["files"]):
        if f["kind"] == "good" and f["program"]["gates"]:
            g = {"name": f["name"], "kind": "good", "data": "\n.qudit 1\nqudit x0 (2)\n.begin\n.end\n",
                 "program": {"declared": [2], "dims": [2], "gates": [], "instr": []}}
            yield dict(spec, files=spec["files"][:i] + [g] + spec["files"][i + 1:])


def nontrivial(spec, res):
    return res.get("stats", {}).get("stored", 0) > 0 and (bool(res.get("fired")) or res.get("stats", {}).get("switches", 0) > 0)
