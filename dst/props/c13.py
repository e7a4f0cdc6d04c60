"""C13: the same program gives the same answers in every process."""
import copy
import hashlib
import json
import os
import subprocess
import sys

from .. import boot, common, gen, qasmgen
from .. import model as M

ID = "C13"
TITLE = "reproducible across processes"
ABSOLUTE = True
ENFORCE = {"different", "died"}
QUICK = (800, 110)
THOROUGH = (40000, 900)
RULE = ("a run is a batch of random programs (built by calls or loaded from QASM, with queries, drawings and runs) executed "
        "in two processes that differ in hash seed, working directory, locale, time zone, clock, garbage collection, "
        "allocator, memory ballast, state of the random generators, order of the programs and in the other circuits (some "
        "failing) handled before and in between; all observations are compared; non-trivial: at least one program returned "
        "a result in both; distinct: by the hash of all observations and both environments")
REAL = ["whole interpreter processes", "qudiet.core", "qudiet.qasm", "qudiet.circuit_library", "numpy", "scipy"]
STUBS = ["every clock", "the environment is chosen by the seed"]


def image():
    return None


def program(rng, cid):
    if rng.random() < .25:
        p = qasmgen.program(rng, 16)
        text, _ = qasmgen.layout(rng, p)
        ops = [{"op": "load", "c": cid, "program": p, "text": text, "backend": rng.choice([None, "numpy", "sparse"])}]
        if rng.random() < .6:
            ops[0].update(file=rng.choice(["c.qasm", "c.qasm", "in/d.qasm"]), dir=rng.choice("uvw"), rel=rng.choice([0, 1, 1]))
    else:
        new = gen.new(rng, cid, rng.choice([8, 16, 32]))
        mix = gen.Mix(rng)
        ops = [new]
        for _ in range(rng.choice([1, 2, 4, 8])):
            ops.append(gen.gate(rng, cid, new["dims"], mix, 16))
            if rng.random() < .08:
                ops.append(gen.bad_call(rng, cid, new["dims"], mix))
            elif rng.random() < .01:
                ops.append(gen.broken_gate(rng, cid, new["dims"]))
            if rng.random() < .15:
                ops.append(gen.query(rng, cid, 0))
        ops.append({"op": "measure", "c": cid})
    ops.append({"op": "run", "c": cid})
    for k in ("info", "config", "str", "draw", "peek"):
        if rng.random() < .5:
            ops.append({"op": k, "c": cid})
    if rng.random() < .3:
        ops.append({"op": "run", "c": cid})
    return ops


def environment(rng):
    return {
        "hash": rng.choice([0, 1, 42, rng.randrange(1 << 32), rng.randrange(1 << 32)]),
        "lc": rng.choice(["C.UTF-8", "C", "POSIX", "en_US.UTF-8"]),
        "utf8": rng.choice(["", "", "0", "1"]),
        "optimize": rng.choice(["", "", "", "", "1", "2"]),
        "dev": rng.choice(["", "", "", "", "", "1"]),
        "tz": rng.choice(["UTC", "Asia/Kolkata", "America/New_York", "XYZ+11"]),
        "malloc": rng.choice(["", "malloc", "pymalloc", "debug", "malloc_debug"]),
        "cwd": rng.choice(["/", "/tmp", boot.REPO, "/usr", "@u", "@v", "@w"]),
        "gc": rng.choice(["normal", "off", "often", "collect"]),
        "epoch": rng.choice([1.7e9, 0.0, -1e8, 4.3e9, 1.6e9 + rng.randrange(10 ** 7)]),
        "uptime": rng.choice([0, 5, 1e7]),
        "random": rng.randrange(1 << 30),
        "ballast": rng.choice([0, 0, 50, 400]),
        "columns": rng.choice(["80", "20", "200"]),
    }


def generate(rng, i, tier):
    n = 80
    programs = [program(rng, f"P{k}") for k in range(n)]
    a, b = environment(rng), environment(rng)
    steps = sum(map(len, programs))
    extras = {}
    for k in range(rng.choice([0, 8, 30])):
        ops = []
        new = gen.new(rng, f"E{k}", 16)
        mix = gen.Mix(rng)
        ops.append(new)
        for _ in range(rng.randint(1, 5)):
            g = gen.gate(rng, f"E{k}", new["dims"], mix, 16)
            if rng.random() < .3:
                g["fault"] = [{"at": [rng.choice(["backend", "ctor"]), rng.randint(1, 3)], "do": "raise", "exc": rng.choice(gen.EXC)}]
            ops.append(g)
        ops.append({"op": "measure", "c": f"E{k}"})
        r = {"op": "run", "c": f"E{k}"}
        if rng.random() < .5:
            r["fault"] = [{"at": ["backend", rng.randint(1, 6)], "do": "raise", "exc": rng.choice(gen.EXC)}]
        ops += [r, {"op": "str", "c": f"E{k}"}]
        # all at once, or spread over the other programs
        if rng.random() < .5:
            extras.setdefault(rng.randrange(steps), []).extend(ops)
        else:
            for pos, op in zip(sorted(rng.randrange(steps) for _ in ops), ops):
                extras.setdefault(pos, []).append(op)
    order = list(range(n))
    rng.shuffle(order)
    return {"prop": ID, "programs": programs, "a": a, "b": b, "order": order, "extras": {str(k): v for k, v in extras.items()}}


def place(rng, spec, res):
    return ()


def process(env, spec):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "PYTHONPATH", "VERIF_REPO", "OPENBLAS_NUM_THREADS",
                                                       "OMP_NUM_THREADS", "MKL_NUM_THREADS", "MPLCONFIGDIR", "PYTHONDONTWRITEBYTECODE")}
    e.update(PYTHONHASHSEED=str(env["hash"]), LC_ALL=env["lc"], TZ=env["tz"], COLUMNS=env["columns"])
    if env.get("utf8"):
        e.update(PYTHONUTF8=env["utf8"], PYTHONCOERCECLOCALE="0")
    if env.get("optimize"):
        e["PYTHONOPTIMIZE"] = env["optimize"]
    if env.get("dev"):
        e["PYTHONDEVMODE"] = "1"
    if env["malloc"]:
        e["PYTHONMALLOC"] = env["malloc"]
    p = subprocess.run([sys.executable, "-m", "dst.probe"], input=json.dumps(spec), capture_output=True, text=True, env=e,
                       cwd=os.environ.get("PYTHONPATH"))
    try:
        return json.loads(p.stdout), None
    except ValueError:
        return None, f"status {p.returncode}: {p.stderr[-800:]}"


def execute(image, spec):
    a, ea = process(spec["a"], {"env": spec["a"], "programs": spec["programs"], "order": list(range(len(spec["programs"])))})
    order = [i for i in spec["order"] if i < len(spec["programs"])]
    b, eb = process(spec["b"], {"env": spec["b"], "programs": spec["programs"], "order": order, "extras": spec["extras"]})
    findings = []
    stats = {"processes": 2, "programs": len(spec["programs"])}
    if a is None or b is None:
        if a is None and b is None:
            raise RuntimeError("both processes died: " + ea)
        findings.append(["died", f"one of two processes died: {ea or eb}"])
    else:
        for i in map(str, range(len(spec["programs"]))):
            d = difference(a[i], b[i], spec["a"].get("optimize") == spec["b"].get("optimize"))
            if d:
                findings.append(["different", f"program {i}: {d} (environments {diff_env(spec)})"])
                break
        stats["observations compared"] = sum(map(len, a.values()))
        stats["results compared"] = sum(1 for r in a.values() for x in r if x[0] == "run" and x[1] is None)
    log = json.dumps([a, b, spec["a"], spec["b"]], sort_keys=True)
    fired = {f"environment:{k}": 1 for k in spec["a"] if spec["a"][k] != spec["b"][k]}
    if spec["extras"]:
        fired["other circuits"] = len(spec["extras"])
    return {"findings": findings, "stats": stats, "fired": fired, "counts": [],
            "digest": hashlib.sha256(log.encode()).hexdigest()[:16], "log": [f[1] for f in findings]}


def diff_env(spec):
    return {k: [spec["a"][k], spec["b"][k]] for k in spec["a"] if spec["a"][k] != spec["b"][k]}


def difference(x, y, same_python=True):
    if len(x) != len(y):
        return f"{len(x)} against {len(y)} observations"
    for n, (p, q) in enumerate(zip(x, y)):
        # without assertions something else may be raised, but nothing may succeed
        if p[0] != q[0] or (p[1] is None) != (q[1] is None) or (p[1] != q[1] and same_python):
            return f"step {n}: {p} against {q}"
        if p[0] == "run" and p[1] is None:
            d = M.same_plain(p[2], q[2])
            if d:
                return f"step {n}: run: {d}"
            if M.big(p[2]) != M.big(q[2]):
                return f"step {n}: run: the entries come in another order: {M.big(p[2])} against {M.big(q[2])}"
        elif p[2] != q[2]:
            return f"step {n}: {p[0]}: {p[2]!r} against {q[2]!r}"
    return None


def shrinks(spec):
    n = len(spec["programs"])
    for keep in common.chunks(list(range(n))):
        if keep:
            yield dict(spec, programs=[spec["programs"][k] for k in keep],
                       order=[keep.index(k) for k in spec["order"] if k in keep])
    ks = list(spec["extras"])
    for keep in common.chunks(ks):
        yield dict(spec, extras={k: spec["extras"][k] for k in keep})
    if spec["order"] != sorted(spec["order"]):
        yield dict(spec, order=sorted(spec["order"]))
    for k in spec["a"]:
        if spec["a"][k] != spec["b"][k]:
            yield dict(spec, b=dict(spec["b"], **{k: spec["a"][k]}))
    for i, p in enumerate(spec["programs"]):
        for ops in common.chunks(p[1:]):
            yield dict(spec, programs=spec["programs"][:i] + [p[:1] + ops] + spec["programs"][i + 1:])


def nontrivial(spec, res):
    return res.get("stats", {}).get("results compared", 0) > 0
