"""C05: a finished circuit can be run and queried by many threads at once."""
import copy

from .. import common, gen

ID = "C05"
TITLE = "one circuit, many callers"
ENFORCE = {"run", "run-raised", "stats", "drawing", "query-raised", "stuck", "ack"}
QUICK = (2600, 110)
THOROUGH = (100000, 900)
RULE = ("a run is one measured random circuit that 2..4 caller threads run, query, print, measure again and try to extend under a seeded "
        "scheduler that pre-empts at any line of library code and, in some runs, around every call within a line; in some threads backend operations fail or the caller is "
        "interrupted at a measured line, and some callers overwrite the result they were given; afterwards one caller asks "
        "everything again; non-trivial: at least two results returned and at least one task switch inside library code; "
        "distinct: by event log (includes every task switch and its place)")
REAL = ["qudiet.core", "qudiet.circuit_library", "qudiet.utils", "numpy", "scipy"]
STUBS = ["threading.Lock/RLock seen by library code (cooperative)", "the choice which thread runs"]

image = common.image
reference = common.reference
concretise = common.concretise
shrinks = common.shrinks_threads


def generate(rng, i, tier):
    new = gen.new(rng, "A", rng.choice([8, 16, 32]))
    dims = new["dims"]
    mix = gen.Mix(rng)
    prelude = [new]
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        prelude.append(gen.gate(rng, "A", dims, mix, 16))
    prelude.append({"op": "measure", "c": "A"})
    if rng.random() < .3:
        prelude.append({"op": "run", "c": "A"})
    tasks = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < .7:
                op = {"op": "run", "c": "A"}
                if rng.random() < .3:
                    op["spoil"] = 1
                ops.append(op)
            elif r < .76:
                ops.append({"op": "measure", "c": "A"})
            elif r < .82:
                ops.append(gen.gate(rng, "A", dims, mix, 16))
            else:
                ops.append(gen.query(rng, "A", 0))
        tasks.append(ops)
    post = [{"op": "info", "c": "A"}, {"op": "config", "c": "A"}, {"op": "str", "c": "A"}, {"op": "run", "c": "A"}]
    spec = {"prop": ID, "prelude": prelude, "tasks": tasks, "policy": {"switches": []}, "postlude": post}
    if rng.random() < .35:
        spec["fine"] = True
    return spec


def place(rng, spec, res):
    for pol in common.policies(rng, res["task_steps"], 6):
        out = dict(spec, policy=pol)
        if rng.random() < .35:
            i = rng.randrange(len(spec["tasks"]))
            kinds = rng.choice([("backend",), ("backend",), ("line",)])
            ops, n = common.place_faults(rng, spec["tasks"][i], res["task_counts"][i], kinds, 1, interrupts=True,
                                         only=lambda o: o["op"] in ("run", "info", "config", "str"))
            out["tasks"] = spec["tasks"][:i] + [ops] + spec["tasks"][i + 1:]
        yield out


def execute(image, spec):
    return common.run_threads(image, spec)


def nontrivial(spec, res):
    return res.get("stats", {}).get("run-returned", 0) >= 2 and bool(res.get("switches"))
