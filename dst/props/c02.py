"""C02: a gate call that fails leaves the circuit as it was and can be retried."""
import copy

from .. import common, gen

ID = "C02"
TITLE = "failed gate calls change nothing"
ENFORCE = {"changed", "bad-accepted", "bad-quiet", "refused", "legal-raised", "run", "run-raised", "construct",
           "stats", "drawing", "query-raised", "swallowed"}
QUICK = (7200, 110)
THOROUGH = (300000, 900)
RULE = ("a run is one random build history in which calls fail: illegal placements, user gate classes that raise, "
        "array allocations and backend operations failing at measured points inside the call, each failed call "
        "followed by a retry of the same call; before and after every failed call statistics, configuration and "
        "drawing are compared; non-trivial: at least one call failed and a later run returned; distinct: by event log")
REAL = ["qudiet.core", "qudiet.circuit_library", "qudiet.utils", "numpy", "scipy"]
STUBS = ["none (allocations fail at the call from library code into numpy/scipy)"]
KNOWN = ["C02-small-dims", "C02-apart"]

image = common.image
reference = common.reference


def generate(rng, i, tier):
    new = gen.new(rng, "A", rng.choice([8, 16, 32]))
    dims = new["dims"]
    mix = gen.Mix(rng)
    if rng.random() < .6:
        mix.w["gate"] = max(mix.w["gate"], 2)
        mix.w["tof"] = max(mix.w["tof"], 2)
    ops = [new]
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        while rng.random() < .35:
            ops.append(gen.bad_call(rng, "A", dims, mix))
        ops.append(gen.gate(rng, "A", dims, mix, 24))
    while rng.random() < .3:
        ops.append(gen.bad_call(rng, "A", dims, mix))
    while rng.random() < .3:
        ops.insert(rng.randrange(len(ops) + 1), gen.bad_new(rng, "B"))
    ops += [{"op": "info", "c": "A"}, {"op": "config", "c": "A"}, {"op": "str", "c": "A"}]
    ops.append({"op": "measure", "c": "A"})
    if rng.random() < .4:
        ops.append(gen.bad_call(rng, "A", dims, mix))
        ops.append(gen.gate(rng, "A", dims, mix, 24))
    ops.append({"op": "run", "c": "A"})
    return {"prop": ID, "ops": ops}


GATES = ("h", "x", "z", "cx", "tof", "gate", "measure")


def place(rng, spec, res):
    ops = spec["ops"]
    counts = res["counts"]
    spots = [(i, kind, c[kind]) for i, c in enumerate(counts) for kind in ("ctor", "call", "backend")
             if c.get(kind) and ops[i]["op"] in GATES + ("new",) and not (ops[i]["op"] == "new" and ops[i].get("bad"))]
    if not spots:
        return
    for _ in range(2 if len(spots) > 2 else 1):
        chosen = {}
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            i, kind, m = rng.choice(spots)
            chosen[i] = gen.fault(rng, kind, m)
        out = []
        for i, op in enumerate(ops):
            if i in chosen:
                # fails, once or several times, then the cause is gone
                for _ in range(rng.choice([1, 1, 1, 2])):
                    bad = copy.deepcopy(op)
                    bad["fault"] = [chosen[i]]
                    out.append(bad)
                if chosen[i]["do"] == "raise":
                    if rng.random() < .8 or op["op"] in ("new", "measure"):
                        out.append(op)
            else:
                out.append(op)
        yield dict(spec, ops=out)


def execute(image, spec):
    return common.run_sequence(image, spec, calls=True, observe=True)


def shrinks(spec):
    return common.shrinks(spec)


def nontrivial(spec, res):
    s = res.get("stats", {})
    return any(k.startswith("failed:") and k != "failed:run" for k in s) and s.get("run-returned", 0) >= 1
