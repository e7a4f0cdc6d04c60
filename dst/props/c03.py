"""C03: a failed or interrupted run is harmless and a run never returns a wrong result."""
import copy

from .. import common, gen

ID = "C03"
TITLE = "failed and interrupted runs"
ENFORCE = {"run", "run-raised", "run-swallowed", "run-broken", "stats", "drawing", "query-raised", "refused-measure"}
QUICK = (5200, 110)
THOROUGH = (200000, 900)
RULE = ("a run is one finished random circuit that is run several times; beside it at times a circuit with a user gate that is not unitary or does not fit, which must never return; in all but the last runs backend operations "
        "or allocations fail (before or after taking effect), stall, or the caller is interrupted at a measured line "
        "of library code; some callers overwrite the result they were given; statistics and drawing are judged in "
        "between; non-trivial: at least one run failed or stalled inside and a later run returned; distinct: by event log")
REAL = ["qudiet.core", "qudiet.circuit_library", "qudiet.utils", "numpy", "scipy"]
STUBS = ["none (operations of the real backends fail or stall in a wrapper; interrupts are raised at line events)"]

image = common.image
reference = common.reference
shrinks = common.shrinks


def generate(rng, i, tier):
    big = rng.random() < .03
    new = gen.new(rng, "A", 120 if big else rng.choice([8, 16, 32, 48]))
    dims = new["dims"]
    mix = gen.Mix(rng)
    ops = [new]
    long = not big and rng.random() < .015
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]) if not big and not long else 40 if long else 2):
        ops.append(gen.gate(rng, "A", dims, mix, 24))
    if rng.random() < .15:
        ops.append({"op": "run", "c": "A"})
    ops.append({"op": "measure", "c": "A"})
    for _ in range(rng.choice([1, 2, 2, 3, 4]) if rng.random() < .96 else rng.choice([9, 18])):
        op = {"op": "run", "c": "A"}
        if rng.random() < .25:
            op["spoil"] = 1
        ops.append(op)
        if rng.random() < .25:
            ops.append(gen.query(rng, "A", 0))
    if rng.random() < .3:
        ops.append({"op": "measure", "c": "A"})
    ops += [{"op": "info", "c": "A"}, {"op": "str", "c": "A"}, {"op": "run", "c": "A"}, {"op": "run", "c": "A"}]
    if not big and not long and rng.random() < .12:
        ops = beside(rng, ops, broken(rng))
    return {"prop": ID, "ops": ops}


def broken(rng):
    """A circuit that must never return a result."""
    new = gen.new(rng, "Z", 24)
    dims = new["dims"]
    mix = gen.Mix(rng)
    gates = [gen.gate(rng, "Z", dims, mix, 16) for _ in range(rng.choice([0, 1, 2, 4]))]
    gates.insert(rng.randint(0, len(gates)), gen.broken_gate(rng, "Z", dims))
    return [new] + gates + [{"op": "measure", "c": "Z"}] + [{"op": "run", "c": "Z"}] * rng.choice([1, 2, 2, 3])


def beside(rng, ops, other):
    """Two sequences merged at random; the end of the first stays last."""
    out, rest, other = [], list(ops[:-2]), [dict(o) for o in other]
    while rest or other:
        out.append((rest if rng.random() * (len(rest) + len(other)) < len(rest) else other).pop(0))
    return out + ops[-2:]


def place(rng, spec, res):
    ops, counts = spec["ops"], res["counts"]
    runs = [i for i, o in enumerate(ops) if o["op"] == "run"]
    runs = [i for i in runs if i < len(ops) - 2]
    if not runs:
        return
    for _ in range(3):
        out = copy.deepcopy(ops)
        style = rng.choice(["backend", "backend", "line", "line", "call", "mixed"])
        hit = False
        for i in runs:
            if rng.random() < .75 or not hit:
                kind = rng.choice(["backend", "line", "call"]) if style == "mixed" else style
                n = counts[i].get(kind)
                if not n:
                    continue
                f = gen.fault(rng, kind, n, interrupts=True)
                # the end of a run, where its result is put together, is short: aim there too
                if kind in ("line", "call") and rng.random() < .3:
                    f["at"][1] = max(1, n - rng.randrange(min(n, 60)))
                out[i]["fault"] = [f]
                if f["do"] == "stall" and rng.random() < .5:
                    out[i]["fault"].append(gen.fault(rng, kind, n))
                hit = True
        if hit:
            yield dict(spec, ops=out)


def execute(image, spec):
    return common.run_sequence(image, spec, lines=True, calls=True)


def nontrivial(spec, res):
    s = res.get("stats", {})
    return bool(res.get("fired")) and s.get("run-returned", 0) >= 1
