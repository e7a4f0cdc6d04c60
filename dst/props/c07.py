"""C07: measurement seals the circuit and acknowledgements are truthful."""
import copy

from .. import common, gen

ID = "C07"
TITLE = "sealing and truthful acknowledgements"
ENFORCE = {"ack", "refused", "unmeasured-run", "run", "run-raised", "sealed-changed", "bad-accepted", "stats"}
QUICK = (8000, 110)
THOROUGH = (300000, 900)
RULE = ("a run is a random order of gate calls, measure_all calls, illegal and failing calls, queries and runs on 1..3 "
        "circuits; a ledger of acknowledgements is compared with statistics and with the result of a circuit made of "
        "the acknowledged calls alone; non-trivial: a gate call was made after the seal and a run returned; distinct: by event log")
REAL = ["qudiet.core", "qudiet.circuit_library", "qudiet.utils", "numpy", "scipy"]
STUBS = ["none"]

image = common.image
reference = common.reference
shrinks = common.shrinks


def one(rng, cid):
    new = gen.new(rng, cid, rng.choice([8, 16, 32]))
    dims = new["dims"]
    mix = gen.Mix(rng)
    ops = [new]
    before = rng.choice([0, 1, 2, 4, 7])
    for _ in range(before):
        r = rng.random()
        if r < .12:
            ops.append({"op": "run", "c": cid})
        elif r < .2:
            ops.append(gen.bad_call(rng, cid, dims, mix))
        elif r < .3:
            ops.append(gen.query(rng, cid, 0))
        ops.append(gen.gate(rng, cid, dims, mix, 24))
    if rng.random() < .3:
        ops.append({"op": "run", "c": cid})
    ops.append({"op": "measure", "c": cid})
    if rng.random() < .5:
        ops.append({"op": "run", "c": cid})
    for _ in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        if r < .12:
            ops.append({"op": "measure", "c": cid})
        elif r < .22:
            ops.append({"op": "run", "c": cid})
        elif r < .32:
            ops.append(gen.bad_call(rng, cid, dims, mix))
        elif r < .42:
            ops.append(gen.query(rng, cid, 0))
        else:
            ops.append(gen.gate(rng, cid, dims, mix, 24))
    ops += [{"op": "info", "c": cid}, {"op": "config", "c": cid}, {"op": "run", "c": cid}]
    return ops


def generate(rng, i, tier):
    parts = [one(rng, c) for c in "ABC"[: rng.choice([1, 1, 2, 3])]]
    ops = []
    while parts:
        p = rng.choice(parts)
        ops.append(p.pop(0))
        if not p:
            parts.remove(p)
    return {"prop": ID, "ops": ops}


def place(rng, spec, res):
    if rng.random() < .4:
        return
    ops, n = common.place_faults(rng, spec["ops"], res["counts"], ("ctor", "call", "backend"), rng.choice([1, 2, 4]),
                                 only=lambda o: o["op"] not in ("new",))
    if n:
        for cid in "ABC":
            if any(o["op"] == "run" and o["c"] == cid and o.get("fault") for o in ops):
                ops.append({"op": "run", "c": cid})
        yield dict(spec, ops=ops)


def execute(image, spec):
    return common.run_sequence(image, spec, calls=True)


def nontrivial(spec, res):
    s = res.get("stats", {})
    return s.get("acked", 0) >= 1 and s.get("run-returned", 0) >= 1
