"""C01: a run returns exactly the state of the acknowledged gate calls."""
from .. import common, gen

ID = "C01"
TITLE = "run = acknowledged gate calls"
KNOWN = ["C01-descending"]
ENFORCE = {"run", "run-raised", "construct", "legal-raised", "refused"}
ABSOLUTE = True            # judged against the reference model itself
FIGURES = True
QUICK = (12800, 110)
THOROUGH = (400000, 900)
RULE = ("a run is one random build history on 1..7 registers (rejected calls, calls and runs made to fail inside, "
        "queries, early and repeated runs in between), executed once without and once with faults; non-trivial: at "
        "least two acknowledged gates and one result compared over all basis states with the reference model; "
        "distinct: by the hash of the event log")
REAL = ["qudiet.core", "qudiet.circuit_library", "qudiet.utils", "numpy", "scipy"]
STUBS = ["none (user gate classes are generated; backend operations are the real ones behind a failing wrapper)"]

image = common.image
reference = common.reference
shrinks = common.shrinks


def history(rng, cid, tier, cap=None):
    r = rng.random()
    if cap is None and r < .012:
        return wide_history(rng, cid)
    if cap is None and r < .03:
        return tall_history(rng, cid)
    big = rng.random() < (.05 if tier == "quick" else .07)
    cap = cap or (240 if big else rng.choice([8, 16, 32, 48, 64]))
    new = gen.new(rng, cid, cap)
    dims = new["dims"]
    mix = gen.Mix(rng)
    if big:
        mix.w["cx"], mix.w["h"] = max(mix.w["cx"], 2), max(mix.w["h"], 2)
    n = rng.choice([1, 2, 3, 5, 8, 12, 20]) if not big else rng.randint(2, 6)
    noise = rng.choice([0, 0, .1, .4])
    if rng.random() < .03 and cap <= 32:
        n, noise = rng.choice([40, 70, 140]), rng.choice([0, .02])
    ops = [new]

    def disturb():
        if rng.random() < noise:
            r = rng.random()
            if r < .4:
                ops.append(gen.bad_call(rng, cid, dims, mix))
            elif r < .85:
                ops.append(gen.query(rng, cid, .01))
            else:
                ops.append({"op": "run", "c": cid})
    for _ in range(n):
        disturb()
        ops.append(gen.gate(rng, cid, dims, mix, 36 if not big else 64))
    disturb()
    ops.append({"op": "measure", "c": cid})
    ops.append({"op": "run", "c": cid})
    if rng.random() < .3:
        disturb()
        if rng.random() < .5:
            ops.append(gen.gate(rng, cid, dims, mix, 36))
        ops.append({"op": "run", "c": cid})
    return ops


def wide_history(rng, cid):
    new = gen.new_wide(rng, cid)
    mix = gen.Mix(rng, wide=True)
    ops = [new] + [gen.gate(rng, cid, new["dims"], mix, 16) for _ in range(gen.few(rng, new["dims"]))]
    return ops + [{"op": "str", "c": cid}, {"op": "measure", "c": cid}, {"op": "run", "c": cid}]


def tall_history(rng, cid):
    new = gen.new_tall(rng, cid)
    mix = gen.Mix(rng)
    mix.w["gate"] = 0
    mix.w["h"], mix.w["z"] = max(mix.w["h"], 1), max(mix.w["z"], 1)
    return [new] + [gen.gate(rng, cid, new["dims"], mix) for _ in range(rng.choice([1, 2, 4]))] + [{"op": "measure", "c": cid}, {"op": "run", "c": cid}]


def generate(rng, i, tier):
    ops = history(rng, "A", tier)
    if rng.random() < .15:
        ops += history(rng, "B", tier)
    return {"prop": ID, "ops": ops}


def place(rng, spec, res):
    if rng.random() < .6:
        return
    ops, n = common.place_faults(rng, spec["ops"], res["counts"], ("backend", "call", "ctor"), rng.choice([1, 1, 2, 3]),
                                 only=lambda o: o["op"] != "new")
    if n:
        # after failures the circuit is run once more, in good health
        for cid in ("A", "B"):
            if any(o["op"] == "run" and o["c"] == cid and o.get("fault") for o in ops):
                ops.append({"op": "run", "c": cid})
        yield dict(spec, ops=ops)


def execute(image, spec):
    return common.run_sequence(image, spec, calls=True)


def nontrivial(spec, res):
    return res.get("stats", {}).get("acked", 0) >= 2 and res["stats"].get("run-returned", 0) >= 1
