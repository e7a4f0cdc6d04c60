"""C08: statistics and drawings tell the truth at every moment and change nothing."""
import copy

from .. import common, gen

ID = "C08"
TITLE = "truthful, harmless statistics and drawings"
ENFORCE = {"stats", "drawing", "figure", "query-raised", "run", "run-raised", "refused", "legal-raised"}
FIGURES = True
QUICK = (5200, 110)
THOROUGH = (200000, 900)
RULE = ("a run is a random build history with statistics, text drawings and figures at every point, some of them failing "
        "part-way (allocation, interrupt at a library line, broken standard output), callers overwriting what they were "
        "given; every answer is compared with a layer-packing model and every drawing row token by token, and what the figures hold when they are shown with the acknowledged gates; non-trivial: "
        "at least three queries answered and one result returned; distinct: by event log")
REAL = ["qudiet.core", "qudiet.utility.circuit_draw", "qudiet.circuit_library", "matplotlib (Agg)", "numpy", "scipy"]
STUBS = ["plt.show (the viewer: reads the open figures)", "standard output (a buffer that can fail)"]

image = common.image
reference = common.reference
shrinks = common.shrinks


def generate(rng, i, tier):
    ops = one(rng, i, "A")
    if rng.random() < .25:
        other = one(rng, i, "B", small=True)
        merged = []
        while ops or other:
            merged.append((ops if rng.random() * (len(ops) + len(other)) < len(ops) else other).pop(0))
        ops = merged
    return {"prop": ID, "ops": ops}


def one(rng, i, cid, small=False):
    wide = not small and rng.random() < .02
    new = gen.new_wide(rng, cid) if wide else gen.new(rng, cid, rng.choice([8, 16, 32, 64]))
    dims = new["dims"]
    mix = gen.Mix(rng, wide)
    if rng.random() < .4:
        mix.w["x"] = mix.w["h"] = 3
    figs = .12 if i % 4 == 0 else 0
    ops = [new]
    p = rng.choice([.2, .5, 1])
    n = rng.choice([1, 2, 4] if small else [1, 2, 4, 8, 14, 24]) if not wide else gen.few(rng, dims)
    if rng.random() < .02 and not wide and not small:
        n, p, figs = rng.choice([45, 80, 130]), .03, 0
    for _ in range(n):
        while rng.random() < p * .6:
            ops.append(gen.query(rng, cid, figs))
        r = rng.random()
        if r < .1:
            ops.append(gen.bad_call(rng, cid, dims, mix))
        ops.append(gen.gate(rng, cid, dims, mix, 24))
    ops += [{"op": "info", "c": cid}, {"op": "config", "c": cid}, {"op": "str", "c": cid}]
    ops.append({"op": "measure", "c": cid})
    for _ in range(rng.randint(1, 3)):
        ops.append(gen.query(rng, cid, figs))
    ops.append({"op": "run", "c": cid})
    if rng.random() < .3:
        ops.append(gen.gate(rng, cid, dims, mix, 24))
    ops += [{"op": "info", "c": cid}, {"op": "config", "c": cid}, {"op": "draw", "c": cid}]
    if figs and rng.random() < .5:
        ops.append({"op": "mpl", "c": cid})
    if rng.random() < .5:
        ops.append({"op": "run", "c": cid})
    return ops


QUERIES = ("info", "config", "str", "draw", "peek", "mpl")


def place(rng, spec, res):
    if rng.random() < .3:
        return
    kinds = rng.choice([("line",), ("out",), ("line", "out"), ("call", "line")])
    ops, n = common.place_faults(rng, spec["ops"], res["counts"], kinds, rng.choice([1, 2, 4]),
                                 only=lambda o: o["op"] in QUERIES)
    if n:
        # every failed query is asked again, in good health
        out = []
        for o in ops:
            out.append(o)
            if o.get("fault") and (o["op"] != "mpl" or rng.random() < .7):
                out.append({k: v for k, v in o.items() if k != "fault"})
        yield dict(spec, ops=out)


def execute(image, spec):
    return common.run_sequence(image, spec, lines=True, calls=True)


def nontrivial(spec, res):
    s = res.get("stats", {})
    asked = sum(s.get("step:" + q, 0) - s.get("failed:" + q, 0) for q in QUERIES)
    return asked >= 3 and s.get("run-returned", 0) >= 1
