"""C06: the choice of backend never changes the answer."""
import copy

from .. import common, gen, sim, world
from ..sim import SIM

ID = "C06"
TITLE = "all backends give the same answer"
ENFORCE = {"run-broken", "backend-differs", "backend-raised"}
QUICK = (4000, 110)
THOROUGH = (150000, 900)
RULE = ("a run is one random build history replicated on the NumPy, sparse, GPU and GPU-sparse backends (the GPU ones on a "
        "simulated device), steps of the four replicas interleaved at random; operations of some backends fail before or after "
        "taking effect, or stall; the results of all returned runs are compared pairwise; non-trivial: at least two backends "
        "returned and two gates were placed; distinct: by event log")
REAL = ["qudiet.core (all four backends)", "qudiet.circuit_library", "numpy", "scipy"]
STUBS = ["cupy, cupyx.scipy.sparse (simulated device in terms of numpy and scipy)"]
ASSUMES = ["the simulated device computes what cupy computes as its documentation states: host arrays are refused outside array() and asarray(), elements are 0-dimensional device arrays, sparse matrices hold no integers"]
B = {"A": "numpy", "B": "sparse", "C": "cuda", "D": "cudasparse"}


def image():
    return common.image(gpu=True)


reference = common.reference


def generate(rng, i, tier):
    big = rng.random() < .05
    new = gen.new(rng, "A", 200 if big else rng.choice([8, 16, 32, 64]))
    dims = new["dims"]
    mix = gen.Mix(rng)
    seq = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 14]) if not big else rng.randint(1, 3)):
        seq.append(gen.gate(rng, "A", dims, mix, 24))
    if not big and rng.random() < .05:
        seq.insert(rng.randint(0, len(seq)), gen.broken_gate(rng, "A", dims))
    seq.append({"op": "measure"})
    seq += [{"op": "run"}] * rng.choice([1, 1, 2])
    lanes = []
    ids = list("ABCD")
    for c in ids:
        n = dict(new, c=c, backend=B[c], object=rng.choice([0] * 12 + [1]))
        lanes.append([n] + [dict(o, c=c) for o in seq])
    ops = []
    order = rng.choice(["round", "random", "block"])
    if order == "round":
        for k in range(len(lanes[0])):
            for l in lanes:
                ops.append(l[k])
    elif order == "block":
        rng.shuffle(lanes)
        for l in lanes:
            ops += l
    else:
        while any(lanes):
            l = rng.choice([l for l in lanes if l])
            ops.append(l.pop(0))
    return {"prop": ID, "ops": copy.deepcopy(ops)}


def place(rng, spec, res):
    if rng.random() < .35:
        return
    victims = rng.sample("ABCD", rng.choice([1, 1, 2, 3]))
    ops, n = common.place_faults(rng, spec["ops"], res["counts"], ("backend", "backend", "call"), rng.choice([1, 2, 3]),
                                 only=lambda o: o["c"] in victims and o["op"] == "run")
    if n:
        ops += [{"op": "run", "c": c} for c in "ABCD"]
        yield dict(spec, ops=ops)


def execute(image, spec):
    sim.monitor(lines=False, calls=True)
    w = world.World(image)
    out = []
    cannot = {}
    SIM.on = True
    try:
        for n, op in enumerate(spec["ops"]):
            k = len(w.suspects)
            f = len(w.findings)
            got = []
            w.on_run = lambda o, v: got.append(v)
            w.step(op)
            for tag, msg in w.findings[f:]:
                if tag in ("construct", "legal-raised", "refused"):
                    cannot.setdefault(op["c"], msg)
            if op["op"] == "run" and op["c"] in w.circ and w.circ[op["c"]].model.sealed:
                c = w.circ[op["c"]]
                key = [{a: b for a, b in g.items() if a not in ("c", "fault")} for g in c.model.gates]
                if got:
                    out.append((op["c"], key, ("value", world.M.plain(got[0])), n))
                elif any(s["tag"] == "run-raised" for s in w.suspects[k:]):
                    out.append((op["c"], key, ("raised", w.suspects[-1]["msg"]), n))
    finally:
        SIM.on = False
    w.suspects = []
    if cannot and len(cannot) < len({o["c"] for o in spec["ops"]}):
        for c, msg in cannot.items():    # what all of them refuse is no matter of the backend
            w.find("backend-raised", f"only {', '.join(sorted(B[x] for x in cannot))}: {msg}")
            break
    for i, (c, key, res, n) in enumerate(out):
        for c2, key2, res2, n2 in out[:i]:
            if key != key2:
                continue                 # one of them lacks a call that failed
            if res[0] == res2[0] == "value":
                d = world.M.same_plain(res[1], res2[1])
                if d:
                    w.find("backend-differs", f"{B[c]} (step {n}) and {B[c2]} (step {n2}) disagree on "
                           f"{world.describe_circuit(w.circ[c])}: {d}")
            elif res[0] != res2[0]:
                bad = (c, res) if res[0] == "raised" else (c2, res2)
                w.find("backend-raised", f"only {B[bad[0]]} cannot run it: {bad[1][1]}")
    return common.finish(w)


def shrinks(spec):
    ops = spec["ops"]
    for c in "ABCD":
        yield dict(spec, ops=[o for o in ops if o["c"] != c])
    # the same gate is dropped from all replicas
    lanes = {c: [o for o in ops if o["c"] == c] for c in "ABCD"}
    size = max([len(l) for l in lanes.values()] or [0])
    for k in range(1, size):
        drop = {id(l[k]) for l in lanes.values() if len(l) > k}
        yield dict(spec, ops=[o for o in ops if id(o) not in drop])
    for i, op in enumerate(ops):
        if op.get("fault"):
            yield dict(spec, ops=ops[:i] + [{k: v for k, v in op.items() if k != "fault"}] + ops[i + 1:])
    for k in range(1, size):
        for what in ("plus", "g"):
            ls = [l[k] for l in lanes.values() if len(l) > k]
            if ls and all(what in o for o in ls):
                new = 1 if what == "plus" else {"kind": "perm", "seed": ls[0]["g"]["seed"]}
                if any(o[what] != new for o in ls):
                    m = {id(o): dict(o, **{what: new}) for o in ls}
                    yield dict(spec, ops=[m.get(id(o), o) for o in ops])


def nontrivial(spec, res):
    return res.get("stats", {}).get("run-returned", 0) >= 2 and res["stats"].get("acked", 0) >= 2
