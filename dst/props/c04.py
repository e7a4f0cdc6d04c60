"""C04: circuits never influence one another or the arguments they were made from."""
import copy

from .. import common, gen, qasmgen

ID = "C04"
TITLE = "circuits are isolated from each other"
ENFORCE = {"run", "run-raised", "args", "stats", "drawing", "query-raised", "construct", "legal-raised", "refused", "ack",
           "bad-accepted", "stuck"}
QUICK = (3000, 110)
THOROUGH = (100000, 900)
RULE = ("a run is 2..5 circuits made from shared or equal arguments (register list, initial states, gate classes, Output, "
        "placement lists, QASM text, backend), built, queried and run either by 2..4 caller threads under a seeded scheduler that "
        "pre-empts at any line of library code and, in some runs, around every call within a line, or by one caller who interleaves them, overwrites argument lists after the "
        "calls and overwrites returned objects; non-trivial: at least two circuits returned a result; distinct: by event log "
        "(includes every task switch and its place)")
REAL = ["qudiet.core", "qudiet.circuit_library", "qudiet.qasm", "qudiet.utils", "numpy", "scipy"]
STUBS = ["threading.Lock/RLock seen by library code (cooperative)", "the choice which thread runs"]
KINDS = ("backend", "ctor")
OWN = ("mutate", "checkargs", "drop")      # steps of the caller alone

image = common.image
reference = common.reference
concretise = common.concretise


def circuit_ops(rng, cid, new, mix, spoil, share_lists, args):
    dims = new["dims"]
    ops = [new]
    for _ in range(rng.choice([1, 2, 3, 5, 7])):
        g = gen.gate(rng, cid, dims, mix, 16)
        if share_lists and g["op"] in ("cx", "tof", "gate") and rng.random() < .4:
            want = [g["ctl"], g["t"]] if g["op"] == "cx" else g["cs"] if g["op"] == "tof" else g["q"]
            if isinstance(want, list):
                key = f"pl{len(args)}"
                args[key] = list(want)
                g.pop("cast", None)
                g["arg"] = key
                ops.append(g)
                if rng.random() < .7:
                    ops.append({"op": "mutate", "arg": key, "how": rng.choice(["clear", "reverse", "set", "append"]), "i": 0,
                                "value": rng.randrange(len(dims))})
                continue
        ops.append(g)
        if rng.random() < .15:
            q = gen.query(rng, cid, 0)
            ops.append(q)
    ops.append({"op": "measure", "c": cid})
    for _ in range(rng.choice([1, 1, 2])):
        r = {"op": "run", "c": cid}
        if spoil and rng.random() < .4:
            r["spoil"] = 1
        ops.append(r)
    ops.append(gen.query(rng, cid, 0))
    ops.append({"op": "run", "c": cid})
    return ops


def generate(rng, i, tier):
    threads = rng.random() < .6
    n = rng.choice([2, 2, 3, 4]) if threads else rng.choice([2, 3, 5])
    args = {}
    base = gen.new(rng, "?", rng.choice([8, 16, 24]), 4)
    base.pop("tuple", None)
    args["dims"] = list(base["dims"])
    args["init"] = [rng.randrange(d) for d in base["dims"]][: rng.choice([len(base["dims"]), rng.randint(0, len(base["dims"]))])]
    mix = gen.Mix(rng)
    outkind = {"type": rng.choice(["state", "print"]), "method": rng.choice(["amplitude", "probability"])}
    if max(base["dims"]) >= 10:
        outkind["type"] = "state"
    same_backend = rng.random() < .5
    parts = []
    ids = "ABCDEFG"
    for k in range(n):
        cid = ids[k]
        r = rng.random()
        if r < .1:
            p = qasmgen.program(rng, 12)
            text, _ = qasmgen.layout(rng, p)
            ops = [{"op": "load", "c": cid, "text": text, "program": p, "backend": base["backend"]}]
            ops += [{"op": "run", "c": cid}, gen.query(rng, cid, 0), {"op": "run", "c": cid}]
            parts.append(ops)
            continue
        if r < .7:
            new = copy.deepcopy(base)
            share = {}
            if rng.random() < .7:
                share["dims"] = "dims"
            if rng.random() < .7:
                share["init"] = "init"
            new["init"] = list(args["init"])
            new["out"] = None
            if rng.random() < .6 or max(base["dims"]) >= 10:
                new["out"] = dict(outkind)
                if rng.random() < .7:
                    share["out"] = "out"
            if share:
                new["share"] = share
        else:
            # similar, but not the same
            new = gen.new(rng, cid, 24, 4)
            if rng.random() < .5:
                new["dims"] = [d + (rng.random() < .4) for d in base["dims"]]
                new["init"] = None
                new.pop("tuple", None)
                new["out"] = None if max(new["dims"]) < 10 else {"type": "state", "method": "amplitude"}
                p = 1
                for d in new["dims"]:
                    p *= d
                if p > 72:
                    new["dims"] = [2] * len(new["dims"])
        new["c"] = cid
        if same_backend:
            new["backend"] = base["backend"]
        parts.append(circuit_ops(rng, cid, new, mix, True, True, args))
    spec = {"prop": ID, "args": args}
    if threads:
        spec.update(prelude=[], tasks=parts, policy={"switches": []}, postlude=[])
        if rng.random() < .25:
            spec["fine"] = True
        # afterwards each circuit is asked once more, by one caller
        for k in range(n):
            spec["postlude"] += [{"op": "info", "c": ids[k]}, {"op": "run", "c": ids[k]}]
        return spec
    # one caller, interleaving, changing its lists in between
    ops = []
    parts = [list(p) for p in parts]
    pending = list(parts)
    current_init = list(args["init"])
    unborn = lambda: [p for p in pending if p and p[0]["op"] == "new"]
    drops = rng.random() < .3
    while pending:
        p = pending[0] if drops and rng.random() < .8 else rng.choice(pending)
        for _ in range(rng.choice([1, 1, 2, 6])):
            if p:
                ops.append(p.pop(0))
        if not p:
            if drops and rng.random() < .7:
                ops.append({"op": "drop", "c": ops[-1].get("c", "?"), "classes": rng.random() < .5})
            pending = [x for x in pending if x]
        if rng.random() < .12 and not [x for x in unborn() if (x[0].get("share") or {}).get("dims")]:
            ops.append({"op": "mutate", "arg": "dims", "how": rng.choice(["append", "set", "clear", "reverse"]), "i": 0, "value": 7})
            ops.append({"op": "checkargs"})
        elif rng.random() < .12 and not [x for x in unborn() if (x[0].get("share") or {}).get("init")]:
            ops.append({"op": "mutate", "arg": "init", "how": rng.choice(["append", "clear", "reverse", "set"]), "i": 0, "value": 1})
        elif rng.random() < .1:
            # a legal change before the next circuit is made from the same list
            k = rng.randrange(len(base["dims"]))
            if k < len(current_init):
                v = rng.randrange(base["dims"][k])
                ops.append({"op": "mutate", "arg": "init", "how": "restore",
                            "value": current_init[:k] + [v] + current_init[k + 1:]})
    for k in range(n):
        ops.append({"op": "run", "c": ids[k]})
    spec["ops"] = ops
    return spec


def place(rng, spec, res):
    if "ops" in spec:
        if rng.random() < .5:
            ops, n = common.place_faults(rng, spec["ops"], res["counts"], KINDS, rng.choice([1, 2]),
                                         only=lambda o: o["op"] == "run")
            if n and len(res["counts"]) == len([o for o in spec["ops"] if o["op"] not in OWN]):
                # counts has no entry for the caller's own steps
                ops = faulted_sequence(rng, spec["ops"], res["counts"])
                for k in "ABCDE":
                    ops.append({"op": "run", "c": k})
                yield dict(spec, ops=ops)
        return
    for pol in common.policies(rng, res["task_steps"], 5):
        out = dict(spec, policy=pol)
        if rng.random() < .3:
            # one of the callers meets failures
            i = rng.randrange(len(spec["tasks"]))
            ops, n = common.place_faults(rng, spec["tasks"][i], res["task_counts"][i], KINDS, rng.choice([1, 2]),
                                         only=lambda o: o["op"] == "run")
            out["tasks"] = spec["tasks"][:i] + [ops] + spec["tasks"][i + 1:]
        yield out


def faulted_sequence(rng, ops, counts):
    ops = copy.deepcopy(ops)
    it = iter(counts)
    spots = []
    for o in ops:
        if o["op"] in OWN:
            continue
        c = next(it)
        if o["op"] == "run" and c.get("backend"):
            spots.append((o, c["backend"]))
    for o, n in rng.sample(spots, min(len(spots), 2)):
        o["fault"] = [gen.fault(rng, "backend", n)]
    return ops


def execute(image, spec):
    if "ops" in spec:
        return common.run_sequence(image, spec, lines=False, calls=False)
    return common.run_threads(image, spec)


def shrinks(spec):
    if "ops" in spec:
        yield from common.shrinks(spec)
    else:
        yield from common.shrinks_threads(spec)


def nontrivial(spec, res):
    return res.get("stats", {}).get("run-returned", 0) >= 2
