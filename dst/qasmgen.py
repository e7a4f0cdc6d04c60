"""Random QASM programs in random layouts, with the circuit they describe."""
import re

from . import gen


def near(rng, dims, m):
    """m registers; in wide programs near each other (the gate's matrix spans them)."""
    while True:
        regs = rng.sample(range(len(dims)), m)
        if len(dims) <= 7 or gen.span(dims, regs) <= 64:
            return regs


def program(rng, cap=48, wide=False, long=False):
    """dims and gates as declared and as documented: a Toffoli's middle
    register gets one more level, and everything then acts on those.
    wide: more registers than one digit can name (sparse backend only)."""
    for _ in range(200):
        dims = gen.wide(rng) if wide else gen.layout(rng, cap, 6)
        n = len(dims)
        if max(dims) >= 9 and n > 1:
            continue
        ngates = rng.choice([0, 1, 2, 4, 8, 12])
        if long and not wide:
            ngates = rng.choice([30, 60, 120])
        kinds = [(k, rng.choice([0, 1, 1, 3])) for k in ("X", "RX", "H", "Z", "CX", "Toffoli")]
        if wide:
            ngates = gen.few(rng, dims)
            kinds = [("X", 2), ("RX", 1), ("H", rng.choice([0, .5])), ("Z", 1), ("CX", 2), ("Toffoli", .5)]
        if not any(w for _, w in kinds):
            kinds = [("X", 1)]
        raw = []
        for _ in range(ngates):
            k = gen.wchoice(rng, [x for x in kinds if x[1]])
            if k in ("X", "RX", "H", "Z"):
                raw.append([k, rng.randrange(n)])
            elif k == "CX" and n >= 2:
                raw.append([k] + near(rng, dims, 2))
            elif k == "Toffoli" and n >= 3:
                raw.append([k] + near(rng, dims, 3))
        up = {g[2] for g in raw if g[0] == "Toffoli"}
        real = [d + 1 if i in up else d for i, d in enumerate(dims)]
        p = 1
        for d in real:
            p *= d
        if p > (10000 if wide else 2 * cap):
            continue
        gates, instr = [], []
        for g in raw:
            if g[0] == "X":
                if rng.random() < .5:
                    pl = gen.plus(rng, real[g[1]])
                    gates.append({"op": "x", "q": g[1], "plus": pl})
                    instr.append(g + [pl])
                else:
                    gates.append({"op": "x", "q": g[1], "plus": 1})
                    instr.append(g)
            elif g[0] == "RX":
                gates.append({"op": "x", "q": g[1], "plus": 1})
                instr.append(g)
            elif g[0] in ("H", "Z"):
                gates.append({"op": g[0].lower(), "q": g[1]})
                instr.append(g)
            elif g[0] == "CX":
                pl = 1
                if rng.random() < .5:
                    pl = gen.plus(rng, real[g[2]])
                    instr.append(g + [pl])
                else:
                    instr.append(g)
                gates.append({"op": "cx", "ctl": g[1], "t": g[2], "plus": pl})
            else:
                gates.append({"op": "tof", "cs": [g[1], g[2]], "t": g[3], "plus": 1})
                instr.append(g)
        return {"declared": dims, "dims": real, "gates": gates, "instr": instr}
    return {"declared": [2], "dims": [2], "gates": [], "instr": []}


COMMENTS = ["# Circuit generated by QLib", "# Created by nobody", "#", "# X x0", "# CX x0 x1", "## note", "// H x0", "# .end of part one", "# durch Müller, 3 µs", "# état |ψ⟩", "// 量子"]
DECLARED = ["# registers", "# next register", "# qubit x9", "# qudit x7 (5)", "# 1) controls (2)", "#qutrit x1", "# .begin", "# régistres"]
TRAILING = [" # note", " # 3", " #2", "#x1", "\t# (4)", " # x0 x1", " # 180", "  ## H x0", " // H x0", " # ψ"]


AFTER = ["X x0\n", "H x0\nX x0\n", "note to self\n", "end\n", "qudit x9 (3)\n", ".end\n", "\n\n  X x0", "RX x0 180\n.end\n",
         ".begin\nX x0\n.end\n", ".qudit 1\nqudit x0 (4)\n.begin\nX x0\n.end\n", "# X x0\nX x0\n"]


def layout(rng, prog, plain=False, long=0.0):
    """One text for the program.  plain: the bare minimum.  long: how often the
    text is longer than any buffer a reader might use."""
    pad = 0
    if long and not plain and rng.random() < long:
        pad = rng.choice([1500, 5000, 9000, 20000, 40000, 70000])
    tail = 0 if plain or rng.random() < .6 else rng.choice([.1, .4])
    def note():
        return rng.choice(TRAILING) if tail and rng.random() < tail else ""
    def noise(p=.25, pool=COMMENTS):
        while rng.random() < p and not plain:
            lines.append(rng.choice(["", "", "   "] + pool))
    lines = []
    indent = "" if plain or rng.random() < .6 else rng.choice([" ", "    ", "\t"])
    if not plain and rng.random() < .8:
        lines.append("# Circuit generated by QLib")
    else:
        lines.append("")
    noise()
    dims = prog["declared"]
    head = rng.choice([".qudit", ".qudit", ".qubit", ".qutrit"]) if not plain else ".qudit"
    odd = not plain and rng.random() < .15   # registers called other names, or by number; other blanks
    def reg(i, names="xxXq "):
        return (rng.choice(names).strip() if odd else "x") + str(i)
    lines.append(f"{head}{rng.choice([' ', chr(9)]) if odd and head == '.qudit' else ' '}{len(dims)}" + note())
    noise(.2, DECLARED)
    order = list(enumerate(dims))
    if not plain and rng.random() < .12:
        rng.shuffle(order)
    for i, d in order:
        if d == 2 and rng.random() < .3:
            t = f"{indent}qubit x{i}"
        elif d == 3 and rng.random() < .3:
            t = f"{indent}qutrit x{i}"
        else:
            t = f"{indent}qudit{rng.choice([' ', '  ']) if odd else ' '}{reg(i)}{rng.choice([' ', '', '  ']) if odd else ' '}({d})"
        lines.append(t + note())
        noise(.1, DECLARED)
    noise(.2, ["# gates follow"] + DECLARED)
    def stuff(n):
        c = rng.choice(["# " + "-" * 76, "# X x0", "#", "", "# " + "y" * 900])
        while n > 0:
            lines.append(c)
            n -= len(c) + 1
    before = pad and rng.random() < .5
    if before:
        stuff(pad)
    lines.append(".begin" + note())
    where = rng.randint(0, len(prog["instr"]) - 1) if pad and not before and prog["instr"] else -1
    comma = not plain and rng.random() < .4
    def amount(p):
        return f"+{p}" if odd and p > 0 and rng.random() < .3 else str(p)
    tight = comma and rng.random() < .25
    case = rng.choice([str.lower, str.upper, str.swapcase]) if not plain and rng.random() < .15 else None
    for at, g in enumerate(prog["instr"]):
        if at == where:
            stuff(pad)
        noise(.12)
        k = g[0]
        sep = ("," if tight and rng.random() < .5 else ", ") if comma and rng.random() < .8 else " "
        if k == "X":
            t = f"X {reg(g[1])}" + (f" {amount(g[2])}" if len(g) > 2 else "")
        elif k == "RX":
            t = f"RX {reg(g[1])}{sep}180"
        elif k in ("H", "Z"):
            t = f"{k} {reg(g[1])}"
        elif k == "CX":
            t = f"{rng.choice(['CX', 'CX', 'CNOT'])} {reg(g[1])}{sep}{reg(g[2])}" + (f"{sep}{amount(g[3])}" if len(g) > 3 else "")
        else:
            t = f"Toffoli x{g[1]}{sep}x{g[2]}{sep}x{g[3]}"
        if case and rng.random() < .5:
            name, rest = t.split(" ", 1)
            t = case(name) + " " + rest
        if not plain and rng.random() < .08:
            t += rng.choice([" ", "  ", "\t"])
        lines.append(indent + t + note())
        if odd and k != "Toffoli" and rng.random() < .3:
            lines[-1] = lines[-1].replace(" x", rng.choice(["  x", "\tx"]))
    noise(.15)
    lines.append(".end")
    text = "\n".join(lines)
    end = len(text) - len(".end")           # first byte of the end marker
    if rng.random() < .7:
        text += "\n"
    if not plain and rng.random() < .2:
        text += rng.choice(["\n\n", "# done\n", "  \n"])
    if not plain and rng.random() < .15:
        # what follows the end marker is no part of the program
        text = text.rstrip("\n") + "\n" + rng.choice(AFTER)
    if not plain and rng.random() < .08:
        end += text[:end].count("\n")
        text = text.replace("\n", "\r\n")
    return text, end


ALIEN = ["Y x0", "S x0", "T x0", "CZ x0 x1", "SWAP x0 x1", "RX x0 90", "RY x0 180", "RZ x0 180", "CCX x0 x1 x2", "U x0", "measure x0",
         "barrier", "reset x0", "ID x0", "qudit x0 (2)", "if x0 X x1", "x0", "?", "garbage in between", "P x0 2", "1 x0", "-", "; X x0",
         "RX x0 1180", "RX x0 0.180", "RX x0 x0 180", "RX x0 3180", "H x0 x0", "H x0 2", "Z x0 180", "Z x0 1 2", "X x0 1 2", "X x0 x0", "X x0 1.5",
         "CX x0 x0 x0", "Toffoli x0 x0 x0 x0", "RX x0 18"]
STRAY = ["qubits x0", "creg c 2", "register", "qudit y", "qudit (3)", "X x0", "?", "include other", "qubit"]


def spoil(rng, text, dims):
    """The text with something in it that no reader can make sense of."""
    lines = text.split("\n")
    begin = next(i for i, l in enumerate(lines) if l.strip().startswith(".begin"))
    end = next(i for i, l in enumerate(lines) if l.strip().startswith(".end"))
    head = next(i for i, l in enumerate(lines) if l.strip().startswith(".qu"))
    if rng.random() < .75:
        lines.insert(rng.randint(begin + 1, end), rng.choice(ALIEN))
        return "\n".join(lines)
    decl = [i for i in range(head + 1, begin) if lines[i].strip().startswith("qu")]
    r = rng.random()
    if r < .3 and len(dims) > 1:                 # a register is missing, and not the last one
        del lines[rng.choice([i for i in decl if not re.match(r"\s*qu\w+\s+[xXq]?%d\b" % (len(dims) - 1), lines[i])])]
    elif r < .6:                                 # declared twice
        lines.insert(rng.randint(head + 1, begin), f"qudit x{rng.randrange(len(dims))} ({rng.choice([2, 3])})")
    else:
        lines.insert(rng.randint(head + 1, begin), rng.choice(STRAY))
    return "\n".join(lines)
