"""C23 CTL export"""
import re

from props.luts import *

SCENARIOS = Registry()
BOUNDS = "1D exports of 2 to 9 (33) entries, 3D exports of 2 to 4 (5) points, and of up to 1024 entries and 17 points with per axis with one symbolic entry, of any list (its answers are arbitrary), input ranges from a choice of seven and symbolic ones, sizes differing " \
         "between the axes for the 3D writer and one to four channels for the 1D writer; answers of 1e-5 to 1e5 in size; the exported program is interpreted at every sample position and, in 1D, between and beyond them"
OUTSIDE = "values whose size needs more than nine digits before the point; 3D lookups between the lattice points (the CTL library does them)"

RANGES = ((0.0, 1.0), (-0.125, 1.125), (0.0, 2.0), (0.25, 1.0), (-1.0, 1.0), (0.0625, 16.0), (-2.0, -1.0))


class Program:
    """What a CTL file says: its constants, and the value of each output of main in terms of lookups."""

    def __init__(self, S, text):
        self.S = S
        text = re.sub(r"//.*", "", text)
        self.const = {}
        for name, dims, body in re.findall(r"const\s+float\s+(\w+)\s*((?:\[\d*\]\s*)*)=\s*([^;]*);", text):
            self.const[name] = ([int(d) if d else None for d in re.findall(r"\[(\d*)\]", dims)], self.value(body.strip()))
        main = text[text.index("main"):]
        head, body = main[:main.index("{")], main[main.index("{") + 1:main.rindex("}")]
        self.inputs = re.findall(r"input\s+varying\s+float\s+(\w+)", head)
        self.outputs = re.findall(r"output\s+varying\s+float\s+(\w+)", head)
        self.steps = [s.strip() for s in body.split(";") if s.strip()]

    def value(self, body):
        if not body.startswith("{"):
            return self.S.num(body.strip())
        parts, depth, last = [], 0, ""
        for ch in body[1:body.rindex("}")]:
            if ch == "," and depth == 0:
                parts.append(last)
                last = ""
                continue
            depth += (ch == "{") - (ch == "}")
            last += ch
        parts.append(last)
        return [self.value(p.strip()) for p in parts]

    def run(self, lookup, **values):
        """values of the inputs; lookup(kind, ...) does the lookups."""
        env = dict(values)
        for s in self.steps:
            m = re.match(r"^(?:float\s+)?(\w+)\s*=\s*(\w+)$", s)
            if m:
                env[m.group(1)] = env[m.group(2)]
                continue
            m = re.match(r"^(\w+)\s*=\s*lookup1D\s*\(\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*\)$", s)
            if m:
                env[m.group(1)] = lookup("1D", *([self.const[m.group(k)][1] for k in (2, 3, 4)] + [env[m.group(5)]]))
                continue
            m = re.match(r"^lookup3D_f\s*\((.*)\)$", s, re.S)
            if m:
                a = [x.strip() for x in m.group(1).split(",")]
                got = lookup("3D", *([self.const[x][1] for x in a[:3]] + [[env[x] for x in a[3:6]]]))
                for x, v in zip(a[6:], got):
                    env[x] = v
                continue
            self.S.fail("program", "statement %r" % s)
        return [env[o] for o in self.outputs]


def lookups(S, kind, table, lo, hi, x):
    if kind == "1D":
        return lerp(S, x, lo, hi, table)
    out = table
    for c in range(3):
        n = len(out)
        t = (x[c] - lo[c]) / (hi[c] - lo[c]) * (n - 1.0)
        k = min(range(n), key=lambda j: abs(float(t) - j))
        S.true(abs(float(t) - k) <= 1e-4, "lattice point", "%r lies between the points" % (x,))
        out = out[k]
    return out


def write1d(S, n):
    lo, hi = S.choice("range", RANGES)
    p = Probe(S, -4.0, 4.0)
    f = put(S, "", S.choice("name", ("a.ctl", "b.CTL")))
    registry(S).write(p, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    prog = Program(S, get(f))
    S.true(prog.inputs == ["rIn", "gIn", "bIn", "aIn"] and prog.outputs == ["rOut", "gOut", "bOut", "aOut"], "arguments")
    want = []
    for k in range(n):
        q = position(k, n, lo, hi)
        w = p.at(q, q, q)
        if w is None:
            S.fail("sampled", "not at %r" % q)
            return
        want.append(w)
    a = S.real("alpha", -1.0, 2.0)

    def run(x):
        return prog.run(lambda *v: lookups(S, *v), rIn=x[0], gIn=x[1], bIn=x[2], aIn=a)
    for k in range(n):
        out = run([position(k, n, lo, hi)] * 3)
        S.closev(out[:3], want[k], "sample", scale=8.0, tol=1e-6, ctol=1e-4)
        S.same(out[3], a, "alpha")
    # channels apart, between and beyond
    w = hi - lo
    x = [lo + 0.3 * w, lo - w, hi - 0.125 * w]
    c = S.choice("channel", (0, 1, 2))
    x[c] = hi + w if x[c] > hi - 0.2 * w else x[c]
    out = run(x)
    for c in range(3):
        S.close(out[c], lerp(S, x[c], lo, hi, [v[c] for v in want]), "value", scale=8.0, tol=1e-6, ctol=1e-4)
    for name, (dims, v) in prog.const.items():
        if dims:
            S.true(len(v) == n and dims[0] in (None, n), "length")


for n in (2, 3, 5, 9):
    SCENARIOS.add("write1d-%d" % n, write1d, n=n)
SCENARIOS.add("write1d-33", write1d, tier="thorough", n=33)


def magnitudes(S, kind, size):
    """Answers of any size keep their digits (six after the point in cubes)."""
    p = Probe(S, -1.0 * size, 2.0 * size)
    f = put(S, "", "a.ctl")
    registry(S).write(p, f, kind, lutResolution1d=3, lutResolution3d=2)
    prog = Program(S, get(f))
    for x in ([[0.0] * 3, [0.5] * 3, [1.0] * 3] if kind == "1D" else [[float(r), float(g), float(b)] for r in (0, 1) for g in (0, 1) for b in (0, 1)]):
        w = p.at(*x)
        if w is None:
            S.fail("sampled", "not at %r" % (x,))
            return
        out = prog.run(lambda *v: lookups(S, *v), rIn=x[0], gIn=x[1], bIn=x[2], aIn=1.0)
        S.closev(out[:3], w, "sample", scale=size, tol=1e-5, ctol=1e-4)


for s in (1e-5, 1e-3, 1e5):
    SCENARIOS.add("magnitudes-1D-%g" % s, magnitudes, kind="1D", size=s)
SCENARIOS.add("magnitudes-3D-1e5", magnitudes, kind="3D", size=1e5)


def write3d(S, n):
    lo, hi = S.choice("range", RANGES)
    p = Probe(S, -4.0, 4.0)
    f = put(S, "", S.choice("name", ("a.ctl", "b.CTL")))
    registry(S).write(p, f, "3D", lutResolution3d=n, inputMin=lo, inputMax=hi)
    check3d(S, Program(S, get(f)), [n] * 3, lo, hi, lambda i: p.at(*[position(k, n, lo, hi) for k in i]))


def check3d(S, prog, sizes, lo, hi, want):
    a = S.real("alpha", -1.0, 2.0)
    for name, (dims, v) in prog.const.items():
        if len(dims) == 4:
            S.true(dims == list(sizes) + [3], "stated sizes", "%r" % dims)
            S.true(len(v) == sizes[0] and all(len(x) == sizes[1] and all(len(y) == sizes[2] and all(len(z) == 3 for z in y) for y in x) for x in v), "sizes")
    for r in range(sizes[0]):
        for g in range(sizes[1]):
            for b in range(sizes[2]):
                x = [position(k, n, lo, hi) for k, n in zip((r, g, b), sizes)]
                w = want((r, g, b))
                if w is None:
                    S.fail("sampled", "not at %r" % (x,))
                    return
                out = prog.run(lambda *v: lookups(S, *v), rIn=x[0], gIn=x[1], bIn=x[2], aIn=a)
                S.closev(out[:3], w, "sample", scale=1.0, tol=1e-6, ctol=1e-4)
                S.same(out[3], a, "alpha")


for n in (2, 3, 4):
    SCENARIOS.add("write3d-%d" % n, write3d, n=n)
SCENARIOS.add("write3d-5", write3d, tier="thorough", n=5)


def sizes_apart(S):
    """The 3D writer itself takes a size per axis."""
    sizes = S.choice("sizes", ((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 2, 4), (4, 3, 2)))
    e = {(r, g, b): S.reals("e%d%d%d_" % (r, g, b), 3, -2.0, 2.0) for r in range(sizes[0]) for g in range(sizes[1]) for b in range(sizes[2])}
    data = [[[list(e[(r, g, b)]) for b in range(sizes[2])] for g in range(sizes[1])] for r in range(sizes[0])]
    f = put(S, "", "a.ctl")
    S.mod("aces.lutFormats.LutCTL").LutFormatCTL.writeCTL3D(f, -1.0, 3.0, data, list(sizes))
    check3d(S, Program(S, get(f)), sizes, -1.0, 3.0, lambda i: e[i])


SCENARIOS.add("write3d-sizes", sizes_apart)


def channels_apart(S):
    """The 1D writer with fewer components than there are channels, and one for all."""
    n = S.choice("n", (2, 4))
    channels, comps = S.choice("form", ((1, 1), (3, 1), (4, 3), (3, 3), (1, 3), (4, 1)))
    v = S.reals("v", n * channels, -2.0, 2.0)
    lo, hi = S.choice("range", RANGES)
    f = put(S, "", "a.ctl")
    S.mod("aces.lutFormats.LutCTL").LutFormatCTL.writeCTL1D(f, lo, hi, list(v), n, channels, comps)
    prog = Program(S, get(f))
    used = min(comps, channels)
    for k in range(n):
        x = position(k, n, lo, hi)
        out = prog.run(lambda *a: lookups(S, *a), rIn=x, gIn=x, bIn=x, aIn=0.5)
        for c in range(3):
            S.close(out[c], v[k * channels + (c if used == 3 else 0)], "sample", scale=1.0, tol=1e-6, ctol=1e-4)


SCENARIOS.add("write1d-channels", channels_apart)


def any_range(S):
    """The range is stated as it was asked for."""
    lo = S.real("lo", -8.0, 1.0)
    hi = lo + S.real("width", 0.5, 16.0)
    kind = S.choice("kind", ("1D", "3D"))
    m = S.mod("aces.lutFormats.LutCTL").LutFormatCTL
    f = put(S, "", "a.ctl")
    if kind == "1D":
        m.writeCTL1D(f, lo, hi, [0.0, 0.25, 0.5, 1.0, 1.25, 1.5], 2, 3, 3)
    else:
        m.writeCTL3D(f, lo, hi, [[[[0.5, 0.25, 1.0]] * 2] * 2] * 2, [2, 2, 2])
    seen = []

    def look(kind, table, a, b, x):
        seen.append((a, b))
        return lookups(S, kind, table, lo, hi, x) if kind == "1D" else table[0][0][0]
    Program(S, get(f)).run(look, rIn=0.5, gIn=0.25, bIn=0.75, aIn=1.0)
    S.true(len(seen) == (3 if kind == "1D" else 1), "lookups")
    for (a, b) in seen:
        for u, v in zip(a if kind == "3D" else [a], b if kind == "3D" else [b]):
            S.close(u, lo, "lowest", scale=1.0, tol=1e-8, ctol=1e-6)
            S.close(v, hi, "highest", scale=1.0, tol=1e-8, ctol=1e-6)


SCENARIOS.add("range", any_range)


def large(S, kind, n, at):
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    at = [at] * 3 if kind == "1D" else at
    p = Known(S, [[position(k, n, lo, hi) for k in at]])
    f = put(S, "", "a.ctl")
    registry(S).write(p, f, kind, lutResolution1d=n, lutResolution3d=n, inputMin=lo, inputMax=hi)
    prog = Program(S, get(f))
    pts = [[0] * 3, [n - 1] * 3, [1] * 3, [n // 2] * 3, [n - 2] * 3, list(at)]
    if kind == "3D":
        pts += [[0, 1, n - 1], [n - 1, 0, n // 2], [at[0], at[2], at[1]], [at[1], at[0], at[2]]]
        for name, (dims, v) in prog.const.items():
            if len(dims) == 4:
                S.true(dims == [n, n, n, 3] and len(v) == n and all(len(x) == n and all(len(y) == n and all(len(z) == 3 for z in y) for y in x) for x in v), "sizes")
                bad = 0
                for r in range(n):
                    for g in range(n):
                        for b in range(n):
                            if [r, g, b] != list(at):
                                w = p.at(*[position(k, n, lo, hi) for k in (r, g, b)])
                                bad += any(abs(float(x) - y) > 2e-6 for x, y in zip(v[r][g][b], w))
                S.true(bad == 0, "entries", "%d of them" % bad)
    else:
        for name, (dims, v) in prog.const.items():
            if dims:
                S.true(len(v) == n and dims[0] in (None, n), "length")
        pts += [[k] * 3 for k in range(0, n, max(1, n // 16))]
    for q in pts:
        x = [position(k, n, lo, hi) for k in q]
        out = prog.run(lambda *v: lookups(S, *v), rIn=x[0], gIn=x[1], bIn=x[2], aIn=0.5)
        S.closev(out[:3], p.at(*x), "sample", scale=8.0, tol=1e-6, ctol=1e-4)


for n, at in ((17, 11), (33, 20), (64, 50), (256, 200), (1024, 1000)):
    SCENARIOS.add("large1d-%d" % n, large, kind="1D", n=n, at=at, conf={"weight": 2})
for n, at in ((6, (1, 3, 5)), (9, (8, 2, 7)), (17, (16, 11, 3))):
    SCENARIOS.add("large3d-%d" % n, large, kind="3D", n=n, at=at, conf={"weight": 4})
