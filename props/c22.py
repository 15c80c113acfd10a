"""C22 CSP files"""
import math

from props.luts import *

SCENARIOS = Registry()
BOUNDS = "1D files of 2 to 5 entries and 3D lattices of 2 to 4 points per axis (sizes differing between axes), all entries symbolic within [-2,2]; preluts of 2 to 5 points per channel, also of different lengths and " \
         "input ranges per channel, with symbolic outputs; pixels at the sample positions of the expanded prelut, at both ends and beyond; metadata, blank lines, also between the entries; writing 2 to 5 entries per axis and shapers of " \
         "2 to 6 entries for any list; files of up to 1024 entries, 17 points per axis and preluts of 64 points with one symbolic; text with 6 decimals" \
         "; answers up to 1e5 in size; numbers in eleven spellings; files rewritten and read again, with or without prelut"
OUTSIDE = "files without a metadata block; values of the prelut between the positions it is resampled at (it is expanded to twice the points of the longest channel); inputs of lists whose output the output shaper does not cover (it is clamped there)"

SIZES3 = ((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 2, 4))
RANGES = ((0.0, 1.0), (-0.125, 1.125), (0.0, 2.0), (0.25, 1.0), (-1.0, 1.0), (0.0625, 16.0))


def plain_pre(lo=0.0, hi=1.0):
    return [([lo, hi], [0.0, 1.0])] * 3


def text(S, kind, pre, size, lines, form):
    t = ["CSPLUTV100", kind, ""]
    if form == "meta":
        t += ["BEGIN METADATA", "some text", "3D", "2", "END METADATA", "", ""]
    elif form == "tight":
        t = t[:2] + ["BEGIN METADATA", "END METADATA"]
    else:
        t += ["BEGIN METADATA", "END METADATA", ""]
    for (a, b) in pre:
        t += [str(len(a)), " ".join(str(v) for v in a), " ".join(str(v) for v in b)]
    if form != "tight":
        t += [""]
    if form == "spaced":                    # blank lines before, between and after the entries
        lines = [x for k, v in enumerate(lines) for x in ([""] * (k % 3 == 0) + ["  "] * (k % 4 == 3) + [v])]
    t += [size] + lines
    if form != "tight":
        t += ["", ""]
    return "\n".join(t)


def expand(S, pre, x):
    """The prelut of three channels: clamped, piecewise linear."""
    return [pwl(S, x[c], *pre[c]) for c in range(3)]


def pwl(S, x, a, b):
    if x <= a[0]:
        return b[0]
    for k in range(len(a) - 1):
        if x <= a[k + 1]:
            return b[k] + (x - a[k]) / (a[k + 1] - a[k]) * (b[k + 1] - b[k])
    return b[-1]


def rows3(S, sizes, e):
    return [" ".join(str(v) for v in e[(r, g, b)]) for b in range(sizes[2]) for g in range(sizes[1]) for r in range(sizes[0])]


def entries3(S, sizes, lo=-2.0, hi=2.0):
    return {(r, g, b): S.reals("e%d%d%d_" % (r, g, b), 3, lo, hi) for r in range(sizes[0]) for g in range(sizes[1]) for b in range(sizes[2])}


def read1d(S, n, form, rng):
    lo, hi = S.choice("range", rng)
    es = [S.reals("e%d_" % k, 3, -2.0, 2.0) for k in range(n)]
    f = put(S, text(S, "1D", plain_pre(lo, hi), str(n), [" ".join(str(v) for v in e) for e in es], form), S.choice("name", ("a.csp", "b.CSP")))
    pl = registry(S).read(f)
    w = hi - lo
    px = [lo + 0.3 * w, lo - w, hi - 0.125 * w]
    c = S.choice("channel", (0, 1, 2))
    px[c] = S.real("x", lo - w, hi + w)
    out = run1(S, pl, px)
    for k in range(3):
        S.close(out[k], lerp(S, px[k], lo, hi, [e[k] for e in es]), "value", scale=4.0, ctol=1e-4)


for n, form in ((2, "plain"), (3, "meta"), (4, "tight"), (5, "plain"), (6, "spaced")):
    SCENARIOS.add("read1d-%d" % n, read1d, n=n, form=form, rng=RANGES[:3] if n > 3 else RANGES)


def read3d(S, sizes, form):
    lo, hi = S.choice("range", RANGES)
    e = entries3(S, sizes)
    f = put(S, text(S, "3D", plain_pre(lo, hi), "%d %d %d" % sizes, rows3(S, sizes, e), form), "a.csp")
    pl = registry(S).read(f)
    for p, v in sorted(e.items()):
        out = run1(S, pl, [position(p[c], sizes[c], lo, hi) for c in range(3)])
        S.closev(out, v, "entry", scale=4.0, ctol=2e-4)
    out = run1(S, pl, [lo - 1.0, hi + 1.0, lo])
    S.closev(out, e[(0, sizes[1] - 1, 0)], "beyond", scale=4.0, ctol=2e-4)


for k, s in enumerate(SIZES3):
    SCENARIOS.add("read3d-%d%d%d" % s, read3d, sizes=s, form=("plain", "meta", "tight")[k % 3], conf={"weight": 2})
for s in ((2, 2, 2), (3, 2, 4)):
    SCENARIOS.add("spaced3d-%d%d%d" % s, read3d, sizes=s, form="spaced", conf={"weight": 2})


PRES = {
    "gamma": [([0.0, 0.25, 0.5, 1.0], 4)] * 3,
    "lengths": [([0.0, 1.0], 2), ([0.0, 0.5, 1.0], 3), ([0.0, 0.125, 0.5, 0.75, 1.0], 5)],
    "ranges": [([0.0, 1.0], 2), ([-1.0, 1.0], 2), ([0.0, 0.5, 2.0], 3)],
    "shifted": [([-2.0, -1.0], 2)] * 3,
    "two": [([0.0, 1.0], 2)] * 3,
    "wide": [([0.0, 4.0, 16.0], 3)] * 3,
}


def positions(pre):
    """Where the expanded prelut is sampled."""
    n = 2 * max(len(a) for a, b in pre)
    lo, hi = min(a[0] for a, b in pre), max(a[-1] for a, b in pre)
    return [position(k, n, lo, hi) for k in range(n)], lo, hi


def prelut(S, which, kind):
    """Preluts with symbolic outputs, in front of a LUT that changes nothing (1D) or of one with symbolic values."""
    ch = S.choice("channel", (0, 1, 2))
    fixed = [0.75, 0.0625, 0.5, 0.875, 1.0]
    pre = [(a, S.reals("q%d_" % c, n, 0.015625, 0.984375) if c == ch else fixed[:n]) for c, (a, n) in enumerate(PRES[which])]
    if kind == "1D":
        f = put(S, text(S, "1D", pre, "2", ["0.0 0.0 0.0", "1.0 1.0 1.0"], "plain"), "a.csp")
    else:
        lines = ["%s %s %s" % (r, g * 0.5, b * 0.25) for b in (0.0, 1.0) for g in (0.0, 1.0) for r in (0.0, 1.0)]
        f = put(S, text(S, "3D", pre, "2 2 2", lines, "meta"), "a.csp")
    pl = registry(S).read(f)
    scale = [1.0, 1.0, 1.0] if kind == "1D" else [1.0, 0.5, 0.25]
    ps, lo, hi = positions(pre)
    for x in ps:
        out = run1(S, pl, [x] * 3)
        want = expand(S, pre, [x] * 3)
        for c in range(3):
            S.close(out[c], want[c] * scale[c], "prelut", scale=1.0, ctol=5e-4)
    for x in (lo - 1.0, hi + 2.0):
        out = run1(S, pl, [x] * 3)
        want = expand(S, pre, [x] * 3)
        for c in range(3):
            S.close(out[c], want[c] * scale[c], "prelut beyond", scale=1.0, ctol=5e-4)


for w in PRES:
    SCENARIOS.add("prelut-1d-" + w, prelut, which=w, kind="1D")
    SCENARIOS.add("prelut-3d-" + w, prelut, which=w, kind="3D", tier="quick" if w in ("lengths", "shifted") else "thorough")


def prelut_between(S):
    """Two-point preluts are linear everywhere: a value per channel."""
    which = S.choice("range", ((0.0, 1.0), (-1.0, 2.0), (0.5, 1.0)))
    pre = [([which[0], which[1]], S.reals("q%d_" % c, 2, 0.0, 1.0)) for c in range(3)]
    S.assume(pre[0][1][0] >= 0.001)
    es = [[-1.0, 0.5, 2.0], [1.0, 1.5, -2.0]]
    f = put(S, text(S, "1D", pre, "2", [" ".join(str(v) for v in e) for e in es], "plain"), "a.csp")
    pl = registry(S).read(f)
    w = which[1] - which[0]
    px = [which[0] + 0.4 * w, which[0] + 0.7 * w, which[0] + 0.1 * w]
    out = run1(S, pl, px)
    t = expand(S, pre, px)
    for c in range(3):
        S.close(out[c], es[0][c] + t[c] * (es[1][c] - es[0][c]), "value", scale=4.0, ctol=5e-4)


SCENARIOS.add("prelut-between", prelut_between)


# ------------------------------------------------------------- writing
def parse(S, t):
    rows = [r.split() for r in t.split("\n") if r.strip()]
    S.true(rows[0] == ["CSPLUTV100"] and rows[1][0] in ("1D", "3D"), "header")
    i = rows.index(["END", "METADATA"]) + 1
    pre = []
    for c in range(3):
        n = int(rows[i][0])
        a, b = [S.num(x) for x in rows[i + 1]], [S.num(x) for x in rows[i + 2]]
        S.true(len(a) == n and len(b) == n, "prelut length")
        pre.append((a, b))
        i += 3
    return rows[1][0], pre, [int(x) for x in rows[i]], [[S.num(x) for x in r] for r in rows[i + 1:]]


def write1d(S, n):
    lo, hi = S.choice("range", RANGES)
    p = Probe(S)
    f = put(S, "", S.choice("name", ("a.csp", "b.CSP")))
    registry(S).write(p, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    kind, pre, size, rows = parse(S, get(f))
    S.true(kind == "1D" and size == [n] and len(rows) == n, "form")
    for c in range(3):
        S.closev(pre[c][0], [lo, hi], "prelut input", scale=1.0, tol=1e-6)
        S.closev(pre[c][1], [0.0, 1.0], "prelut output", scale=1.0)
    want = []
    for k in range(n):
        q = position(k, n, lo, hi)
        w = p.at(q, q, q)
        if w is None:
            S.fail("sampled", "not at %r" % q)
            return
        want.append(w)
        S.closev(rows[k], w, "entry", scale=1.0, tol=1e-6)
    back = registry(S).read(f)
    for k in range(n):
        S.closev(run1(S, back, [position(k, n, lo, hi)] * 3), want[k], "read back", scale=1.0, tol=1e-5, ctol=2e-4)


for n in (2, 3, 5):
    SCENARIOS.add("write1d-%d" % n, write1d, n=n)
SCENARIOS.add("write1d-9", write1d, tier="thorough", n=9)


def write3d(S, n):
    lo, hi = S.choice("range", RANGES[:4])
    p = Probe(S)
    f = put(S, "", "a.csp")
    registry(S).write(p, f, "3D", lutResolution3d=n, inputMin=lo, inputMax=hi)
    kind, pre, size, rows = parse(S, get(f))
    S.true(kind == "3D" and size == [n] * 3 and len(rows) == n ** 3, "form")
    for c in range(3):
        S.closev(pre[c][0], [lo, hi], "prelut input", scale=1.0, tol=1e-6)
        S.closev(pre[c][1], [0.0, 1.0], "prelut output", scale=1.0)
    back = registry(S).read(f)
    for b in range(n):
        for g in range(n):
            for r in range(n):
                at = [position(k, n, lo, hi) for k in (r, g, b)]
                w = p.at(*at)
                if w is None:
                    S.fail("sampled", "not at %r" % (at,))
                    return
                S.closev(rows[(b * n + g) * n + r], w, "entry", scale=1.0, tol=1e-6)
                S.closev(run1(S, back, at), w, "read back", scale=1.0, tol=1e-5, ctol=2e-4)


for n in (2, 3):
    SCENARIOS.add("write3d-%d" % n, write3d, n=n, conf={"weight": 2})
SCENARIOS.add("write3d-4", write3d, tier="thorough", n=4)


def magnitudes(S, kind, size):
    """Large answers keep their digits."""
    p = Probe(S, -1.0 * size, 2.0 * size)
    f = put(S, "", "a.csp")
    registry(S).write(p, f, kind, lutResolution1d=3, lutResolution3d=2)
    back = registry(S).read(f)
    for x in ([[0.0] * 3, [0.5] * 3, [1.0] * 3] if kind == "1D" else [[float(r), float(g), float(b)] for r in (0, 1) for g in (0, 1) for b in (0, 1)]):
        w = p.at(*x)
        if w is None:
            S.fail("sampled", "not at %r" % (x,))
            return
        S.closev(run1(S, back, x), w, "read back", scale=size, tol=1e-4, ctol=1e-3)


for kind in ("1D", "3D"):
    for s in (1e3, 1e5):
        SCENARIOS.add("magnitudes-%s-%g" % (kind, s), magnitudes, kind=kind, size=s)


def writer3d(S):
    """The writer itself takes a size per axis."""
    sizes = S.choice("sizes", SIZES3)
    e = entries3(S, sizes)
    data = [[[list(e[(r, g, b)]) for b in range(sizes[2])] for g in range(sizes[1])] for r in range(sizes[0])]
    f = put(S, "", "a.csp")
    S.mod("aces.lutFormats.LutCSP").LutFormatCSP.writeCSP3D(f, 0.0, 1.0, data, list(sizes))
    kind, pre, size, rows = parse(S, get(f))
    S.true(size == list(sizes), "sizes")
    back = registry(S).read(f)
    for p, v in sorted(e.items()):
        S.closev(run1(S, back, [position(p[c], sizes[c]) for c in range(3)]), v, "read back", scale=1.0, tol=1e-5, ctol=2e-4)


SCENARIOS.add("writer3d", writer3d)


def one_component(S):
    """The 1D writer with one component repeats it."""
    n, channels = S.choice("form", ((2, 1), (3, 1), (3, 3)))
    v = S.reals("v", n * channels, -2.0, 2.0)
    f = put(S, "", "a.csp")
    S.mod("aces.lutFormats.LutCSP").LutFormatCSP.writeCSP1D(f, 0.0, 1.0, list(v), n, channels, 1)
    back = registry(S).read(f)
    for k in range(n):
        S.closev(run1(S, back, [position(k, n)] * 3), [v[k * channels]] * 3, "read back", scale=1.0, tol=1e-5, ctol=2e-4)


SCENARIOS.add("one-component", one_component)


def write1d3d(S, m, n, shaper):
    """With a shaper: the prelut is the shaper, the 3D LUT is sampled through its inverse."""
    p = Probe(S)
    f = put(S, "", "a.csp")
    registry(S).write(p, f, "1D_3D_1D", lutResolution1d3d1d=[m, n, 2], shaperIn=list(shaper), shaperOut=[None, 0.0, 1.0])
    kind, pre, size, rows = parse(S, get(f))
    S.true(kind == "3D" and size == [n] * 3 and len(rows) == n ** 3, "form")
    how, lo, hi = shaper
    if how == "log2":
        a, b = 2.0 ** lo, 2.0 ** hi
    elif how == "linear":
        a, b = lo, hi
    else:
        a, b = 0.0, 1.0

    def down(x):
        if how == "log2":
            return (math.log(x, 2) - lo) / (hi - lo)
        return (x - a) / (b - a)

    def up(t):
        return 2.0 ** (lo + t * (hi - lo)) if how == "log2" else a + t * (b - a)
    for c in range(3):
        k = len(pre[c][0])
        S.true(k == (m if how else 2), "prelut length")
        for j in range(k):
            x = position(j, k, a, b)
            S.close(pre[c][0][j], x, "prelut input", scale=max(1.0, b), tol=1e-6)
            S.close(pre[c][1][j], down(x), "prelut output", scale=1.0, tol=2e-6)
    for bl in range(n):
        for g in range(n):
            for r in range(n):
                at = [up(position(k, n)) for k in (r, g, bl)]
                w = p.at(*at)
                if w is None:
                    S.fail("sampled", "not at %r" % (at,))
                    return
                S.closev(rows[(bl * n + g) * n + r], w, "entry", scale=1.0, tol=1e-6)
    back = registry(S).read(f)
    corners = {0: a, n - 1: b}
    for r in corners:
        for g in corners:
            for bl in corners:
                at = [corners[k] for k in (r, g, bl)]
                S.closev(run1(S, back, at), p.at(*[up(position(k, n)) for k in (r, g, bl)]), "read back", scale=1.0, tol=2e-5, ctol=5e-4)


for k, (m, n, sh) in enumerate(((2, 2, ("linear", 0.0, 1.0)), (3, 2, ("linear", -0.5, 1.5)), (4, 3, ("linear", 0.0, 4.0)), (3, 2, ("log2", -4.0, 2.0)), (5, 2, ("log2", -3.0, 3.0)), (2, 3, (None, 0.0, 1.0)))):
    SCENARIOS.add("write1d3d-%d" % k, write1d3d, m=m, n=n, shaper=sh)


LINEAR = ((0.0, 1.0), (-0.25, 2.0), (0.0, 16.0), (0.5, 1.0))
LOGS = ((-4.0, 4.0), (-2.0, 1.0), (0.0, 3.0))


def write131(S, shaper, n1, n3, nout, out):
    """A 3D LUT behind a prelut: the list at the points the shaper leads to."""
    lo, hi = S.choice("shaper", LINEAR if shaper == "linear" else LOGS) if shaper else (0.0, 1.0)
    olo, ohi = S.choice("out shaper", {"linear": ((0.0, 1.0), (-0.5, 2.0), (0.0, 4.0)), "log2": ((-2.0, 2.0), (-3.0, 1.0)), None: ((0.0, 1.0),)}[out])
    if out == "log2":
        # outputs the output shaper holds exactly
        p = Probe(S, vary=-1, fixed=[2.0 ** position(k, nout, olo, ohi) for k in range(nout)])
    else:
        a, b = (olo, ohi) if out else (-1.0, 2.0)
        p = Probe(S, a, b, vary=S.choice("vary", (1, n3 ** 3 - 2)), fixed=[a + t * (b - a) for t in (0.5, 0.125, 0.75, 0.9375, 0.25)])
    f = put(S, "", "a.csp")
    registry(S).write(p, f, "1D_3D_1D", lutResolution1d3d1d=[n1, n3, nout], shaperIn=[shaper, lo, hi], shaperOut=[out, olo, ohi])
    kind, pre, size, rows = parse(S, get(f))
    S.true(kind == "3D" and size == [n3] * 3 and len(rows) == n3 ** 3, "form")
    f0 = {"linear": lambda v: lo + v * (hi - lo), "log2": lambda v: 2.0 ** (lo + v * (hi - lo)), None: lambda v: v}[shaper]
    a, b = f0(0.0), f0(1.0)
    inv = {"linear": lambda v: (v - lo) / (hi - lo), "log2": lambda v: (math.log(v, 2) - lo) / (hi - lo), None: lambda v: v}[shaper]
    n = n1 if shaper else 2
    for c in range(3):
        S.true(len(pre[c][0]) == n, "prelut length")
        for k in range(n):
            q = position(k, n, a, b)
            S.close(pre[c][0][k], q, "prelut input", scale=1.0, tol=1e-6)
            S.close(pre[c][1][k], inv(q), "prelut output", scale=1.0, tol=1e-6, ctol=1e-4)
    points = [(r, g, b) for b in range(n3) for g in range(n3) for r in range(n3)]
    back = registry(S).read(f)
    for k, i in enumerate(points):
        q = [f0(position(j, n3)) for j in i]
        w = None
        for (v, o) in p.calls:
            if all(abs(float(x) - y) <= 1e-4 * max(1.0, abs(y)) for x, y in zip(v, q)):
                w = o
        if w is None:
            S.fail("sampled", "not at %r but at %r" % (q, p.calls[min(k, len(p.calls) - 1)][0]))
            return
        S.closev(rows[k], w, "entry", scale=1.0, tol=1e-5, ctol=1e-4)
        if shaper != "log2" or all(j in (0, n3 - 1) for j in i):
            S.closev(run1(S, back, q), rows[k], "read back", scale=1.0, tol=1e-4, ctol=1e-3)


SCENARIOS.add("write131-out-linear", write131, shaper="linear", n1=2, n3=2, nout=2, out="linear")
SCENARIOS.add("write131-out-linear-4", write131, shaper=None, n1=2, n3=2, nout=4, out="linear")
SCENARIOS.add("write131-out-log2", write131, shaper=None, n1=2, n3=2, nout=5, out="log2")


def large1d(S, n, at):
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    es = [[((k * 37 + c * 11) % 101) / 64.0 - 0.25 for c in range(3)] for k in range(n)]
    es[at] = S.reals("e", 3, -2.0, 2.0)
    pl = registry(S).read(put(S, text(S, "1D", plain_pre(lo, hi), str(n), [" ".join(str(v) for v in e) for e in es], S.choice("form", ("plain", "meta"))), "a.csp"))
    for k in sorted(set((0, 1, at, at - 1, n // 2, n - 2, n - 1))):
        S.closev(run1(S, pl, [position(k, n, lo, hi)] * 3), es[k], "entry", scale=4.0, ctol=5e-3)
    # what is written
    p = Known(S, [[position(at, n, lo, hi)] * 3])
    f = put(S, "", "b.csp")
    registry(S).write(p, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    kind, pre, size, rows = parse(S, get(f))
    S.true(kind == "1D" and size == [n] and len(rows) == n, "form")
    for k in range(n):
        S.closev(rows[k], p.at(*[position(k, n, lo, hi)] * 3), "written", scale=1.0, tol=2e-6)


for n, at in ((17, 11), (64, 50), (65, 33), (256, 200), (1024, 1000)):
    SCENARIOS.add("large1d-%d" % n, large1d, n=n, at=at, conf={"weight": 3})


def large3d(S, sizes, at):
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    e = {}
    for r in range(sizes[0]):
        for g in range(sizes[1]):
            for b in range(sizes[2]):
                e[(r, g, b)] = [((r * 7 + g * 13 + b * 29 + c * 5) % 97) / 64.0 - 0.25 for c in range(3)]
    e[at] = S.reals("e", 3, -2.0, 2.0)
    pl = registry(S).read(put(S, text(S, "3D", plain_pre(lo, hi), "%d %d %d" % sizes, rows3(S, sizes, e), "plain"), "a.csp"))
    for k, p in enumerate(sorted(e)):
        if p == at or k % (len(e) // 20) == 0 or k in (1, len(e) - 1):
            S.closev(run1(S, pl, [position(p[c], sizes[c], lo, hi) for c in range(3)]), e[p], "entry", scale=4.0, ctol=5e-3)


for sizes, at in (((6, 6, 6), (3, 4, 5)), ((9, 9, 9), (8, 0, 4)), ((5, 12, 7), (4, 11, 6)), ((17, 17, 17), (16, 15, 14)), ((2, 2, 33), (0, 1, 17))):
    SCENARIOS.add("large3d-%dx%dx%d" % sizes, large3d, sizes=sizes, at=at, conf={"weight": 5})


def written3d(S, n, at):
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    p = Known(S, [[position(k, n, lo, hi) for k in at]])
    f = put(S, "", "a.csp")
    registry(S).write(p, f, "3D", lutResolution3d=n, inputMin=lo, inputMax=hi)
    kind, pre, size, rows = parse(S, get(f))
    S.true(kind == "3D" and size == [n] * 3 and len(rows) == n ** 3, "form")
    for b in range(n):
        for g in range(n):
            for r in range(n):
                w = p.at(*[position(k, n, lo, hi) for k in (r, g, b)])
                S.closev(rows[(b * n + g) * n + r], w, "entry", scale=1.0, tol=2e-6)


for n, at in ((6, (1, 3, 5)), (9, (8, 2, 7)), (17, (16, 11, 3))):
    SCENARIOS.add("written3d-%d" % n, written3d, n=n, at=at, conf={"weight": 5})


def longpre(S, n):
    """Long preluts."""
    k = n // 2
    a = [2.0 * q / (n - 1) - 0.5 for q in range(n)]
    b = [(q / (n - 1.0)) ** 2 for q in range(n)]
    c = S.choice("channel", (0, 1, 2))
    pre = [(list(a), list(b)) for _ in range(3)]
    pre[c][1][k] = S.real("q", b[k - 1], b[k + 1])
    pl = registry(S).read(put(S, text(S, "1D", pre, "2", ["0.0 0.0 0.0", "1.0 1.0 1.0"], "plain"), "a.csp"))
    ps, lo, hi = positions(pre)
    for x in [ps[0], ps[1], ps[n - 1], ps[n], ps[n + 1], ps[-2], ps[-1], lo - 1.0, hi + 1.0]:
        out = run1(S, pl, [x] * 3)
        want = expand(S, pre, [x] * 3)
        for i in range(3):
            S.close(out[i], want[i], "prelut", scale=1.0, ctol=2e-3)


for n in (8, 16, 33, 64):
    SCENARIOS.add("longpre-%d" % n, longpre, n=n, conf={"weight": 3})


def again(S, kind, how):
    """What was read before does not matter, whatever path and contents it had."""
    ra, rb = S.choice("ranges", (((0.0, 1.0), (0.0, 1.0)), ((0.0, 1.0), (-0.5, 1.5))))
    name = {"path": "a.csp", "names": "A.csp"}[how]
    if kind == "1D":
        a, b = [S.reals("a%d_" % k, 3, -2.0, 2.0) for k in range(3)], [S.reals("b%d_" % k, 3, -2.0, 2.0) for k in range(3)]
        ta, tb = [text(S, "1D", plain_pre(*r), "3", [" ".join(str(v) for v in e) for e in es], "plain") for es, r in ((a, ra), (b, rb))]
    else:
        sizes = (2, 2, 2)
        pts = [(r, g, b) for r in range(2) for g in range(2) for b in range(2)]
        a, b = {p: S.reals("a%d%d%d_" % p, 3, -2.0, 2.0) for p in pts}, {p: S.reals("b%d%d%d_" % p, 3, -2.0, 2.0) for p in pts}
        ta, tb = [text(S, "3D", plain_pre(*r), "2 2 2", rows3(S, sizes, e), "plain") for e, r in ((a, ra), (b, rb))]
    f = put(S, ta, "a.csp")
    first = registry(S).read(f)
    g = os.path.join(os.path.dirname(f), name)
    with open(g, "w") as fp:
        fp.write(tb)
    lists = [(first, a, ra), (registry(S).read(g), b, rb)]
    if how == "names":
        lists.append((registry(S).read(f), a, ra))
    for pl, e, r in lists:
        if kind == "1D":
            for k in range(3):
                S.closev(run1(S, pl, [position(k, 3, *r)] * 3), e[k], "entry", scale=4.0, ctol=2e-4)
        else:
            for p in sorted(e):
                S.closev(run1(S, pl, [position(p[c], 2, *r) for c in range(3)]), e[p], "entry", scale=4.0, ctol=2e-4)


for k_ in ("1D", "3D"):
    for h in ("path", "names"):
        SCENARIOS.add("again-%s-%s" % (k_, h), again, kind=k_, how=h)


def prelut_again(S):
    """Preluts of two files with the same positions and the same ends."""
    ps = [0.0, 0.25, 0.5, 1.0]
    q = S.reals("q", 2, 0.3, 0.7)
    lists = []
    for k in range(2):
        pre = [(list(ps), [0.0, 0.2, q[k], 1.0])] * 3
        pl = registry(S).read(put(S, text(S, "1D", pre, "2", ["0.0 0.0 0.0", "1.0 1.0 1.0"], "plain"), "a%d.csp" % k))
        lists.append((pl, pre))
    for pl, pre in lists:
        at, lo, hi = positions(pre)
        for x in at:
            S.closev(run1(S, pl, [x] * 3), expand(S, pre, [x] * 3), "prelut", scale=1.0, ctol=2e-4)


SCENARIOS.add("prelut-again", prelut_again)


def spelled(S, kind):
    """Numbers in any spelling."""
    from props.c20 import SPELLED
    at = S.choice("at", (0, 3, 7) if kind == "3D" else (0, 1, 3))
    n = 8 if kind == "3D" else 4
    rows = [[SPELLED[(q + 7 * c) % len(SPELLED)] for c in range(3)] for q in range(n)]
    c = S.choice("channel", (0, 1, 2))
    rows[at][c] = S.real("e", -2.0, 2.0)
    pre = S.choice("pre", ((("0", "1"), ("0", "1")), (("+0.0", "1e0"), ("0.0", "1.")), (("-1.25E-1", "1.125"), ("0", "1"))))
    pl = registry(S).read(put(S, text(S, kind, [pre] * 3, "2 2 2" if kind == "3D" else str(n), [" ".join(str(v) for v in r) for r in rows], "plain"), "a.csp"))
    lo, hi = float(pre[0][0]), float(pre[0][1])
    for k in range(n):
        px = [position(q, 2, lo, hi) for q in (k & 1, k >> 1 & 1, k >> 2)] if kind == "3D" else [position(k, n, lo, hi)] * 3
        out = run1(S, pl, px)
        for i in range(3):
            w = rows[k][i] if k == at and i == c else float(rows[k][i])
            S.close(out[i], w, "entry", scale=4.0 if k == at and i == c else 4.0 + abs(w), ctol=2e-2 if k == at and i == c else 1e-1 + abs(w) * 1e-5)


SCENARIOS.add("spelled-1D", spelled, kind="1D")
SCENARIOS.add("spelled-3D", spelled, kind="3D")
