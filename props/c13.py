"""C13 Half-domain LUTs"""
import struct

from props.common import *

SCENARIOS = Registry()
BOUNDS = "65536 symbolic entries, one or three columns; inputs: every real of the half range (all 30 normal binades of both signs and the subnormals), NaN, infinities and values beyond the range; nearest lookup at every half" \
         "; values within a third to a half of the spacing of halves from a half; two nodes used in turn"
OUTSIDE = "single-precision rounding of inputs; index maps in front of a half-domain LUT; infinite entries; negative zero"


def half_value(code):
    return struct.unpack("<e", struct.pack("<H", code))[0]


def build(S, columns, inb="16f", interpolation="linear", **kw):
    t = S.table("t", 65536 * columns, -1.0, 2.0)
    node = S.clf.LUT1D(inb, "16f", "id", "name", interpolation, halfDomain=True, **kw)
    node.setArray(columns, t)
    return node, t


def expected(S, t, columns, chan, sign, base, units):
    """units: distance from half number `base`, in steps, as a real."""
    k = S.floor(units)
    f = units - k
    c = (32768 if sign < 0 else 0) + base + k
    lo = t[c * columns + chan % columns]
    if f > 0:
        return (1.0 - f) * lo + f * t[(c + 1) * columns + chan % columns]
    return lo


def binade(S, e, sign, columns, chan, inb="16f", stride=3, lo=1.0, hi=2.0):
    """|x| in [lo, hi) * 2**e; e None: subnormals, |x| below 2**-14."""
    node, t = build(S, columns, inb)
    if e is None:
        x = S.real("x", lo * 2.0 ** -15, hi * 2.0 ** -15)
        if sign < 0:
            S.assume(x > 0)
        units, base = x * 2.0 ** 24, 0
    else:
        x = S.real("x", lo * 2.0 ** e, hi * 2.0 ** e)
        S.assume(x < hi * 2.0 ** e)
        units, base = (x / 2.0 ** e - 1.0) * 1024, (e + 15) * 1024
    px = [0.5 * SIZE[inb], 0.25 * SIZE[inb], 1.0 * SIZE[inb], 7.0][:stride]
    px[chan] = sign * x * SIZE[inb]
    out = run_node(S, node, [px])[0]
    S.close(out[chan], expected(S, t, columns, chan, sign, base, units), "value", scale=4.0, ctol=2e-3)
    for c in range(min(3, stride)):
        if c != chan:
            code = {0.5: 14336, 0.25: 13312, 1.0: 15360}[px[c] / SIZE[inb]]
            S.close(out[c], t[code * columns + c % columns], "other%d" % c, scale=4.0)
    if stride > 3:
        S.same(out[3], 7.0, "extra")


QUICK = ((-14, 1, 1, 0), (-10, -1, 1, 1), (-4, 1, 3, 2), (-1, 1, 1, 0), (-1, -1, 3, 1), (0, 1, 3, 0), (3, -1, 1, 2), (14, 1, 1, 1))
for e, s, col, ch in QUICK:
    SCENARIOS.add("binade%d%s-c%d" % (e, "pn"[s < 0], col), binade, e=e, sign=s, columns=col, chan=ch, stride=1 if ch == 0 else 3 if ch == 1 else 4, conf={"weight": 5})
for s in (1, -1):
    SCENARIOS.add("subnormal%s" % "pn"[s < 0], binade, e=None, sign=s, columns=1, chan=0, stride=1, lo=0.0, hi=1.9, conf={"weight": 5})
SCENARIOS.add("top-n", binade, e=15, sign=-1, columns=1, chan=0, stride=1, hi=1.98, conf={"weight": 5})
SCENARIOS.add("binade-1-10i", binade, e=-1, sign=1, columns=3, chan=0, stride=3, inb="10i", conf={"weight": 5})
for e in range(-14, 16):
    for s in (1, -1):
        SCENARIOS.add("all-binade%d%s" % (e, "pn"[s < 0]), binade, e=e, sign=s, columns=(1, 3)[e % 2], chan=e % 3, stride=3, hi=2.0 if e < 15 else 1.98)


def border(S, lo, hi, sign):
    """Across the border of two binades."""
    node, t = build(S, 1)
    x = S.real("x", lo, hi)
    out = run_node(S, node, [[sign * x]])[0]
    e = 0
    mid = None
    for q in range(-14, 16):
        if lo < 2.0 ** q < hi:
            mid, e = 2.0 ** q, q
    if x < mid:
        v = expected(S, t, 1, 0, sign, (e + 14) * 1024, (x / 2.0 ** (e - 1) - 1.0) * 1024)
    else:
        v = expected(S, t, 1, 0, sign, (e + 15) * 1024, (x / 2.0 ** e - 1.0) * 1024)
    S.close(out[0], v, "value", scale=4.0, ctol=2e-3)


for lo, hi, s in ((0.9995, 1.0015, 1), (3.99, 4.01, -1), (0.2495, 0.2505, -1)):
    SCENARIOS.add("border-%g-%d" % (lo, s), border, lo=lo, hi=hi, sign=s, conf={"weight": 5})


def ends(S, columns, what):
    node, t = build(S, columns)
    if what == "nan":
        x, code = float("nan"), 31745
    elif what in ("inf", "-inf"):
        x, code = float(what), 31744 if what == "inf" else 64512
    elif what == "above":
        x, code = S.real("x", 65521.0, 1e30), 31744
    elif what == "below":
        x, code = -S.real("x", 65521.0, 1e30), 64512
    elif what == "last":
        x, code = S.real("x", 65504.0, 65519.0), 31743
    elif what == "first":
        x, code = -S.real("x", 65504.0, 65519.0), 64511
    else:
        x, code = 0.0, 0
    out = run_node(S, node, [[x, 1.0, x]])[0]
    S.closev(out, [t[(code if c != 1 else 15360) * columns + c % columns] for c in range(3)], "entry", scale=4.0)


for w in ("nan", "inf", "-inf", "above", "below", "last", "first", "zero"):
    for c in (1, 3):
        SCENARIOS.add("end-%s-%d" % (w, c), ends, columns=c, what=w)


CODES = (0, 1, 2, 511, 1023, 1024, 1025, 2047, 2048, 9999, 13312, 14336, 15359, 15360, 15361, 16384, 25000, 31742, 31743, 32769, 33000, 33791, 33792, 40000, 48127, 48128, 48129, 60000, 64510, 64511)


def halves(S, columns):
    """Each half gives its own entry."""
    node, t = build(S, columns)
    k = S.choice("code", CODES)
    out = run_node(S, node, [[half_value(k)] * 3])[0]
    S.closev(out, [t[k * columns + c % columns] for c in range(3)], "entry", scale=4.0)


for c in (1, 3):
    SCENARIOS.add("halves-%d" % c, halves, columns=c)


def nearest(S, columns, e, sign, either):
    """Nearest lookup gives the entry of the half next to the value."""
    t = S.table("t", 65536 * columns, -1.0, 2.0)
    a = S.mod("aces.clf.Array").Array([65536, columns], t)
    x = S.real("x", 2.0 ** e, 2.0 ** (e + 1) * (1 - 1e-5))
    ch = columns - 1
    out = a.lookup1DHalfDomain(sign * x, ch, interpolate=False)
    u = (x / 2.0 ** e - 1.0) * 1024
    k = S.floor(u)
    c = (32768 if sign < 0 else 0) + (e + 15) * 1024 + k
    f = u - k
    lo, hi = t[c * columns + ch], t[(c + 1) * columns + ch]
    if either:
        S.true(S.Or(S.abs(out - lo) <= 1e-6, S.abs(out - hi) <= 1e-6), "one of the two")
        return
    S.assume(S.Or(f < 0.499, f > 0.501))
    S.close(out, hi if f > 0.5 else lo, "entry", scale=4.0)


for e, s, c in ((-1, 1, 1), (0, -1, 3), (5, 1, 3), (-14, -1, 1)):
    for x in (False, True):
        SCENARIOS.add("nearest%d%s%s" % (e, "pn"[s < 0], "-either" if x else ""), nearest, columns=c, e=e, sign=s, either=x, conf={"weight": 5})


def sampled(S, channels, raw):
    """A half-domain LUT made from a function holds its value at every half."""
    a, b = S.real("a", -2.0, 2.0), S.real("b", -1.0, 1.0)
    node = S.clf.simpleSampledLUTHalfDomain("id", "name", channels, lambda v: a * float(v) + b if abs(float(v)) < 1e6 else 0.0, raw, "16f", "32f")
    S.eq(list(node.getLUTDimensions()), [65536, channels], "dimensions")
    S.eq([node.getInBitDepth(), node.getOutBitDepth(), bool(node.getAttribute("halfDomain")), bool(node.getAttribute("rawHalfs"))], ["16f", "32f", True, raw], "attributes")
    v = node.getLUTValues()
    S.eq(len(v), 65536 * channels, "entries")
    for k in CODES:
        for c in range(channels):
            S.close(v[k * channels + c], a * half_value(k) + b, "entry%d" % k, scale=max(4.0, 4.0 * abs(half_value(k))))
    out = run_node(S, node, [[0.5, -1.0, 0.25]])[0]
    S.closev(out, [a * 0.5 + b, b - a, a * 0.25 + b], "value", scale=4.0)


SCENARIOS.add("sampled-1", sampled, channels=1, raw=False)
SCENARIOS.add("sampled-3", sampled, channels=3, raw=False)


def everydepth(S, columns):
    """Input codes of every depth are normalised before the lookup; outputs are the entries, whatever the output depth."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", ("16f", "10i"))
    chan = S.choice("channel", (0, 1, 2))
    t = S.table("t", 65536 * columns, -1000.0, 2000.0)
    node = S.clf.LUT1D(inb, outb, "id", "name", "linear", halfDomain=True)
    node.setArray(columns, t)
    a = SIZE[inb]
    x = S.real("x", 0.25, 0.5)
    S.assume(x < 0.5)
    px = [0.5 * a, 0.25 * a, 1.0 * a, 7.0]
    px[chan] = x * a
    out = run_node(S, node, [px])[0]
    S.close(out[chan], expected(S, t, columns, chan, 1, 13 * 1024, (x * 4.0 - 1.0) * 1024), "value", scale=4000.0, ctol=2e-3)
    for c in range(3):
        if c != chan:
            S.close(out[c], t[{0.5: 14336, 0.25: 13312, 1.0: 15360}[px[c] / a] * columns + c % columns], "other%d" % c, scale=4000.0)
    S.same(out[3], 7.0, "extra")


for col in (1, 3):
    SCENARIOS.add("depths-%d" % col, everydepth, columns=col, conf={"weight": 3})


def many(S, columns, stride, count):
    """Long runs of pixels: every one goes through the same LUT."""
    t = [((k * 37 + c * 11) % 256) / 256.0 for k in range(65536) for c in range(columns)]
    node = S.clf.LUT1D("16f", "16f", "id", "name", "linear", halfDomain=True)
    node.setArray(columns, t)
    at = S.choice("pixel", (0, count // 2, count - 1))
    codes = [[(k * 977 + c * 3331) % 31000 for c in range(stride)] for k in range(count)]
    pix = [[half_value(q) for q in row] for row in codes]
    x = S.real("x", 0.5, 0.5009765625)
    S.assume(x < 0.5009765625)
    pix[at][0] = x
    out = run_node(S, node, pix)
    for p in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        for c in range(min(3, stride)):
            if p == at and c == 0:
                continue
            S.close(out[p][c], t[codes[p][c] * columns + c % columns], "px%d-%d" % (p, c), scale=4.0)
        S.samev(out[p][3:], pix[p][3:], "extra%d" % p)
    k = S.floor((x * 2.0 - 1.0) * 1024)
    f = (x * 2.0 - 1.0) * 1024 - k
    lo, hi = t[14336 * columns], t[14337 * columns]
    more = t[14338 * columns]
    S.close(out[at][0], (1.0 - f) * lo + f * hi if k == 0 else (1.0 - f) * hi + f * more, "value", scale=4.0, ctol=2e-3)


for col in (1, 3):
    SCENARIOS.add("many-%d" % col, many, columns=col, stride=2 + col, count=60)


def near_half(S, columns, stride):
    """Values round the same half, in one pixel, in one channel of two pixels and in two runs; two nodes with other entries."""
    t = [((k * 37 + c * 11) % 256) / 256.0 for k in range(65536) for c in range(columns)]
    for q in range(3):
        for c in range(columns):
            t[(14336 + q) * columns + c] = S.real("t%d%d" % (q, c), -1.0, 1.0)
    node = S.clf.LUT1D("16f", "16f", "id", "name", "linear", halfDomain=True)
    node.setArray(columns, t)
    h = 0.5 * 2.0 ** -10
    u = S.reals("u", 2, 0.0, 1.9)
    u.insert(S.choice("fixed", (0, 2)), 0.375)

    def want(k, c):
        i = S.floor(u[k])
        w = u[k] - i
        e = [t[(14336 + q) * columns + c % columns] for q in range(3)]
        return (1.0 - w) * e[0] + w * e[1] if i == 0 else (1.0 - w) * e[1] + w * e[2]
    xs = [0.5 + v * h for v in u]
    how = S.choice("how", ("pixel", "channel", "runs", "single"))
    ctol = 2e-3
    if how == "pixel":
        out = run_node(S, node, [xs])[0]
        for c in range(3):
            S.close(out[c], want(c, c), "value%d" % c, scale=4.0, ctol=ctol)
    elif how == "single":
        out = run_node(S, node, [[v] for v in xs])
        for k in range(3):
            S.close(out[k][0], want(k, 0), "value%d" % k, scale=4.0, ctol=ctol)
    elif how == "channel":
        c = S.choice("c", (0, 1, 2))
        rows = [[0.25, 0.25, 0.25] + [7.0] * (stride - 3) for k in range(3)]
        for k in range(3):
            rows[k][c] = xs[k]
        out = run_node(S, node, rows)
        for k in range(3):
            S.close(out[k][c], want(k, c), "value%d" % k, scale=4.0, ctol=ctol)
    else:
        for k in range(3):
            out = run_node(S, node, [[xs[k], 0.25, 0.25]])[0]
            S.close(out[0], want(k, 0), "value%d" % k, scale=4.0, ctol=ctol)


for col in (1, 3):
    SCENARIOS.add("near-half-%d" % col, near_half, columns=col, stride=2 + col, conf={"weight": 4})


def two_nodes(S):
    """Two half-domain LUTs with other entries, and one whose entries are set anew."""
    x = 0.5 + S.real("u", 0.0, 0.9) * 0.5 * 2.0 ** -10
    nds, es = [], []
    for k in range(2):
        t = [((q * 37 + k) % 256) / 256.0 for q in range(65536)]
        t[14336], t[14337] = S.reals("t%d" % k, 2, -1.0, 1.0)
        es.append(t)
        if k == 0 or not S.choice("anew", (False, True)):
            nds.append(S.clf.LUT1D("16f", "16f", "id", "name", "linear", halfDomain=True))
        else:
            run_node(S, nds[0], [[x, x, x]])
            nds = [None, nds[0]]
        nds[k].setArray(1, t)
    w = (x - 0.5) * 2.0 ** 11
    for k in range(2):
        if nds[k] is not None:
            out = run_node(S, nds[k], [[x, 0.5, x]])[0]
            S.close(out[2], (1.0 - w) * es[k][14336] + w * es[k][14337], "value", scale=4.0, ctol=2e-3)
            S.close(out[1], es[k][14336], "half", scale=4.0, ctol=2e-3)


SCENARIOS.add("two-nodes", two_nodes, conf={"weight": 3})
