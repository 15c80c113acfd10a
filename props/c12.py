"""C12 1D LUTs"""
from props.common import *

SCENARIOS = Registry()
BOUNDS = "LUTs of 2 to 6 entries (thorough: to 12) and 17, 1024 and 4096 entries, one or three columns, all entries symbolic in code range; pixel values symbolic within twice the code range of every input depth; " \
         "none, one or three index maps of 2 to 4 points, fixed or symbolic; entries as list or array" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All; fixed values across a table in one symbolic channel"
OUTSIDE = "other sizes; single-precision rounding of positions within 1e-9 of an entry; half-domain LUTs (C13)"

WIDE = dict(scale=4.0)


def position(S, x, n, b):
    return x / SIZE[b] * (n - 1)


def curve(S, pos, n, column):
    """column(k): entry k."""
    if pos <= 0:
        return column(0)
    if pos >= n - 1:
        return column(n - 1)
    for k in range(n - 1):
        if pos <= k + 1:
            f = pos - k
            return (1.0 - f) * column(k) + f * column(k + 1)


def entries(S, n, columns, top):
    return S.reals("t", n * columns, -0.5 * top, 1.5 * top)


def build(S, n, columns, t, inb, outb, kind="list", interpolation="linear"):
    node = S.clf.LUT1D(inb, outb, "id", "name", interpolation)
    node.setArray(columns, list(t) if kind == "list" else S.np.array(list(t), dtype=S.np.float32))
    return node


def value(S, n, columns, inb, outb, chans, kind="list", interpolation="linear", stride=3, count=1, entry="node"):
    top = SIZE[outb]
    t = entries(S, n, columns, top)
    node = build(S, n, columns, t, inb, outb, kind, interpolation)
    a = SIZE[inb]
    pix = [[S.real("x%d_%d" % (p, c), -2.0 * a, 2.0 * a) if c in chans and p == count - 1 else a * (0.1875 + 0.25 * c) for c in range(stride)] for p in range(count)]
    out = run_node(S, node, pix) if entry == "node" else run_list(S, plist(S, node), pix)
    for p in range(count):
        exp = [curve(S, position(S, pix[p][c], n, inb), n, lambda k: t[k * columns + (c if columns == 3 else 0)]) for c in range(3)] + pix[p][3:]
        S.closev(out[p], exp, "pixel%d" % p, scale=4.0 * top)


for n in (2, 3, 4, 5, 6):
    for col in (1, 3):
        for k, (i, o) in enumerate((("16f", "16f"), ("10i", "32f"), ("32f", "12i"), ("8i", "16i"), ("16i", "8i"), ("12i", "10i"))):
            if (n + k) % 3 and not (i, o) == ("16f", "16f"):
                continue
            SCENARIOS.add("n%d-c%d-%s-%s" % (n, col, i, o), value, n=n, columns=col, inb=i, outb=o, chans=(0, 1, 2) if n == 2 or (n == 3 and k == 0) else (0, 2) if n == 4 and k == 0 else (k % 3,), kind=("list", "array")[k % 2],
                          interpolation=("linear", "", "cubic")[(n + k) % 3], stride=3 + (n + k) % 2)
for n in (7, 8, 9, 12):
    for col in (1, 3):
        SCENARIOS.add("n%d-c%d" % (n, col), value, tier="thorough", n=n, columns=col, inb="10i", outb="16f", chans=(0, 2), count=2, stride=4)
for k in range(3):
    SCENARIOS.add("list-%d" % k, value, n=3, columns=(1, 3, 3)[k], inb="16f", outb="16f", chans=(k,), count=3, stride=3 + k, entry="list")
SCENARIOS.add("n17", value, n=17, columns=3, inb="8i", outb="16f", chans=(1,))
SCENARIOS.add("n33", value, tier="thorough", n=33, columns=1, inb="12i", outb="16f", chans=(0,))


def big(S, n, columns, chan, inb, lo, hi):
    """LUTs of any entries, at any position."""
    t = S.table("t", n * columns, 0.0, 1.0)
    node = S.clf.LUT1D(inb, "16f", "id", "name")
    node.setArray(columns, t)
    a = SIZE[inb]
    x = S.real("x", lo * a, hi * a)
    px = [0.25 * a, 0.5 * a, 0.75 * a]
    px[chan] = x
    out = run_node(S, node, [px])[0]
    pos = x / a * (n - 1)
    if pos <= 0:
        e = t[chan % columns]
    elif pos >= n - 1:
        e = t[(n - 1) * columns + chan % columns]
    else:
        k = S.floor(pos)
        f = pos - k
        if f > 0:
            e = (1.0 - f) * t[k * columns + chan % columns] + f * t[(k + 1) * columns + chan % columns]
        else:
            e = t[k * columns + chan % columns]
    S.close(out[chan], e, "value", scale=4.0, ctol=1e-3)


for n, col, ch, b, lo, hi in ((1024, 1, 0, "10i", -1.0, 2.0), (4096, 3, 2, "16f", 0.0, 1.0), (4096, 3, 1, "12i", -0.5, 1.5), (1024, 3, 0, "16f", 0.5, 2.0), (65536, 1, 1, "16i", 0.0, 1.0)):
    SCENARIOS.add("big-%d-%d-%s-%d" % (n, col, b, ch), big, n=n, columns=col, chan=ch, inb=b, lo=lo, hi=hi)


def knots(S, n, columns, inb):
    """The code of an entry gives the entry exactly."""
    t = entries(S, n, columns, 1.0)
    node = build(S, n, columns, t, inb, "16f")
    k = S.choice("k", tuple(range(n)))
    out = run_node(S, node, [[SIZE[inb] * k / (n - 1.0)] * 3])[0]
    S.closev(out, [t[k * columns + (c if columns == 3 else 0)] for c in range(3)], "entry", scale=4.0)


for n, col, b in ((2, 1, "16f"), (5, 3, "8i"), (5, 1, "32f"), (9, 3, "16f"), (17, 1, "12i"), (33, 3, "16i")):
    SCENARIOS.add("knots-%d-%d-%s" % (n, col, b), knots, n=n, columns=col, inb=b)


def pwl(S, x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            return ys[k] + (x - xs[k]) / (xs[k + 1] - xs[k]) * (ys[k + 1] - ys[k])
    return ys[-1]


MAPS = {"full": ([0.0, 1.0], [0.0, 4.0]), "bend": ([0.0, 0.25, 1.0], [0.0, 2.0, 4.0]), "part": ([-0.5, 0.25, 0.5, 1.5], [0.0, 1.0, 3.0, 4.0]), "inner": ([0.0, 0.5], [1.0, 3.0])}


def maps(S, which, columns, inb, outb, chan):
    n = 5
    t = entries(S, n, columns, SIZE[outb])
    node = build(S, n, columns, t, inb, outb)
    a = SIZE[inb]
    m = [[[v * a for v in MAPS[w][0]], list(MAPS[w][1])] for w in which]
    node.setIndexMaps(*m)
    for c, w in enumerate(which):
        S.eq(node.getIndexMapDimensions(c), len(MAPS[w][0]), "dimension")
    px = [0.125 * a, 0.375 * a, 0.625 * a, 0.5]
    px[chan] = S.real("x", -2.0 * a, 2.0 * a)
    out = run_node(S, node, [px])[0]
    exp = []
    for c in range(3):
        q = m[c if len(m) > 1 else 0]
        exp.append(curve(S, pwl(S, px[c], *q), n, lambda k: t[k * columns + (c if columns == 3 else 0)]))
    S.closev(out[:3], exp, "value", scale=4.0 * SIZE[outb])


for k, w in enumerate((("full",), ("bend",), ("part",), ("inner",), ("full", "bend", "part"), ("inner", "part", "bend"), ("bend", "bend", "full"))):
    for c in range(3):
        SCENARIOS.add("maps-%s-%d" % ("+".join(w), c), maps, which=w, columns=(1, 3)[(k + c) % 2], inb=("16f", "10i", "12i")[(k + c) % 3], outb=("16f", "32f", "8i")[k % 3], chan=c)


def symbolic_map(S, columns):
    """Any index map points."""
    t = entries(S, 3, columns, 1.0)
    node = build(S, 3, columns, t, "16f", "16f")
    xs = S.reals("p", 3, -1.0, 2.0)
    S.assume(S.And(xs[0] + 1e-3 <= xs[1], xs[1] + 1e-3 <= xs[2]))
    ys = S.reals("q", 3, 0.0, 2.0)
    node.setIndexMaps([list(xs), list(ys)])
    x = S.real("x", -2.0, 3.0)
    out = run_node(S, node, [[x]])[0]
    S.close(out[0], curve(S, pwl(S, x, xs, ys), 3, lambda k: t[k * columns]), "value", scale=4.0, ctol=5e-3)


for c in (1, 3):
    SCENARIOS.add("maps-symbolic-%d" % c, symbolic_map, columns=c, conf={"weight": 5})


def reset(S):
    """A node given a second array uses it."""
    t, u = entries(S, 3, 1, 1.0), S.reals("u", 6, -0.5, 1.5)
    node = build(S, 3, 1, t, "16f", "16f")
    x = S.real("x", -0.5, 1.5)
    run_node(S, node, [[x, x, x]])
    node.setArray(3, list(u))
    out = run_node(S, node, [[x, 0.0, 1.0]])[0]
    S.closev(out, [curve(S, x, 2, lambda k: u[k * 3]), u[1], u[5]], "value", scale=4.0)
    S.eq(list(node.getLUTDimensions()), [2, 3], "dimensions")
    S.samev(node.getLUTValues(), u, "values")


SCENARIOS.add("second-array", reset)


def sampled(S, n, channels, inb, outb):
    """LUTs made from a function hold its values and reproduce it at the samples and, when it is straight, everywhere."""
    a, b = S.real("a", -2.0, 2.0), S.real("b", -1.0, 1.0)
    node = S.clf.simpleSampledLUT("id", "name", channels, n, lambda v: a * v + b, inb, outb)
    S.eq(list(node.getLUTDimensions()), [n, channels], "dimensions")
    S.eq([node.getInBitDepth(), node.getOutBitDepth()], [inb, outb], "depths")
    S.closev(node.getLUTValues(), [a * (float(k) / (n - 1)) + b for k in range(n) for _ in range(channels)], "entries", scale=4.0)
    x = S.real("x", 0.0, 1.0)
    out = run_node(S, node, [[x * SIZE[inb], 0.0, SIZE[inb]]])[0]
    S.closev(out, [a * x + b, b, a + b], "value", scale=4.0)


for n, ch, i, o in ((2, 1, "16f", "16f"), (5, 3, "10i", "32f"), (4, 1, "8i", "12i")):
    SCENARIOS.add("sampled-%d-%d" % (n, ch), sampled, n=n, channels=ch, inb=i, outb=o)


def monotone(S, n):
    """Rising entries give a rising curve."""
    t = entries(S, n, 1, 1.0)
    for k in range(n - 1):
        S.assume(t[k] <= t[k + 1])
    node = build(S, n, 1, t, "16f", "16f")
    x, y = S.real("x", -0.5, 1.5), S.real("y", -0.5, 1.5)
    S.assume(x <= y)
    out = run_node(S, node, [[x, y, 0.0]])[0]
    S.true(out[0] <= out[1] + 1e-5, "monotone")


for n in (2, 3, 4):
    SCENARIOS.add("monotone-%d" % n, monotone, n=n)


def notnumbers(S, columns):
    """A NaN does not reach the other channels."""
    t = entries(S, 3, columns, 1.0)
    node = build(S, 3, columns, t, "16f", "16f")
    if not accepted(S, lambda: build(S, 3, columns, t, "16f", "16f"), [[float("nan"), 0.0, 1.0]]):
        S.closev(run_node(S, node, [[0.5, 0.0, 1.0]])[0], [t[columns], t[1 % columns], t[2 * columns + 2 % columns]], "others", scale=4.0)
        return
    out = run_node(S, node, [[float("nan"), 0.0, 1.0]])[0]
    S.closev(out[1:], [t[1 % columns], t[2 * columns + 2 % columns]], "others", scale=4.0)


for c in (1, 3):
    SCENARIOS.add("nan-%d" % c, notnumbers, columns=c)


def everydepth(S, columns, count, interpolation):
    """Every pair of bit depths, values far outside the code range, with and without index maps."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    chan = S.choice("channel", (0, 1, 2))
    a, b = SIZE[inb], SIZE[outb]
    n = 5
    t = [b * ((k * 5 + c * 3 + k * k) % 11) / 10.0 - 0.125 * b for k in range(n) for c in range(columns)]
    node = build(S, n, columns, t, inb, outb, interpolation=interpolation)
    m = [[[v * a for v in MAPS[w][0]], list(MAPS[w][1])] for w in ("bend", "part", "full")[:count]]
    if m:
        node.setIndexMaps(*m)
    px = [0.25 * a, 0.5 * a, 0.3125 * a, 0.125]
    px[chan] = S.real("x", -1e4 * a, 1e4 * a)
    exp = []
    for c in range(3):
        pos = pwl(S, px[c], *m[c if count > 1 else 0]) if m else position(S, px[c], n, inb)
        exp.append(curve(S, pos, n, lambda k: t[k * columns + (c if columns == 3 else 0)]))
    S.closev(run_node(S, node, [px])[0], exp + [px[3]], "value", scale=4.0 * b, ctol=5e-4)


for col in (1, 3):
    for count in (0, 1, 3):
        SCENARIOS.add("depths-c%d-m%d" % (col, count), everydepth, columns=col, count=count, interpolation=("linear", "", "cubic")[(col + count) % 3])


def large(S, columns, reach):
    """Entries of any size and sign."""
    n = 4
    t = S.reals("t", n * columns, -reach, reach)
    node = build(S, n, columns, t, "16f", "16f")
    px = [0.125, 0.5, 0.8125]
    out = run_node(S, node, [px])[0]
    S.closev(out, [curve(S, px[c] * 3, n, lambda k: t[k * columns + (c if columns == 3 else 0)]) for c in range(3)], "value", scale=2.0 * reach)


for col in (1, 3):
    for reach in (1e-3, 1e5):
        SCENARIOS.add("large-%d-%g" % (col, reach), large, columns=col, reach=reach)


def many(S, columns, stride, count, mapped):
    """Long runs of pixels: every one goes through the same LUT."""
    n = 5
    t = [((k * 5 + c * 3 + k * k) % 11) / 10.0 for k in range(n) for c in range(columns)]
    node = build(S, n, columns, t, "16f", "16f")
    m = [[0.0, 0.25, 1.0], [0.0, 2.0, 4.0]]
    if mapped:
        node.setIndexMaps([list(m[0]), list(m[1])])
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.03125 * ((k * 7 + c * 3) % 32) for c in range(stride)] for k in range(count)]
    pix[at] = S.reals("x", 1, -1.0, 2.0) + pix[at][1:]
    out = run_node(S, node, pix)
    for p in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        exp = [curve(S, pwl(S, pix[p][c], *m) if mapped else pix[p][c] * 4.0, n, lambda k: t[k * columns + (c if columns == 3 else 0)]) for c in range(3)]
        S.closev(out[p], exp + pix[p][3:], "px%d" % p, scale=4.0)


for col in (1, 3):
    for mp in (0, 1):
        SCENARIOS.add("many-c%d-m%d" % (col, mp), many, columns=col, stride=3 + col + mp, count=150, mapped=mp)


def longmap(S, points):
    """Index maps of many points."""
    xs = [0.03125 * k + 0.0078125 * (k % 3) for k in range(points)]
    ys = [float(k) for k in range(points)]
    t = [((k * 5 + k * k) % 11) / 10.0 for k in range(points)]
    node = build(S, points, 1, t, "16f", "16f")
    node.setIndexMaps([list(xs), list(ys)])
    x = S.real("x", -0.5, xs[-1] + 0.5)
    out = run_node(S, node, [[x, 0.0, xs[-1]]])[0]
    S.closev(out, [curve(S, pwl(S, x, xs, ys), points, lambda k: t[k]), t[0], t[-1]], "value", scale=4.0)


for n in (10, 24):
    SCENARIOS.add("longmap-%d" % n, longmap, points=n)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("lut1d") and k != "lut1d-half"], (0,))


def walk(S, n, columns):
    """Every stretch of the LUT after every other, in all channels, and values that hardly differ."""
    t = entries(S, n, columns, 1.0)
    lut = build(S, n, columns, t, "16f", "16f")
    pos = []
    for a in range(n - 1):
        for b in range(a, n - 1):
            pos += [a + 0.25, b + 0.625]
    pix = [[(p + 0.0625 * c) / (n - 1) for c in range(3)] for p in pos]
    pix.append([S.real("x", 0.3, 0.301), 0.5, 0.75])
    pix.append([pix[-1][0] + S.real("d", -0.00002, 0.00002), 0.5, 0.75])
    pix.append([0.5, pix[-1][0], 0.75])
    out = run_node(S, lut, pix)
    for k, p in enumerate(pix):
        for c in range(3):
            S.close(out[k][c], curve(S, p[c] * (n - 1), n, lambda e: t[e * columns + (c if columns == 3 else 0)]), "pixel%d" % k, scale=1.0)


for n in (3, 5):
    for col in (1, 3):
        SCENARIOS.add("walk-%d-%d" % (n, col), walk, n=n, columns=col)
