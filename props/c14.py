"""C14 3D LUTs"""
import itertools

from props.common import *

SCENARIOS = Registry()
BOUNDS = "lattices of 2 to 4 points per axis with equal and different sizes (thorough: to 6), all entries symbolic in code range, all three pixel values symbolic within twice the code range; trilinear and tetrahedral; " \
         "none, one or three index maps; lattices of 17 and 33 points with symbolic entries and one or two symbolic channels; entries as list or array" \
         "; twelve fixed values across a lattice in one symbolic channel; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "other sizes; single-precision rounding; NaN and infinite inputs"
FORK = {"minmax": "fork", "weight": 3, "quick_s": 150}


def entry(t, sizes, k, c):
    return t[((k[0] * sizes[1] + k[1]) * sizes[2] + k[2]) * 3 + c]


def cell(S, pos, n):
    """(lower lattice point, fraction) of a position already scaled to the lattice."""
    if pos <= 0:
        return 0, 0.0
    if pos >= n - 1:
        return n - 2, 1.0
    for k in range(n - 1):
        if pos < k + 1:
            return k, pos - k


def trilinear(S, t, sizes, pos):
    kf = [cell(S, pos[a], sizes[a]) for a in range(3)]
    out = []
    for c in range(3):
        v = 0.0
        for corner in itertools.product((0, 1), repeat=3):
            w = 1.0
            for a in range(3):
                w = w * (kf[a][1] if corner[a] else 1.0 - kf[a][1])
            v = v + w * entry(t, sizes, [kf[a][0] + corner[a] for a in range(3)], c)
        out.append(v)
    return out


def tetrahedral(S, t, sizes, pos):
    kf = [cell(S, pos[a], sizes[a]) for a in range(3)]
    order = [0, 1, 2]
    f = [q[1] for q in kf]
    if f[order[0]] < f[order[1]]:
        order[0], order[1] = order[1], order[0]
    if f[order[1]] < f[order[2]]:
        order[1], order[2] = order[2], order[1]
    if f[order[0]] < f[order[1]]:
        order[0], order[1] = order[1], order[0]
    out = []
    for c in range(3):
        k = [q[0] for q in kf]
        v = (1.0 - f[order[0]]) * entry(t, sizes, k, c)
        for j in range(3):
            k[order[j]] = k[order[j]] + 1
            w = f[order[j]] - (f[order[j + 1]] if j < 2 else 0.0)
            v = v + w * entry(t, sizes, k, c)
        out.append(v)
    return out


INTERP = {"trilinear": trilinear, "tetrahedral": tetrahedral}


def build(S, sizes, interp, inb, outb, kind="list", t=None):
    n = sizes[0] * sizes[1] * sizes[2] * 3
    top = SIZE[outb]
    if t is None:
        t = S.reals("t", n, -0.5 * top, 1.5 * top)
    node = S.clf.LUT3D(inb, outb, "id", "name", interp)
    node.setArray(list(sizes) if kind == "list" else tuple(sizes), list(t) if kind == "list" else S.np.array(list(t), dtype=S.np.float32))
    return node, t


def value(S, sizes, interp, inb, outb, chans, kind="list", stride=3, count=1, entry_="node", lo=-2.0, hi=2.0):
    node, t = build(S, sizes, interp, inb, outb, kind)
    a = SIZE[inb]
    pix = [[S.real("x%d_%d" % (p, c), lo * a, hi * a) if c in chans and p == count - 1 else a * (0.1875 + 0.25 * c) for c in range(stride)] for p in range(count)]
    out = run_node(S, node, pix) if entry_ == "node" else run_list(S, plist(S, node), pix)
    for p in range(count):
        pos = [pix[p][c] / a * (sizes[c] - 1) for c in range(3)]
        S.closev(out[p], INTERP[interp](S, t, sizes, pos) + pix[p][3:], "pixel%d" % p, scale=4.0 * SIZE[outb])


PAIRS = (("16f", "16f"), ("10i", "32f"), ("32f", "12i"), ("8i", "16i"), ("12i", "8i"), ("16i", "10i"))
for interp in sorted(INTERP):
    for k, sz in enumerate(((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 3, 3), (4, 2, 3))):
        i, o = PAIRS[k]
        SCENARIOS.add("%s-%dx%dx%d" % ((interp,) + sz), value, sizes=sz, interp=interp, inb=i, outb=o, chans=(0, 1, 2), kind=("list", "array")[k % 2], stride=3 + k % 2, conf=FORK,
                      **(dict(lo=0.01, hi=0.99) if k > 0 else {}))
        for c in range(3):
            SCENARIOS.add("%s-%dx%dx%d-wide%d" % ((interp,) + sz + (c,)), value, sizes=sz, interp=interp, inb=o, outb=i, chans=(c,), kind=("array", "list")[k % 2], stride=3 + c, count=2, conf=FORK, entry_=("node", "list")[k % 2])
    for sz in ((3, 4, 5), (2, 6, 3), (4, 4, 4)):
        SCENARIOS.add("%s-%dx%dx%d" % ((interp,) + sz), value, tier="thorough", sizes=sz, interp=interp, inb="16f", outb="10i", chans=(0, 1, 2), conf=FORK)


def big(S, sizes, interp, inb, chans):
    """Large lattices: any entries, any position in two channels."""
    t = S.table("t", sizes[0] * sizes[1] * sizes[2] * 3, 0.0, 1.0)
    node = S.clf.LUT3D(inb, "16f", "id", "name", interp)
    node.setArray(list(sizes), Slices(t))
    a = SIZE[inb]
    px = [0.375 * a, 0.0, 1.0 * a]
    k, f = [], []
    for c in range(3):
        if c in chans:
            px[c] = S.real("x%d" % c, 0.0, 0.999 * a)
        p = px[c] / a * (sizes[c] - 1)
        if c in chans:
            q = S.floor(p)
        else:
            q = min(int(p), sizes[c] - 2)
        k.append(q)
        f.append(p - q)
    out = run_node(S, node, [px])[0]
    for c in range(3):
        if interp == "trilinear":
            v = 0.0
            for corner in itertools.product((0, 1), repeat=3):
                w = 1.0
                for ax in range(3):
                    w = w * (f[ax] if corner[ax] else 1.0 - f[ax])
                v = v + w * entry(t, sizes, [k[ax] + corner[ax] for ax in range(3)], c)
        else:
            order = [0, 1, 2]
            for x, y in ((0, 1), (1, 2), (0, 1)):
                if f[order[x]] < f[order[y]]:
                    order[x], order[y] = order[y], order[x]
            kk = list(k)
            v = (1.0 - f[order[0]]) * entry(t, sizes, kk, c)
            for j in range(3):
                kk[order[j]] = kk[order[j]] + 1
                v = v + (f[order[j]] - (f[order[j + 1]] if j < 2 else 0.0)) * entry(t, sizes, kk, c)
        S.close(out[c], v, "value%d" % c, scale=4.0, ctol=1e-3)


class Slices(object):
    """A list whose slices are read entry by entry."""
    def __init__(self, t):
        self.t = t

    def __len__(self):
        return len(self.t)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return [self.t[k.start + j] for j in range(3)]
        return self.t[k]

    def __ne__(self, o):
        return True

    def __eq__(self, o):
        return False

    __hash__ = None


for interp in sorted(INTERP):
    for sz, b, ch in (((17, 17, 17), "16f", (0,)), ((33, 17, 9), "10i", (1,)), ((33, 33, 33), "12i", (2,)), ((65, 65, 65), "16f", (0,))):
        SCENARIOS.add("big-%s-%d-%d-%d-%d" % ((interp,) + sz + ch), big, sizes=sz, interp=interp, inb=b, chans=ch)
    SCENARIOS.add("big-%s-two" % interp, big, tier="thorough", sizes=(17, 33, 17), interp=interp, inb="16f", chans=(0, 2))


def lattice(S, sizes, interp, inb):
    """Each lattice point gives its own entry, and red varies slowest."""
    node, t = build(S, sizes, interp, inb, "16f")
    k = [S.choice("k%d" % c, tuple(range(sizes[c]))) for c in range(3)]
    out = run_node(S, node, [[SIZE[inb] * k[c] / (sizes[c] - 1.0) for c in range(3)]])[0]
    S.closev(out, [entry(t, sizes, k, c) for c in range(3)], "entry", scale=4.0, ctol=1e-4)


for interp in sorted(INTERP):
    for sz, b in (((2, 3, 4), "8i"), ((4, 2, 3), "16f"), ((3, 3, 3), "12i"), ((5, 3, 2), "32f")):
        SCENARIOS.add("lattice-%s-%dx%dx%d" % ((interp,) + sz), lattice, sizes=sz, interp=interp, inb=b)


def pwl(S, x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            return ys[k] + (x - xs[k]) / (xs[k + 1] - xs[k]) * (ys[k + 1] - ys[k])
    return ys[-1]


def maps(S, sizes, interp, count, inb, chan):
    """Index maps give the lattice position directly."""
    node, t = build(S, sizes, interp, inb, "16f")
    a = SIZE[inb]
    shapes = [([0.0, 0.25, 1.0], [0.0, 0.5, 1.0]), ([-0.5, 0.5, 0.75], [0.0, 0.75, 1.0]), ([0.0, 2.0], [0.0, 1.0])]
    m = []
    for c in range(count):
        xs, ys = shapes[c]
        m.append([[v * a for v in xs], [v * (sizes[c] - 1) for v in ys]])
    node.setIndexMaps(*m)
    px = [0.375 * a, 0.5 * a, 0.625 * a]
    if count == 1:
        # one map for all axes: it gives positions of its own, beyond the shorter axes as well
        top = float(max(sizes) - 1)
        m = [[[v * a for v in shapes[0][0]], [v * top for v in shapes[0][1]]]]
        node = S.clf.LUT3D(inb, "16f", "id", "name", interp)
        node.setArray(list(sizes), list(t))
        node.setIndexMaps(*m)
    px[chan] = S.real("x", -2.0 * a, 3.0 * a)
    out = run_node(S, node, [px])[0]
    pos = [pwl(S, px[c], *m[c if count > 1 else 0]) for c in range(3)]
    S.closev(out, INTERP[interp](S, t, sizes, pos), "value", scale=4.0)


for k, interp in enumerate(sorted(INTERP)):
    for c in range(3):
        SCENARIOS.add("maps1-%s-%d" % (interp, c), maps, sizes=(3, 3, 3), interp=interp, count=1, inb=("16f", "10i", "8i")[c], chan=c, conf=FORK)
        SCENARIOS.add("maps1-mixed-%s-%d" % (interp, c), maps, sizes=((2, 3, 4), (4, 3, 2), (3, 4, 2))[c], interp=interp, count=1, inb=("10i", "16f", "12i")[c], chan=c, conf=FORK)
        SCENARIOS.add("maps3-%s-%d" % (interp, c), maps, sizes=((2, 3, 4), (4, 3, 2))[k], interp=interp, count=3, inb=("12i", "16f", "32f")[c], chan=c, conf=FORK)


def sampled(S, sizes, inb, outb):
    """A 3D LUT made from a function holds its values and, when it is affine, reproduces it inside the cube."""
    g = S.reals("g", 3, -1.0, 1.0)
    node = S.clf.simple3DLUT("id", "name", list(sizes), lambda x, y, z: [g[0] * x + y, g[1] * z + x, g[2] * y], inb, outb)
    S.eq(list(node.getLUTDimensions()), list(sizes) + [3], "dimensions")
    S.eq([node.getInBitDepth(), node.getOutBitDepth()], [inb, outb], "depths")
    v = node.getLUTValues()
    for k in itertools.product(*[range(n) for n in sizes]):
        x, y, z = [float(k[a]) / (sizes[a] - 1) for a in range(3)]
        for c, e in enumerate((g[0] * x + y, g[1] * z + x, g[2] * y)):
            S.close(entry(v, sizes, k, c), e, "entry", scale=4.0)
    x = S.real("x", 0.0, 1.0)
    out = run_node(S, node, [[x * SIZE[inb], 0.25 * SIZE[inb], 0.75 * SIZE[inb]]])[0]
    S.closev(out, [g[0] * x + 0.25, g[1] * 0.75 + x, g[2] * 0.25], "value", scale=4.0)


for sz, i, o in (((2, 2, 2), "16f", "16f"), ((2, 3, 4), "10i", "32f"), ((4, 2, 3), "16f", "12i")):
    SCENARIOS.add("sampled-%dx%dx%d" % sz, sampled, sizes=sz, inb=i, outb=o, conf=FORK)


def agree(S, sizes):
    """On the lattice lines both interpolations agree."""
    a, t = build(S, sizes, "trilinear", "16f", "16f")
    b, _ = build(S, sizes, "tetrahedral", "16f", "16f", t=t)
    ax = S.choice("axis", (0, 1, 2))
    px = [float(S.choice("k%d" % c, tuple(range(sizes[c])))) / (sizes[c] - 1) for c in range(3)]
    px[ax] = S.real("x", -0.5, 1.5)
    S.closev(run_node(S, a, [px])[0], run_node(S, b, [px])[0], "same", scale=4.0)


SCENARIOS.add("agree-2x3x2", agree, sizes=(2, 3, 2), conf=FORK)


def bounded(S, interp):
    """The output lies within the range of the entries."""
    node, t = build(S, (2, 2, 2), interp, "16f", "16f")
    lo, hi = S.real("lo", -1.0, 1.0), S.real("hi", -1.0, 2.0)
    for v in t:
        S.assume(S.And(lo <= v, v <= hi))
    x = S.reals("x", 3, -0.5, 1.5)
    out = run_node(S, node, [x])[0]
    S.true(S.And(out[0] >= lo - 1e-5, out[0] <= hi + 1e-5), "bounds")


SCENARIOS.add("bounded-tetrahedral", bounded, tier="thorough", interp="tetrahedral", conf=FORK)


def reset(S):
    """A second array replaces the first."""
    node, t = build(S, (2, 2, 2), "trilinear", "16f", "16f")
    x = S.real("x", 0.0, 1.0)
    run_node(S, node, [[x, 0.5, 0.25]])
    u = S.reals("u", 36, -0.5, 1.5)
    dims = [2, 3, 2]
    node.setArray(dims, list(u))
    S.eq(dims, [2, 3, 2], "dimensions given")
    out = run_node(S, node, [[x, 0.5, 0.25]])[0]
    S.closev(out, trilinear(S, u, (2, 3, 2), [x, 1.0, 0.25]), "value", scale=4.0)
    S.eq(list(node.getLUTDimensions()), [2, 3, 2, 3], "dimensions")


SCENARIOS.add("second-array", reset, conf=FORK)


POINTS = {2: ([0.0, 1.0], [0.0, 1.0]), 3: ([0.0, 0.25, 1.0], [0.0, 1.0, 2.0]), 4: ([-0.5, 0.25, 0.5, 1.5], [0.0, 1.0, 2.0, 3.0])}


def pwlx(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            return ys[k] + (x - xs[k]) / (xs[k + 1] - xs[k]) * (ys[k + 1] - ys[k])
    return ys[-1]


def everydepth(S, interp, sizes, mapped):
    """Every pair of bit depths, values far outside the code range, with and without index maps."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    chan = S.choice("channel", (0, 1, 2))
    a, b = SIZE[inb], SIZE[outb]
    t = [b * ((k * 5 + k // 7 * 3) % 11) / 10.0 - 0.125 * b for k in range(sizes[0] * sizes[1] * sizes[2] * 3)]
    node, _ = build(S, sizes, interp, inb, outb, t=t)
    m = None
    if mapped:
        m = [[[v * a for v in POINTS[s][0]], list(POINTS[s][1])] for s in sizes]
        node.setIndexMaps(*m)
    px = [0.25 * a, 0.5625 * a, 0.34375 * a, 0.125]
    px[chan] = S.real("x", -1e4 * a, 1e4 * a)
    pos = [pwlx(px[c], *m[c]) if mapped else px[c] / a * (sizes[c] - 1) for c in range(3)]
    S.closev(run_node(S, node, [px])[0], INTERP[interp](S, t, sizes, pos) + [px[3]], "value", scale=4.0 * b, ctol=5e-4)


for interp in sorted(INTERP):
    SCENARIOS.add("depths-" + interp, everydepth, interp=interp, sizes=(2, 3, 4), mapped=False, conf=FORK)
    SCENARIOS.add("depths-maps-" + interp, everydepth, interp=interp, sizes=(3, 4, 2), mapped=True, conf=FORK)


def large(S, interp, reach):
    """Entries of any size and sign."""
    sizes = (2, 3, 2)
    t = S.reals("t", 36, -reach, reach)
    node, _ = build(S, sizes, interp, "16f", "16f", t=t)
    px = [0.625, 0.375, 0.25]
    pos = [px[c] * (sizes[c] - 1) for c in range(3)]
    S.closev(run_node(S, node, [px])[0], INTERP[interp](S, t, sizes, pos), "value", scale=2.0 * reach)


def many(S, interp, stride, count, mapped):
    """Long runs of pixels: every one goes through the same LUT."""
    sizes = (2, 3, 4)
    t = [((k * 5 + k // 7 * 3) % 11) / 10.0 for k in range(72)]
    node, _ = build(S, sizes, interp, "16f", "16f", t=t)
    m = [[list(POINTS[s][0]), list(POINTS[s][1])] for s in sizes]
    if mapped:
        node.setIndexMaps(*m)
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.03125 * ((k * 7 + c * 3) % 32) for c in range(stride)] for k in range(count)]
    pix[at] = S.reals("x", 1, -1.0, 2.0) + pix[at][1:]
    out = run_node(S, node, pix)
    for p in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        pos = [pwlx(pix[p][c], *m[c]) if mapped else pix[p][c] * (sizes[c] - 1) for c in range(3)]
        S.closev(out[p], INTERP[interp](S, t, sizes, pos) + pix[p][3:], "px%d" % p, scale=4.0)


for interp in sorted(INTERP):
    for reach in (1e-3, 1e5):
        SCENARIOS.add("large-%s-%g" % (interp, reach), large, interp=interp, reach=reach, conf=FORK)
    for mp in (0, 1):
        SCENARIOS.add("many-%s-m%d" % (interp, mp), many, interp=interp, stride=3 + mp, count=80, mapped=mp, conf=FORK)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("lut3d")], (0,))


def walk(S, sizes, interp, chan):
    """Every cell after every other: what was looked up before does not matter."""
    t = S.reals("t", sizes[0] * sizes[1] * sizes[2] * 3, 0.0, 1.0)
    n = S.clf.LUT3D("16f", "16f", "id", "name", interp)
    n.setArray(list(sizes), list(t))
    cells = [(r, g, b) for r in range(sizes[0] - 1) for g in range(sizes[1] - 1) for b in range(sizes[2] - 1)]
    order = [x for k, c in enumerate(cells) for d in cells[k:] for x in (c, d)]
    f = [0.25, 0.625, 0.4375]
    pix = []
    for k, c in enumerate(order):
        v = (0.0, 0.1875, 0.125, 0.0625)[k % 4]
        pix.append([(c[j] + f[(j + k) % 3] + v) / (sizes[j] - 1) for j in range(3)])
    last = S.real("x", 0.05, 0.95)
    pix.append(list(pix[1]))
    pix[-1][chan] = last
    out = run_node(S, n, pix)
    for k in range(0, len(pix)):
        pos = [pix[k][j] * (sizes[j] - 1) for j in range(3)]
        S.closev(out[k], INTERP[interp](S, t, sizes, pos), "pixel%d" % k, scale=1.0)


for interp in sorted(INTERP):
    for k, sz in enumerate(((2, 3, 5), (5, 2, 3), (3, 4, 2), (2, 2, 4))):
        SCENARIOS.add("walk-%s-%dx%dx%d" % ((interp,) + sz), walk, sizes=sz, interp=interp, chan=k % 3, conf=FORK)
