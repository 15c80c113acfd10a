"""C05 bit depth conversion"""
from props.common import *

SCENARIOS = Registry()
BOUNDS = "code values symbolic in [-100000, 100000], also of 1e30 and of 1e-6 in size (negative and above the code range included); all six depths and all 36 ordered pairs" \
         "; values converted after others"
OUTSIDE = "single-precision rounding"

CODE = {"8i": 255, "10i": 1023, "12i": 4095, "16i": 65535}


def convert(S, depth):
    clf = S.clf
    v = S.real("v", -100000.0, 100000.0)
    n = clf.bitDepthToNormalized(v, depth)
    S.close(n, v / SIZE[depth], "to normalised", scale=100.0 if depth in INTD else 1e5)
    S.close(clf.normalizedToBitDepth(v, depth), v * SIZE[depth], "to code values", scale=1e5 * SIZE[depth])
    S.close(clf.normalizedToBitDepth(n, depth), v, "back", scale=1e4)
    S.close(clf.bitDepthToNormalized(clf.normalizedToBitDepth(v, depth), depth), v, "forth", scale=1e4)


def integer(S, depth):
    """Every code value of an integer depth survives the round trip and lands in [0,1]."""
    clf = S.clf
    c = S.int("code", 0, CODE[depth])
    n = clf.bitDepthToNormalized(c, depth)
    S.true(S.And(n >= 0, n <= 1), "normalised range")
    back = clf.normalizedToBitDepth(n, depth)
    S.close(back, c, "code value", scale=1.0, ctol=0.01)
    S.close(clf.bitDepthToNormalized(CODE[depth], depth), 1.0, "top code")


for d in DEPTHS:
    SCENARIOS.add("convert-" + d, convert, depth=d)
for d in INTD:
    SCENARIOS.add("integer-" + d, integer, depth=d)


def arrays(S, depth):
    """Whole arrays convert as their entries do, and the argument stays as it was."""
    clf = S.clf
    v = [S.real("v%d" % k, -1000.0, 70000.0) for k in range(4)]
    a = S.np.array(v, dtype=S.np.float64)
    n = clf.bitDepthToNormalized(a, depth)
    c = clf.normalizedToBitDepth(a, depth)
    S.true(len(n) == 4 and len(c) == 4, "length")
    for k in range(4):
        S.close(n[k], v[k] / SIZE[depth], "to normalised", scale=300.0 if depth in INTD else 1e5)
        S.close(c[k], v[k] * SIZE[depth], "to code values", scale=1e5 * SIZE[depth])
        S.close(a[k], v[k], "argument", scale=1e5)


for d in DEPTHS:
    SCENARIOS.add("arrays-" + d, arrays, depth=d)


def rescale(S, a):
    """A Range without limits is the conversion between its two depths."""
    b = S.choice("out", DEPTHS)
    v = S.reals("v", 4, -2.0 * SIZE[a], 2.0 * SIZE[a])
    node = S.clf.Range(a, b, "", "", S.choice("style", ("noClamp", "clamp", "")))
    out = run_node(S, node, [v], stride=4)[0]
    S.closev(out, [x / SIZE[a] * SIZE[b] for x in v], "code", scale=SIZE[b])
    back = S.clf.Range(b, a, "", "", "noClamp")
    S.closev(run_node(S, back, [out], stride=4)[0], v, "back", scale=SIZE[a])


for a in DEPTHS:
    SCENARIOS.add("rescale-" + a, rescale, a=a)


def kinds(S):
    """Integer and floating depths are told apart, and the size of a depth is its top code value."""
    m = S.mod("aces.clf.ProcessNode")
    for d in DEPTHS:
        S.eq(bool(m.bitDepthIsInteger(d)), d in INTD, "integer " + d)
        S.eq(bool(m.bitDepthIsFloatingPoint(d)), d not in INTD, "float " + d)
        S.close(m.bitDepthSize(d), SIZE[d], "size " + d)
    S.eq(sorted(S.clf.bitDepths.values()), sorted(DEPTHS), "depth names")
    v = S.real("v", -10.0, 10.0)
    S.close(m.bitDepthToNormalized(v, "16f"), v, "float unchanged")


SCENARIOS.add("kinds", kinds)


def ends(S):
    """The depths of a list are those of its first and last node, and setting them changes those nodes."""
    ds = [S.choice("d%d" % i, DEPTHS) for i in range(2)]
    n = S.choice("nodes", (1, 2, 3))
    nodes = [S.clf.Range("16f", "16f", "", "", "noClamp") for _ in range(n)]
    pl = plist(S, *nodes)
    pl.setInBitDepth(ds[0])
    pl.setOutBitDepth(ds[1])
    S.eq(pl.getInBitDepth(), ds[0], "in")
    S.eq(pl.getOutBitDepth(), ds[1], "out")
    v = S.real("v", -2.0 * SIZE[ds[0]], 2.0 * SIZE[ds[0]])
    out = list(pl.process(arr(S, [v]), stride=1))
    S.close(out[0], v / SIZE[ds[0]] * SIZE[ds[1]], "list", scale=SIZE[ds[1]])


SCENARIOS.add("ends", ends)


def sizes(S, depth, unit):
    """Very large and very small values, the infinite ones and NaN."""
    clf = S.clf
    v = unit * S.real("v", -8.0, 8.0)
    S.close(clf.bitDepthToNormalized(v, depth), v / SIZE[depth], "to normalised", scale=unit * 8.0 / SIZE[depth])
    S.close(clf.normalizedToBitDepth(v, depth), v * SIZE[depth], "to code values", scale=unit * 8.0 * SIZE[depth])
    for f in (float("inf"), float("-inf")):
        S.eq(float(clf.bitDepthToNormalized(f, depth)), f, "infinite")
        S.eq(float(clf.normalizedToBitDepth(f, depth)), f, "infinite")
    n = clf.bitDepthToNormalized(float("nan"), depth)
    S.true(n != n, "NaN")


for d in DEPTHS:
    for u in (1e-6, 0.0009765625, 1024.0, 1e6, 1e30):
        SCENARIOS.add("sizes-%s-%g" % (d, u), sizes, depth=d, unit=u)


def long(S, a, b, n, at):
    """Long arrays, whole and as pixels of a Range without limits."""
    v = [((k * 37) % 1021) / 512.0 * SIZE[a] - 0.25 * SIZE[a] for k in range(n)]
    for k in at:
        v[k] = S.real("v%d" % k, -2.0 * SIZE[a], 2.0 * SIZE[a])
    some = sorted(set(at) | set((0, 1, 255, 256, 257, n - 1)))
    x = S.np.array(v, dtype=S.np.float64)
    out = S.clf.bitDepthToNormalized(x, a)
    S.closev([out[k] for k in some], [v[k] / SIZE[a] for k in some], "to normalised", scale=2.0)
    out = S.clf.normalizedToBitDepth(x, b)
    S.closev([out[k] for k in some], [v[k] * SIZE[b] for k in some], "to code values", scale=2.0 * SIZE[a] * SIZE[b])
    out = run_node(S, S.clf.Range(a, b, "", "", "noClamp"), [v])[0]
    S.closev([out[k] for k in some], [v[k] / SIZE[a] * SIZE[b] for k in some], "code", scale=2.0 * SIZE[b])


for k, a in enumerate(DEPTHS):
    SCENARIOS.add("long-" + a, long, a=a, b=DEPTHS[(k * 5 + 2) % 6], n=1200, at=(1023, 1024, 1190))


def chains(S, ds):
    """Through one depth after another and back."""
    v = S.reals("v", 4, -2.0 * SIZE[ds[0]], 2.0 * SIZE[ds[0]])
    made = [S.clf.Range(a, b, "", "", ("noClamp", "clamp", "")[k % 3]) for k, (a, b) in enumerate(zip(ds, ds[1:]))]
    out = run_list(S, plist(S, *made), [v])[0]
    S.closev(out, [x / SIZE[ds[0]] * SIZE[ds[-1]] for x in v], "code", scale=SIZE[ds[-1]])


for k in range(6):
    SCENARIOS.add("chain-%d" % k, chains, ds=[DEPTHS[(k + q * (k + 1)) % 6] for q in range(6)])
    SCENARIOS.add("chain-long-%d" % k, chains, ds=[DEPTHS[(k + q * q) % 6] for q in range(14)])


def history(S, order):
    """What was converted before, in any order of depths, does not matter."""
    clf = S.clf
    x = S.real("x", -4.0, 4.0)
    for turn in range(2):
        for d in order:
            v = S.np.array([0.5 * SIZE[d], x * SIZE[d], 0.5], dtype=S.np.float64)
            S.close(clf.bitDepthToNormalized(x * SIZE[d], d), x, "value")
            S.close(clf.normalizedToBitDepth(x, d), x * SIZE[d], "code", scale=SIZE[d])
            S.closev(list(clf.bitDepthToNormalized(v, d)), [0.5, x, 0.5 / SIZE[d]], "array", scale=1.0)
            S.closev(list(clf.normalizedToBitDepth(v / SIZE[d], d)), [0.5 * SIZE[d], x * SIZE[d], 0.5], "codes", scale=SIZE[d])
            S.close(S.mod("aces.clf.ProcessNode").bitDepthSize(d), SIZE[d], "size", scale=SIZE[d])
            S.true(bool(S.mod("aces.clf.ProcessNode").bitDepthIsInteger(d)) == (d in INTD), "integer")


for k, order in enumerate((DEPTHS, DEPTHS[::-1], ("16f", "8i", "32f", "10i", "16i", "12i"), ("12i", "16f", "16i", "8i", "10i", "32f"), ("10i", "12i", "16i", "8i"), ("32f", "16i", "16f", "10i", "8i", "12i"))):
    SCENARIOS.add("history-%d" % k, history, order=order)
