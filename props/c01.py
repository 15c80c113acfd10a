"""C01 Pixels are independent"""
from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "every node kind and style with fixed parameters, lists of two and three nodes; 1 to 3 pixels of 3 to 9 channels, 40 to 4200 pixels with one or two symbolic; symbolic pixel values within 1.5 times " \
         "the code range; in nodes that branch per channel (LUTs, logarithms, monitor curves) the symbolic pixel has two symbolic channels and the other pixels are fixed numbers, among them infinite, NaN and far out-of-range ones" \
         "; images whose first channels or pixels are equal or nearly so"
OUTSIDE = "pixels of fewer than three channels; NaN and infinite values in the symbolic pixel; more pixels and channels than stated; parameters other than those of props/nodes.py"

STEP = (0.0, 0.25, 0.4375, 1.0, -0.125, 0.75, 0.5625, 1.25, 0.125, 0.875, 0.3125)


def fixed(k, c, a):
    return a * STEP[(k * 7 + c * 3 + k * c) % len(STEP)]


def data(S, count, stride, where, chans, a):
    pix = []
    for k in range(count):
        pix.append([S.real("x%d_%d" % (k, c), -0.5 * a, 1.5 * a) if k in where and c in chans else fixed(k, c, a) for c in range(stride)])
    return pix


def indep(S, kind, i, o, stride, count, where, chans, entry="node", check=None):
    pix = data(S, count, stride, where, chans, SIZE[i])
    node = nodes.make(S, kind, i, o)
    if entry == "node":
        out = run_node(S, node, pix)
    else:
        out = run_list(S, plist(S, node), pix, as_list=(entry == "aslist"))
    fresh = nodes.make(S, kind, i, o)
    for k in (range(count) if check is None else check):
        if entry == "node":
            one = run_node(S, fresh, [pix[k]])[0]
        else:
            one = run_list(S, plist(S, fresh), [pix[k]], as_list=(entry == "aslist"))[0]
        S.samev(out[k], one, "pixel%d" % k)


def cheap(kind):
    return kind.startswith(("matrix", "range"))


def mid(kind):
    return kind.startswith(("gamma", "ec", "group", "cdl", "log"))


def allc(kind):
    """Symbolic channels for a node of this kind: the LUTs and logs fork on each."""
    return (0, 1, 2, 3, 4, 5) if cheap(kind) else (0, 1, 3) if mid(kind) else (0, 2)


DEPTHPAIRS = (("16f", "16f"), ("10i", "32f"), ("16f", "12i"), ("8i", "16i"), ("32f", "10i"))
for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind == "lut1d-half":
        continue
    lo = nodes.channels(kind)
    i, o = DEPTHPAIRS[idx % 5]
    big = 2 if kind.startswith("lut") else 1
    for stride in range(lo, 6):
        w = (0, 1, 2) if cheap(kind) else ((stride - lo) % 3,)
        SCENARIOS.add("%s-s%d" % (kind, stride), indep, kind=kind, i=i, o=o, stride=stride, count=3, where=w,
                      chans=allc(kind), conf={"weight": big})
    SCENARIOS.add("%s-list" % kind, indep, kind=kind, i=i, o=o, stride=lo + 1, count=2, where=(1,), chans=(1,) if kind.startswith("lut") else allc(kind), entry="list")
    SCENARIOS.add("%s-aslist" % kind, indep, kind=kind, i=i, o=o, stride=lo, count=2, where=(1,), chans=(2,), entry="aslist")
    n = 300 if cheap(kind) else 40
    SCENARIOS.add("%s-many" % kind, indep, kind=kind, i="16f", o="16f", stride=4, count=n, where=(n - 1,), chans=(1,), check=(0, n // 2, n - 2, n - 1))
    if not cheap(kind):
        for a, b, st in ((("16f", "16f", 6)), ("12i", "32f", 3), ("16i", "8i", 4)):
            SCENARIOS.add("%s-%s-%s-s%d-more" % (kind, a, b, st), indep, tier="thorough", kind=kind, i=a, o=b, stride=max(st, lo), count=3, where=(st % 3,), chans=(0, 1, 2) if not kind.startswith("lut3d") else (0, 1))


def chain(S, kinds, stride, count, where, chans):
    """A list of several nodes."""
    pix = data(S, count, stride, where, chans, 1.0)

    def build():
        return plist(S, *[nodes.make(S, k) for k in kinds])
    out = run_list(S, build(), pix)
    for k in range(count):
        S.samev(out[k], run_list(S, build(), [pix[k]])[0], "pixel%d" % k)


SCENARIOS.add("chain-range-matrix", chain, kinds=("range-clamp-mM", "matrix3x4"), stride=3, count=3, where=(0, 1, 2), chans=(0, 1, 2))
SCENARIOS.add("chain-cdl-lut", chain, kinds=("cdl-FwdNoClamp", "lut1d-3"), stride=4, count=3, where=(2,), chans=(1, 3))
SCENARIOS.add("chain-gamma-matrix-group", chain, kinds=("gamma-basicFwd", "matrix4x5", "group"), stride=5, count=2, where=(1,), chans=(0, 4))
SCENARIOS.add("chain-log-lut3d", chain, kinds=("log-antiLog10", "lut3d-tri"), stride=4, count=3, where=(0,), chans=(2,))
SCENARIOS.add("chain-lut3d-ec", chain, kinds=("lut3d-tet", "ec-linear"), stride=3, count=3, where=(1,), chans=(0,))


def repeat(S, kind, chans):
    """The same pixel twice gives the same, and what was processed before does not matter."""
    a = [S.real("a%d" % c, -0.5, 1.5) if c in chans else fixed(0, c, 1.0) for c in range(4)]
    b = [fixed(1, c, 1.0) for c in range(4)]
    node = nodes.make(S, kind)
    out = run_node(S, node, [a, b, a])
    S.samev(out[0], out[2], "same pixel")
    S.samev(run_node(S, node, [a])[0], out[0], "again")


for kind in sorted(nodes.KINDS):
    if kind != "lut1d-half":
        SCENARIOS.add("repeat-" + kind, repeat, kind=kind, chans=(1,) if kind.startswith("lut") else (0, 1, 3))


def shared(S, kind, i, o, sym, as_list=False, three=False):
    """Pixels that agree in all channels but one, or hold the same values in another order."""
    a = SIZE[i]
    A = [S.real("a%d" % c, -0.5 * a, 1.5 * a) if c in sym else fixed(0, c, a) for c in range(4)]
    pix = [A]
    for c in (3, 2, 1, 0):
        B = list(A)
        B[c] = fixed(2, c, a) if c < 3 else S.real("e%d" % c, -0.5 * a, 1.5 * a)
        pix.append(B)
    pix.append([A[1], A[0], A[2], A[3]])
    pix.append([A[2], A[1], A[0], A[3]])
    pix.append([A[0], A[0], A[0], A[3]])
    pix.append(list(A))
    if three:
        pix = [p[:3] for p in pix]
    out = run_node(S, nodes.make(S, kind, i, o), pix, as_list=as_list)
    for k, p in enumerate(pix):
        S.samev(out[k], run_node(S, nodes.make(S, kind, i, o), [p], as_list=as_list)[0], "pixel%d" % k)


for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind != "lut1d-half":
        i, o = DEPTHPAIRS[(idx + 2) % 5]
        s = (0, 1, 2, 3) if cheap(kind) else (1, 3)
        SCENARIOS.add("shared-" + kind, shared, kind=kind, i=i, o=o, sym=s)
        SCENARIOS.add("shared-%s-aslist" % kind, shared, kind=kind, i="16f", o="10i", sym=(0,), as_list=True)
        if nodes.channels(kind) == 3:
            SCENARIOS.add("shared-%s-three" % kind, shared, kind=kind, i=o, o=i, sym=(0, 1, 2) if cheap(kind) else (1,), three=True)


def near(S, kind, chan, i, o):
    """Pixels that hardly differ: each has its own result."""
    a = SIZE[i]
    A = [fixed(0, c, a) for c in range(4)]
    A[chan] = S.real("a", 0.3125 * a, 0.3128 * a)
    pix = [A]
    for k, d in enumerate((0.001, 0.00002)):
        B = list(A)
        B[chan] = A[chan] + a * S.real("d%d" % k, -d, d)
        pix.append(B)
    node = nodes.make(S, kind, i, o)
    out = run_node(S, node, pix)
    again = run_node(S, node, pix[::-1])[::-1]
    for k, p in enumerate(pix):
        want = run_node(S, nodes.make(S, kind, i, o), [p])[0]
        S.samev(out[k], want, "pixel%d" % k)
        S.samev(again[k], want, "reversed%d" % k)


for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind != "lut1d-half":
        i, o = DEPTHPAIRS[idx % 5]
        SCENARIOS.add("near-" + kind, near, kind=kind, chan=idx % 3, i=i, o=o)


def half(S, stride, columns, chan, lo, hi):
    """Half-domain LUTs of symbolic entries."""
    t = S.table("t", 65536 * columns, 0.0, 1.0)
    a = [fixed(0, c, 1.0) for c in range(stride)]
    b = [S.real("x", lo, hi) if c == chan else fixed(1, c, 1.0) for c in range(stride)]
    node = S.clf.LUT1D("16f", "16f", "id", "name", "linear", halfDomain=True)
    node.setArray(columns, t)
    out = run_node(S, node, [a, b, a])
    for k, p in enumerate((a, b, a)):
        S.samev(out[k], run_node(S, node, [p])[0], "pixel%d" % k)


SCENARIOS.add("half-s3", half, stride=3, columns=1, chan=0, lo=0.25, hi=0.45, conf={"weight": 9})
SCENARIOS.add("half-s4", half, stride=4, columns=3, chan=2, lo=-0.75, hi=-0.5, conf={"weight": 9})
SCENARIOS.add("half-s5", half, stride=5, columns=1, chan=4, lo=-10.0, hi=10.0)
SCENARIOS.add("half-s4-wide", half, tier="thorough", stride=4, columns=3, chan=1, lo=-70000.0, hi=70000.0)


def odd(S, kind, i, o, sym, extremes):
    """Pixels next to ones with channels far beyond the code range, infinite or not a number."""
    a = SIZE[i]
    pix = [[S.real("x%d" % c, -0.5 * a, 1.5 * a) if c in sym else fixed(0, c, a) for c in range(4)]]
    check = [0]
    for k, v in enumerate(extremes):
        pix += accepted(S, lambda: nodes.make(S, kind, i, o), [[v if c == k % 4 else fixed(k, c, a) for c in range(4)]])
        check.append(len(pix))
        pix.append([fixed(k + 1, c, a) for c in range(4)])
    pix += accepted(S, lambda: nodes.make(S, kind, i, o), [[v for v in extremes[:4]]])
    check.append(len(pix))
    pix.append(list(pix[0]))
    out = run_node(S, nodes.make(S, kind, i, o), pix)
    for k in check:
        S.samev(out[k], run_node(S, nodes.make(S, kind, i, o), [pix[k]])[0], "pixel%d" % k)


INF = float("inf")
for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind != "lut1d-half":
        i, o = DEPTHPAIRS[(idx + 1) % 5]
        s = (0, 1, 2, 3) if cheap(kind) else (0, 3) if mid(kind) else (1,)
        SCENARIOS.add("odd-" + kind, odd, kind=kind, i=i, o=o, sym=s, extremes=(INF, -INF, float("nan"), 2.0 ** 100, -2.0 ** 100))
        SCENARIOS.add("far-" + kind, odd, kind=kind, i=i, o=o, sym=s[:1], extremes=(70000.0, -70000.0, 2.0 ** 20, -3.0))


def long(S, kind, stride, count, at):
    """Many pixels, a few of them checked."""
    pix = [[fixed(k, c, 1.0) for c in range(stride)] for k in range(count)]
    for k in at:
        for c in ((0, 1, stride - 1) if cheap(kind) else (1,)):
            pix[k][c] = S.real("x%d_%d" % (k, c), -0.5, 1.5)
    out = run_list(S, plist(S, nodes.make(S, kind)), pix)
    S.eq(len(out), count, "pixels")
    for k in sorted(set(at + (0, 255, 256, 511, 512, 1000, 1023, 1024, 1025, count - 1))):
        S.samev(out[k], run_node(S, nodes.make(S, kind), [pix[k]])[0], "pixel%d" % k)
    # the other pixels repeat with the period of the table
    alone = {}
    for k in range(count):
        if k not in at:
            r = k % len(STEP)
            if r not in alone:
                alone[r] = run_node(S, nodes.make(S, kind), [pix[k]])[0]
            if any(x is not y and not same_float(x, y) for x, y in zip(out[k], alone[r])):
                S.samev(out[k], alone[r], "pixel%d" % k)


def same_float(x, y):
    try:
        return float(x) == float(y)
    except Exception:
        return False


for kind in sorted(nodes.KINDS):
    if kind != "lut1d-half":
        SCENARIOS.add("long-" + kind, long, kind=kind, stride=nodes.channels(kind), count=1100, at=(1026, 1099) if cheap(kind) else (1099,), conf={"weight": 3})
    if kind in ("matrix3x4", "range-clamp-mM", "range-noClamp-m", "cdl-FwdNoClamp", "gamma-moncurveFwd", "log-log2", "ec-linear", "lut1d-3", "lut3d-tet", "group"):
        SCENARIOS.add("vast-" + kind, long, kind=kind, stride=3, count=4200, at=(4099,), conf={"weight": 6})
    if cheap(kind) or mid(kind):
        SCENARIOS.add("wide-" + kind, indep, kind=kind, i="16f", o="10i", stride=9, count=3, where=(1,), chans=(0, 3, 8))
    elif kind != "lut1d-half":
        SCENARIOS.add("wide-" + kind, indep, kind=kind, i="10i", o="16f", stride=8, count=2, where=(1,), chans=(1, 7))
