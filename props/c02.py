"""C02 Extra channels"""
from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "every colour node kind and style with fixed parameters; pixels of 4 to 9 channels, one to three pixels or 1100; every depth pair for one node of every class; all extra channels symbolic in [-100000,100000] or NaN or infinite; " \
         "colour channels symbolic within 1.5 times the code range (two of them in nodes that branch per channel)"
OUTSIDE = "pixels of more than nine channels; Range nodes, which apply to every channel; four-channel matrices"
ASSUMPTIONS = []

KINDS = [k for k in sorted(nodes.KINDS) if not nodes.is_range(k) and not k.startswith("matrix4") and k != "lut1d-half"]


def extras(S, k, n, special):
    r = []
    for c in range(n):
        nm = "e%d_%d" % (k, c)
        r.append(S.anyfloat(nm, -1000.0, 1000.0) if special else 16.0 * S.real(nm, -6250.0, 6250.0))
    return r


def keep(S, kind, i, o, stride, count, entry, chans, special=False):
    a = SIZE[i]
    pix, ext = [], []
    for k in range(count):
        e = extras(S, k, stride - 3, special and k == count - 1)
        ext.append(e)
        pix.append([S.real("x%d_%d" % (k, c), -0.5 * a, 1.5 * a) if c in chans and k == 0 else a * (0.125 + 0.25 * c + 0.0625 * k) for c in range(3)] + e)
    node = nodes.make(S, kind, i, o)
    if entry == "node":
        out = run_node(S, node, pix)
    elif entry == "zero":
        out = run_node(S, node, pix, stride=0)
    elif entry == "aslist":
        out = run_node(S, node, pix, as_list=True)
    elif entry == "list-aslist":
        out = run_list(S, plist(S, node), pix, as_list=True)
    else:
        out = run_list(S, plist(S, node), pix)
    for k in range(count):
        # what comes out is an array of single precision
        (S.closev if "aslist" in entry else S.samev)(out[k][3:], ext[k], "extra%d" % k)
        base = nodes.make(S, kind, i, o)
        S.samev(out[k][:3], run_node(S, base, [pix[k][:3]], as_list=entry == "aslist")[0], "colour%d" % k)


PAIRS = (("16f", "16f"), ("10i", "32f"), ("16f", "12i"), ("8i", "16i"), ("32f", "10i"), ("12i", "8i"))
for idx, kind in enumerate(KINDS):
    ch = (0, 1, 2) if kind.startswith("matrix") else (0,) if kind.startswith("lut") else (1, 2)
    for stride in (4, 5, 6):
        i, o = PAIRS[(idx + stride) % 6]
        SCENARIOS.add("%s-s%d" % (kind, stride), keep, kind=kind, i=i, o=o, stride=stride, count=2, entry="node", chans=ch)
    i, o = PAIRS[(idx + 1) % 6]
    SCENARIOS.add("%s-one" % kind, keep, kind=kind, i=i, o=o, stride=4, count=1, entry="zero", chans=(2,))
    SCENARIOS.add("%s-list" % kind, keep, kind=kind, i=i, o=o, stride=5, count=3, entry="list", chans=(1,))
    i, o = PAIRS[(idx + 3) % 6]
    SCENARIOS.add("%s-aslist" % kind, keep, kind=kind, i=i, o=o, stride=4, count=2, entry="aslist", chans=(0,))
    i, o = PAIRS[(idx + 4) % 6]
    SCENARIOS.add("%s-list-aslist" % kind, keep, kind=kind, i=i, o=o, stride=5, count=2, entry="list-aslist", chans=(2,))
    SCENARIOS.add("%s-special" % kind, keep, kind=kind, i="16f", o="16f", stride=4, count=2, entry="node", chans=(1,), special=True)
    for i, o in PAIRS:
        SCENARIOS.add("%s-%s-%s-all" % (kind, i, o), keep, tier="thorough", kind=kind, i=i, o=o, stride=7, count=2, entry="node", chans=(0, 1, 2) if not kind.startswith("lut3d") else (0, 2))


def half(S, stride, columns):
    t = S.table("t", 65536 * columns, 0.0, 1.0)
    node = S.clf.LUT1D("10i", "16f", "id", "name", "linear", halfDomain=True)
    node.setArray(columns, t)
    e = extras(S, 0, stride - 3, True)
    out = run_node(S, node, [[0.5, 0.25, 0.75] + e])[0]
    S.samev(out[3:], e, "extra")


for s, c in ((4, 1), (5, 3)):
    SCENARIOS.add("half-s%d" % s, half, stride=s, columns=c)


def odd(S, kind, i, o, stride):
    """Extra channels next to infinite, NaN and far values, and of pixels far down."""
    a = SIZE[i]
    inf = float("inf")
    cols = [[inf, 0.25 * a, 0.5 * a], [0.25 * a, float("nan"), 0.5 * a], [0.0, 0.25 * a, -inf], [2.0 ** 100, -2.0 ** 100, 0.0], [0.0, 0.0, 0.0], [a, a, a], [-a, 0.5 * a, -0.5 * a]]
    cols = [p[:3] for p in accepted(S, lambda: nodes.make(S, kind, i, o), [c + [0.5] * (stride - 3) for c in cols])]
    ext = [extras(S, k, stride - 3, False) for k in range(len(cols))]
    out = run_node(S, nodes.make(S, kind, i, o), [c + e for c, e in zip(cols, ext)])
    for k in range(len(cols)):
        S.samev(out[k][3:], ext[k], "extra%d" % k)


def many(S, kind, stride, count, at):
    pix = [[((k * 7 + c * 5) % 64) / 32.0 for c in range(stride)] for k in range(count)]
    for k in at:
        for c in range(3, stride):
            pix[k][c] = 16.0 * S.real("e%d_%d" % (k, c), -6250.0, 6250.0)
    out = run_list(S, plist(S, nodes.make(S, kind)), pix)
    S.eq(len(out), count, "pixels")
    for k in sorted(set(at) | set((0, 1, 255, 256, 511, 512, count - 1))):
        S.samev(out[k][3:], pix[k][3:], "extra%d" % k)


for idx, kind in enumerate(KINDS):
    i, o = PAIRS[(idx + 2) % 6]
    for st in (4, 6):
        SCENARIOS.add("odd-%s-s%d" % (kind, st), odd, kind=kind, i=i, o=o, stride=st)
    SCENARIOS.add("%s-s9" % kind, keep, kind=kind, i=o, o=i, stride=9, count=2, entry="node", chans=(0,))
    SCENARIOS.add("many-%s" % kind, many, kind=kind, stride=4 + idx % 2, count=1100, at=(1, 700, 1099), conf={"weight": 3})
for i in DEPTHS:
    for o in DEPTHS:
        for kind in ("matrix3x4", "cdl-FwdNoClamp", "gamma-basicFwd", "log-antiLog10", "ec-linear", "lut1d-3", "lut3d-tet"):
            SCENARIOS.add("pair-%s-%s-%s" % (kind, i, o), keep, kind=kind, i=i, o=o, stride=4, count=2, entry="node", chans=())
