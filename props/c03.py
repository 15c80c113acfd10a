"""C03 Process lists compose"""
import itertools

from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "lists of 0 to 4 nodes of every kind, in every order of three, and of 12 to 40 nodes; values far outside the code range; one to three pixels of 3 to 5 channels, symbolic within 1.5 times the code range (two symbolic channels where LUTs are involved); " \
         "pixel data as list, tuple, float32 or float64 array; repeated calls"
OUTSIDE = "single-precision rounding; NaN and infinite inputs; longer lists"

CHAINS = [("matrix3x3", "range-noClamp-mM"), ("range-clamp-mM", "matrix3x4"), ("cdl-FwdNoClamp", "matrix3x3"), ("gamma-basicFwd", "range-clamp-m"),
          ("log-antiLog10", "matrix3x4"), ("ec-linear", "range-noClamp-M"), ("lut1d-1", "matrix3x3"), ("matrix3x4", "lut1d-3"), ("lut3d-tri", "cdl-Fwd"), ("matrix3x3", "lut3d-tet"), ("group", "matrix3x4"),
          ("matrix3x3", "group-nested"), ("gamma-moncurveRev", "log-log10"), ("lut1d-3-maps", "range-clamp-mM"), ("range-default-mM", "lut3d-tet-maps"),
          ("cdl-Rev", "gamma-moncurveFwd"), ("matrix4x5", "matrix4x4"), ("log-linToLog", "ec-log"), ("matrix3x3", "matrix3x4", "range-noClamp-mM", "matrix4x5")]


def chans(kinds):
    return (0,) if any(k.startswith(("lut", "log", "gamma-m")) for k in kinds) else (0, 2)


def pix_of(S, stride, count, ch, a=1.0):
    return [[S.real("x%d_%d" % (p, c), -0.5 * a, 1.5 * a) if c in ch and p == 0 else a * (0.125 * p + 0.1875 * c) for c in range(stride)] for p in range(count)]


def seq(S, list_of_nodes, pix):
    for n in list_of_nodes:
        pix = run_node(S, n, pix)
    return pix


def compose(S, kinds, stride, count, given):
    pix = pix_of(S, stride, count, chans(kinds))
    pl = plist(S, *[nodes.make(S, k) for k in kinds])
    v = flat(pix)
    if given == "array":
        v = arr(S, v)
    elif given == "double":
        v = S.np.array(v, dtype=S.np.float64)
    elif given == "tuple":
        v = tuple(v)
    before = list(v)
    out = list(pl.process(v, stride=stride))
    S.samev(list(v), before, "input")
    S.eq(len(out), stride * count, "length")
    expect = seq(S, [nodes.make(S, k) for k in kinds], pix)
    if given in ("array", "list"):
        S.samev(out, flat(expect), "result")
    else:
        S.closev(out, flat(expect), "result", scale=4.0)
    S.samev(list(pl.process(v, stride=stride)), out, "again")
    S.samev(list(v), before, "input again")


for k, ch in enumerate(CHAINS):
    lo = max(nodes.channels(x) for x in ch)
    for st, g in ((lo, "array"), (lo + 1, "list")):
        SCENARIOS.add("compose-%s-s%d-%s" % ("+".join(ch), st, g), compose, kinds=ch, stride=st, count=2, given=g, conf={"weight": 2})
    SCENARIOS.add("compose-%s-%s" % ("+".join(ch), ("double", "tuple")[k % 2]), compose, kinds=ch, stride=lo, count=1, given=("double", "tuple")[k % 2])


def order(S, kinds):
    perm = S.choice("perm", tuple(itertools.permutations(range(len(kinds)))))
    made = [nodes.make(S, k) for k in kinds]
    pl = plist(S, *[made[p] for p in perm])
    pix = pix_of(S, 3, 2, chans(kinds))
    out = run_list(S, pl, pix)
    S.samev(flat(out), flat(seq(S, [nodes.make(S, kinds[p]) for p in perm], pix)), "result")
    S.eq(len(pl), len(kinds), "length")
    for q, n in enumerate(pl):
        S.true(n is made[perm[q]], "iteration")
        S.true(pl[q] is made[perm[q]], "index")
        S.true(pl.getProcesses()[q] is made[perm[q]], "processes")
    S.true(pl[-1] is made[perm[-1]], "last")


SCENARIOS.add("order-matrix-range-cdl", order, kinds=("matrix3x4", "range-clamp-mM", "cdl-FwdNoClamp"))
SCENARIOS.add("order-gamma-ec-matrix", order, kinds=("gamma-basicFwd", "ec-linear", "matrix3x3"))
SCENARIOS.add("order-lut-range-matrix", order, kinds=("lut1d-1", "range-noClamp-mM", "matrix3x3"))
SCENARIOS.add("order-group-matrix-log", order, kinds=("group", "matrix3x3", "log-antiLog2"))


def oracle(S):
    """Against the formulas, through a change of bit depths."""
    m = S.clf.Matrix("10i", "12i", "", "m")
    m.setMatrix([3, 4], [1.0, 0.5, 0.0, 16.0, 0.0, 2.0, 0.0, 0.0, 0.25, 0.0, 1.0, -8.0])
    r = S.clf.Range("12i", "16f", "", "r", "noClamp")
    r.setMinInValue(0.0)
    r.setMinOutValue(0.25)
    r.setMaxInValue(4095.0)
    r.setMaxOutValue(0.75)
    px = S.reals("x", 3, -200.0, 1200.0)
    out = run_list(S, plist(S, m, r), [px])[0]
    y = [px[0] + 0.5 * px[1] + 16.0, 2.0 * px[1], 0.25 * px[0] + px[2] - 8.0]
    S.closev(out, [0.25 + 0.5 * v / 4095.0 for v in y], "result", scale=4.0)


SCENARIOS.add("oracle", oracle)


def names(S):
    """Queries by name."""
    nm = [S.choice("name%d" % k, ("a", "b", "c")) for k in range(3)]
    pl = S.clf.ProcessList()
    made = []
    for k in range(3):
        n = S.clf.Range("16f", "16f", "id%d" % k, nm[k])
        made.append(n)
        pl.addProcess(n)
    g = S.clf.Group("16f", "16f", "g", "g")
    for n in made:
        g.addProcess(n)
    for q in ("a", "b", "c", "d"):
        first = None
        for k in range(3):
            if nm[k] == q and first is None:
                first = made[k]
        S.true(pl.getProcess(q) is first, "list " + q)
        S.true(g.getProcess(q) is first, "group " + q)
    for k in range(3):
        S.true(pl[k] is made[k], "index")
        S.true(g.getProcesses()[k] is made[k], "group order")


SCENARIOS.add("names", names)


def empty(S, given):
    pl = S.clf.ProcessList()
    px = S.reals("x", 4, -1000.0, 1000.0)
    v = arr(S, px) if given == "array" else list(px)
    S.samev(list(pl.process(v, stride=4)), px, "result")
    S.eq(len(pl), 0, "length")
    S.true(pl.getInBitDepth() is None and pl.getOutBitDepth() is None, "depths")
    S.true(pl.getProcess("x") is None, "by name")


for g in ("array", "list"):
    SCENARIOS.add("empty-" + g, empty, given=g)


def depths(S):
    """The bit depths of a list are those of its ends, and setting them changes only those."""
    d = [S.choice("d%d" % k, DEPTHS) for k in range(2)]
    ns = [S.clf.Range("8i", "10i", "", "a"), S.clf.Range("10i", "12i", "", "b"), S.clf.Range("12i", "16i", "", "c")]
    pl = plist(S, *ns)
    S.eq(pl.getInBitDepth(), "8i", "in")
    S.eq(pl.getOutBitDepth(), "16i", "out")
    pl.setInBitDepth(d[0])
    pl.setOutBitDepth(d[1])
    S.eq([pl.getInBitDepth(), pl.getOutBitDepth()], d, "set")
    S.eq([(n.getInBitDepth(), n.getOutBitDepth()) for n in ns], [(d[0], "10i"), ("10i", "12i"), ("12i", d[1])], "nodes")


SCENARIOS.add("depths", depths)


def noop(S):
    """The base node passes pixels through."""
    n = S.clf.ProcessNode("Range")
    px = S.reals("x", 4, -10.0, 10.0)
    S.samev(list(n.process(arr(S, px), stride=4)), px, "base node")
    S.samev(run_list(S, plist(S, n, nodes.make(S, "matrix4x4")), [px])[0], run_node(S, nodes.make(S, "matrix4x4"), [px])[0], "in a list")


SCENARIOS.add("base-node", noop)


def verbose(S, kinds):
    """Reporting while processing changes nothing."""
    pix = pix_of(S, 3, 1, ())
    a = plist(S, *[nodes.make(S, k) for k in kinds]).process(arr(S, flat(pix)), stride=3, verbose=True)
    S.samev(list(a), list(plist(S, *[nodes.make(S, k) for k in kinds]).process(arr(S, flat(pix)), stride=3)), "result")


for ch in (("matrix3x3", "lut1d-1"), ("group", "range-clamp-mM"), ("lut3d-tri", "gamma-basicFwd"), ("ec-linear", "log-log10", "cdl-Fwd")):
    SCENARIOS.add("verbose-" + "+".join(ch), verbose, kinds=ch)


def interleaved(S):
    """Two lists sharing nothing do not affect each other, and shared nodes hold no state."""
    shared = nodes.make(S, "cdl-FwdNoClamp")
    p1 = plist(S, nodes.make(S, "matrix3x3"), shared)
    p2 = plist(S, shared, nodes.make(S, "matrix3x4"))
    x, y = [S.reals("x", 3, -0.5, 1.5)], [S.reals("y", 3, -0.5, 1.5)]
    a = run_list(S, p1, x)[0]
    b = run_list(S, p2, y)[0]
    S.samev(run_list(S, p1, x)[0], a, "first")
    S.samev(run_list(S, p2, y)[0], b, "second")
    S.samev(a, run_node(S, nodes.make(S, "cdl-FwdNoClamp"), run_node(S, nodes.make(S, "matrix3x3"), [x[0]]))[0], "value")


SCENARIOS.add("interleaved", interleaved)


def lengthy(S, kinds, count, stride, sym):
    """Long lists."""
    pix = pix_of(S, stride, 2, ())
    for c in sym:
        pix[1][c] = S.real("x%d" % c, -0.5, 1.5)
    made = [nodes.make(S, kinds[k % len(kinds)]) for k in range(count)]
    pl = plist(S, *made)
    S.eq(len(pl), count, "length")
    for q, n in enumerate(pl):
        S.true(n is made[q], "iteration")
    out = run_list(S, pl, pix)
    S.samev(flat(out), flat(seq(S, [nodes.make(S, kinds[k % len(kinds)]) for k in range(count)], pix)), "result")
    S.samev(flat(run_list(S, pl, pix)), flat(out), "again")


for count in (5, 8, 12, 20, 40):
    SCENARIOS.add("long-matrix-%d" % count, lengthy, kinds=("matrix3x4", "matrix3x3"), count=count, stride=3, sym=(0, 2))
    SCENARIOS.add("long-range-%d" % count, lengthy, kinds=("range-noClamp-mM", "matrix3x3", "range-clamp-mM"), count=count, stride=4, sym=(0,))
for count in (6, 12):
    SCENARIOS.add("long-mixed-%d" % count, lengthy, kinds=("matrix3x3", "lut1d-1", "range-clamp-mM", "group"), count=count, stride=3, sym=(0,), conf={"weight": 3})
    SCENARIOS.add("long-luts-%d" % count, lengthy, kinds=("lut3d-tet", "matrix3x3", "lut1d-3"), count=count, stride=3, sym=(1,), conf={"weight": 3})


def far(S, kinds, lo, hi):
    pix = [[S.real("x", lo, hi), 0.5, 70000.0, 1.0], [-3.0, 2.0 ** 30, 0.25, 7.0]]
    out = run_list(S, plist(S, *[nodes.make(S, k) for k in kinds]), pix)
    S.samev(flat(out), flat(seq(S, [nodes.make(S, k) for k in kinds], pix)), "result")


for ch in CHAINS:
    if not any(k.startswith(("log", "ec")) for k in ch):
        SCENARIOS.add("far-" + "+".join(ch), far, kinds=ch, lo=-1000.0, hi=70000.0)


def many(S, kinds, count, at):
    """Many pixels."""
    pix = [[((k * 7 + c * 5) % 64) / 48.0 for c in range(3)] for k in range(count)]
    for k in at:
        pix[k][k % 3] = S.real("x%d" % k, -0.5, 1.5)
    out = run_list(S, plist(S, *[nodes.make(S, k) for k in kinds]), pix)
    S.eq(len(out), count, "pixels")
    some = sorted(set(at + (0, 1, 255, 256, 511, 512, 1023, 1024, count - 1)))
    S.samev(flat([out[k] for k in some]), flat(seq(S, [nodes.make(S, k) for k in kinds], [pix[k] for k in some])), "result")


for ch in CHAINS:
    if max(nodes.channels(k) for k in ch) == 3:
        SCENARIOS.add("many-" + "+".join(ch), many, kinds=ch, count=1100, at=(1050,), conf={"weight": 4})


def twice(S, kind, other):
    """The same node twice in a list is applied twice, and removing nothing else."""
    n, m = nodes.make(S, kind), nodes.make(S, other)
    pix = pix_of(S, 4, 2, (3,) if kind == "group-nested" else (0,) if kind.startswith("cdl") else chans((kind, other)))
    out = run_list(S, plist(S, n, m, n, n), pix)
    S.samev(flat(out), flat(seq(S, [nodes.make(S, k) for k in (kind, other, kind, kind)], pix)), "result")


for kind in sorted(nodes.KINDS):
    if kind != "lut1d-half":
        SCENARIOS.add("twice-" + kind, twice, kind=kind, other="matrix3x3")
        SCENARIOS.add("twice-depths-" + kind, twice, kind=kind, other="range-noClamp-mM")


def between(S, kind, mid, i, o):
    """Whatever the bit depths between the nodes, each node is applied to the result of the one before."""
    pix = pix_of(S, 3, 2, chans((kind,)), SIZE[i])

    def build():
        return [nodes.make(S, kind, i, mid), nodes.make(S, "matrix3x4", mid, o), nodes.make(S, "range-clamp-mM", o, "16f")]
    S.samev(flat(run_list(S, plist(S, *build()), pix)), flat(seq(S, build(), pix)), "result")


for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind != "lut1d-half" and nodes.channels(kind) == 3:
        for q in range(3):
            i, mid, o = DEPTHS[(idx + q * 2) % 6], DEPTHS[(idx * 2 + q + 1) % 6], DEPTHS[(idx + q * 3 + 4) % 6]
            SCENARIOS.add("between-%s-%s-%s-%s" % (kind, i, mid, o), between, kind=kind, mid=mid, i=i, o=o)
