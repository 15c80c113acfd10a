"""C04 Bypass"""
from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "a bypassed node of every kind as first, interior or last of a list or group, alone or next to another bypassed node; interior nodes between all 36 pairs of bit depths; pixels of 3 to 5 channels, " \
         "symbolic within twice the code range; bypass given as true, false, absent, in memory or in a document; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "lists in which neighbouring bit depths disagree; the first and last node of a list or group when its two depths differ (nothing is defined to adapt there); single-precision rounding"


def px_of(S, a, count=2, stride=4):
    return [[S.real("x%d_%d" % (p, c), -2.0 * a, 2.0 * a) for c in range(stride)] for p in range(count)]


def features(S, fn, value):
    old = S.clf.getFeatureCompatibility()
    try:
        S.clf.setFeatureCompatibility(value)
        return fn()
    finally:
        S.clf.setFeatureCompatibility(old)


def plain(S, i, o, gain):
    m = S.clf.Matrix(i, o, "id", "m")
    m.setMatrix([3, 4], [gain, 0.0, 0.0, 0.25, 0.0, gain, 0.0, 0.5, 0.125, 0.0, gain, 0.0])
    return m


def holder(S, nested, made):
    pl = S.clf.ProcessList()
    to = pl
    for _ in range(nested):
        g = S.clf.Group("16f", "16f", "g", "g")
        to.addProcess(g)
        to = g
    for n in made:
        to.addProcess(n)
    return pl


def scale(S, pix, a, b):
    return [[v * (b / a) for v in p] for p in pix]


def interior(S, kind, nested, stride, pairs, two=False):
    b, c = S.choice("depths", pairs)
    made = [plain(S, "16f", b, 0.5), nodes.make(S, kind, b, c)]
    made[1].setAttribute("bypass", True)
    d = c
    if two:
        d = S.choice("third", ("16f", "12i"))
        made.append(nodes.make(S, "cdl-Fwd", c, d))
        made[2].setAttribute("bypass", True)
    made.append(plain(S, d, "32f", 2.0))
    pix = px_of(S, 1.0, 2, stride)
    out = run_list(S, holder(S, nested, made), pix)
    mid = scale(S, run_node(S, plain(S, "16f", b, 0.5), pix), SIZE[b], SIZE[d])
    expect = run_node(S, plain(S, d, "32f", 2.0), mid)
    S.closev(flat(out), flat(expect), "result", scale=16.0 * max(SIZE[b], SIZE[d]))


ALLPAIRS = tuple((a, b) for a in DEPTHS for b in DEPTHS)
SOME = (("16f", "16f"), ("10i", "12i"), ("8i", "16f"), ("32f", "16i"))
for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind == "lut1d-half":
        continue
    st = max(nodes.channels(kind), 3 + idx % 3)
    SCENARIOS.add("interior-%s-list" % kind, interior, kind=kind, nested=0, stride=st, pairs=SOME)
    SCENARIOS.add("interior-%s-group" % kind, interior, kind=kind, nested=1, stride=st, pairs=SOME)
for n in (0, 1, 2):
    SCENARIOS.add("interior-all-depths-%d" % n, interior, kind="cdl-Fwd", nested=n, stride=4, pairs=ALLPAIRS)
    SCENARIOS.add("interior-two-%d" % n, interior, kind="lut1d-1", nested=n, stride=3, pairs=SOME, two=True)


def ends(S, kind, where, nested, value):
    """First, last or only node; value is the mark."""
    i, o = "16f", "16f"
    node = nodes.make(S, kind, i, o)
    if value != "absent":
        node.setAttribute("bypass", value)
    made = [plain(S, i, i, 0.5), plain(S, i, i, 2.0)]
    k = {"first": 0, "last": 2, "only": 0, "middle": 1}[where]
    if where == "only":
        made = []
    pix = [[S.real("x%d" % c, -0.5, 1.5) if c < (1 if kind.startswith("lut") else 2) else 0.25 * c for c in range(4)]]
    out = run_list(S, holder(S, nested, made[:k] + [node] + made[k:]), pix)
    ref = [plain(S, i, i, 0.5), plain(S, i, i, 2.0)] if made else []
    if value is not True:
        ref.insert(k, nodes.make(S, kind, i, o))
    expect = pix
    for n in ref:
        expect = run_node(S, n, expect)
    S.closev(flat(out), flat(expect), "result", scale=16.0)


for idx, kind in enumerate(sorted(nodes.KINDS)):
    if kind == "lut1d-half":
        continue
    for j, wh in enumerate(("first", "last", "only", "middle")):
        SCENARIOS.add("%s-%s-true" % (wh, kind), ends, kind=kind, where=wh, nested=(idx + j) % 3, value=True)
    SCENARIOS.add("false-%s" % kind, ends, kind=kind, where=("first", "last", "only", "middle")[idx % 4], nested=idx % 2, value=(False, None, "absent")[idx % 3])


def edges(S, kind, where, nested, two):
    """A bypassed first or last node of equal depths, the depths of the others differing."""
    a, b, c = S.choice("depths", (("10i", "16f", "16f"), ("16f", "12i", "8i"), ("8i", "10i", "16f"), ("32f", "16i", "32f")))
    e = a if where == "first" else c
    def marked():
        n = nodes.make(S, kind, e, e)
        n.setAttribute("bypass", True)
        return n
    rest = lambda: [plain(S, a, b, 0.5), plain(S, b, c, 2.0)]
    made = rest()
    for _ in range(1 + two):
        made.insert(0 if where == "first" else len(made), marked())
    pix = px_of(S, SIZE[a], 1, 4)
    expect = pix
    for n in rest():
        expect = run_node(S, n, expect)
    out = run_list(S, holder(S, nested, made), pix)
    S.closev(flat(out), flat(expect), "result", scale=16.0 * max(SIZE[a], SIZE[b], SIZE[c]))
    if nested:
        g = holder(S, nested, made)[0]
        S.closev(flat(run_node(S, g, pix)), flat(expect), "the group alone", scale=16.0 * max(SIZE[a], SIZE[b], SIZE[c]))


for idx, kind in enumerate(("range-noClamp-mM", "cdl-Fwd", "matrix3x4", "lut1d-3", "group")):
    for wh in ("first", "last"):
        for n in (0, 1, 2):
            SCENARIOS.add("edge-%s-%s-%d" % (wh, kind, n), edges, kind=kind, where=wh, nested=n, two=(idx + n) % 2)


def gate(S, feature, kind, nested, entry="list"):
    """Which feature sets honour the mark."""
    def go():
        node = nodes.make(S, kind, "16f", "16f")
        node.setAttribute("bypass", True)
        made = [plain(S, "16f", "16f", 0.5), node, plain(S, "16f", "16f", 2.0)]
        pix = [[S.real("x%d" % c, -0.5, 1.5) if c < 2 else 0.25 * c for c in range(4)]]
        h = holder(S, nested, made)
        out = run_list(S, h, pix) if entry == "list" else run_node(S, h[0], pix)
        ref = [plain(S, "16f", "16f", 0.5), plain(S, "16f", "16f", 2.0)]
        if not feature & 1:
            ref.insert(1, nodes.make(S, kind, "16f", "16f"))
        expect = pix
        for n in ref:
            expect = run_node(S, n, expect)
        S.closev(flat(out), flat(expect), "result", scale=16.0)
    features(S, go, feature)


for f in (0, 1, 2, 3, 0xf):
    for k in ("cdl-Fwd", "matrix3x3", "lut1d-3", "gamma-basicFwd"):
        for n in (0, 1, 2):
            SCENARIOS.add("features-%d-%s-%d" % (f, k, n), gate, feature=f, kind=k, nested=n)
    SCENARIOS.add("features-%d-group" % f, gate, feature=f, kind="cdl-Fwd", nested=1, entry="group")

XML = """<?xml version="1.0" encoding="UTF-8"?>
<ProcessList id="x" compCLFversion="1.2">%s</ProcessList>
"""
NODE = """<Matrix inBitDepth="16f" outBitDepth="16f" %s><Array dim="3 3 3">0.5 0 0 0 0.5 0 0 0 0.5</Array></Matrix>"""


def document(S, text, bypass, nested):
    """The mark as read from a document."""
    body = "<Range inBitDepth=\"16f\" outBitDepth=\"16f\"/>" + NODE % text + "<Range inBitDepth=\"16f\" outBitDepth=\"16f\"/>"
    for _ in range(nested):
        body = "<Group id=\"g\">%s</Group>" % body
    d = S.tmp()
    with open(d + "/a.clf", "w") as f:
        f.write(XML % body)
    pl = S.clf.ProcessList(d + "/a.clf")
    px = S.reals("x", 3, -2.0, 2.0)
    out = run_list(S, pl, [px])[0]
    S.closev(out, px if bypass else [0.5 * v for v in px], "result")


for k, (t, b) in enumerate((('bypass="true"', True), ('bypass="True"', True), ('bypass="false"', False), ('bypass="False"', False), ("", False))):
    for n in (0, 1, 2):
        SCENARIOS.add("document-%d-%d" % (k, n), document, text=t, bypass=b, nested=n)
