"""Helpers shared by the scenarios (Python 3.9 and 3.12)."""
from engine.scen import Registry        # noqa: F401

DEPTHS = ("8i", "10i", "12i", "16i", "16f", "32f")
SIZE = {"8i": 255.0, "10i": 1023.0, "12i": 4095.0, "16i": 65535.0, "16f": 1.0, "32f": 1.0}
INTD = ("8i", "10i", "12i", "16i")


def arr(S, values):
    """What a caller passes as pixels: a float32 array."""
    np = S.np
    return np.array(list(values), dtype=np.float32)


def accepted(S, make, pix):
    """The pixels that do not make the node fail on their own (not a number has no code or index)."""
    out = []
    for p in pix:
        try:
            run_node(S, make(), [p])
        except (ValueError, OverflowError):
            continue
        out.append(p)
    return out


def pixels(S, stride, count, lo=-2.0, hi=2.0, name="x"):
    return [S.reals("%s%d_" % (name, p), stride, lo, hi) for p in range(count)]


def flat(pix):
    return [v for p in pix for v in p]


def run_node(S, node, pix, stride=None, as_list=False):
    """node.process on a fresh array; returns a list of pixels."""
    n = len(pix[0])
    out = node.process(flat(pix) if as_list else arr(S, flat(pix)), stride=n if stride is None else stride)
    out = list(out)
    return [out[i * n:(i + 1) * n] for i in range(len(pix))]


def run_list(S, pl, pix, stride=None, as_list=False):
    n = len(pix[0])
    v = flat(pix)
    out = pl.process(v if as_list else arr(S, v), stride=n if stride is None else stride)
    out = list(out)
    return [out[i * n:(i + 1) * n] for i in range(len(pix))]


def plist(S, *nodes):
    pl = S.clf.ProcessList()
    for n in nodes:
        pl.addProcess(n)
    return pl


def with_features(S, sets, f):
    """f() while only the named feature sets are on."""
    old = S.clf.getFeatureCompatibility()
    bits = 0
    for n in sets:
        bits |= S.clf.featureSets[n]
    S.clf.setFeatureCompatibility(bits)
    try:
        return f()
    finally:
        S.clf.setFeatureCompatibility(old)


def features(S, kind, i, o, pix):
    """Which feature sets are on does not change what a node of the standard computes."""
    from props import nodes
    sets = S.choice("features", ((), ("Autodesk",), ("Duiker Research",), ("Autodesk", "Duiker Research")))
    px = [S.real("x%d" % c, -0.25 * SIZE[i], 1.5 * SIZE[i]) if c in pix else v * SIZE[i] for c, v in enumerate((0.375, 0.8125, 0.1875, 0.5))]
    want = run_node(S, nodes.make(S, kind, i, o), [px])
    got = with_features(S, sets, lambda: run_node(S, nodes.make(S, kind, i, o), [px]))
    S.samev(flat(got), flat(want), "node")
    listed = with_features(S, sets, lambda: run_list(S, plist(S, nodes.make(S, kind, i, o)), [px]))
    S.samev(flat(listed), flat(want), "list")


def add_features(scenarios, kinds, chans=(0, 2)):
    pairs = (("16f", "16f"), ("10i", "32f"), ("32f", "12i"), ("8i", "16i"))
    for k, kind in enumerate(kinds):
        i, o = pairs[k % 4]
        scenarios.add("features-" + kind, features, kind=kind, i=i, o=o, pix=chans)
