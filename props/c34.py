"""C34 Settings take effect whenever they are made"""
import contextlib
import io
import os

from props import nodes
from props.common import *

SCENARIOS = Registry()
BOUNDS = "nodes of every kind that processed, were written, printed or read before their settings changed; new settings symbolic (matrix, range, CDL, log, exposure and LUT entries) or a second set of numbers; " \
         "all depth pairs and styles; up to two changes; one or two pixels of three or four channels, symbolic within the code range or 1.5 times it"
OUTSIDE = "lists changed in place by the caller after they were passed to a setter; attributes set to undefined styles"


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def numbers(S, sym, name, count, lo, hi, seed):
    """Settings: symbolic or fixed."""
    if sym:
        return S.reals(name, count, lo, hi)
    return [lo + (hi - lo) * (((k + seed) * 5 + seed) % 7 + 0.5) / 7.0 for k in range(count)]


# kind: (fewest channels, maker, setter of (S, node, out depth, symbolic?, seed))
def mk(cls, *a):
    return lambda S, i, o: getattr(S.clf, cls)(i, o, "id", "name", *a)


def set_matrix(S, n, i, o, sym, seed):
    n.setMatrix([3, 4], numbers(S, sym, "m", 12, -2.0, 2.0, seed))


def set_matrix4(S, n, i, o, sym, seed):
    n.setMatrix([4, 4] if seed % 2 else [3, 3], numbers(S, sym, "m", 16 if seed % 2 else 9, -2.0, 2.0, seed))


def set_range(S, n, i, o, sym, seed):
    v = numbers(S, sym, "r", 2, 0.0, 0.5, seed)
    n.setMinInValue(SIZE[i] * 0.125 * (v[0] if not sym else v[0]))
    n.setMaxInValue(SIZE[i] * 0.875)
    n.setMinOutValue(SIZE[o] * v[1])
    n.setMaxOutValue(SIZE[o] * (0.75 if seed % 2 else 1.0))


def set_cdl(S, n, i, o, sym, seed):
    v = numbers(S, sym, "c", 4, 0.25, 1.5, seed)
    n.setSlope(v[0], 0.75, 1.25 - 0.0625 * seed)
    n.setOffset(0.125, v[1] - 0.25, -0.0625 * seed)
    n.setPower(*((1.0, 2.0, 1.5), (2.0, 1.0, 1.25), (1.25, 1.0, 2.0))[seed % 3])
    n.setSaturation(v[2])


def set_gamma(S, n, i, o, sym, seed):
    for k, c in enumerate("RGB"):
        n.setGamma((2.0, 2.4, 1.5, 3.0, 2.2)[(k + 2 * seed) % 5], (0.055, 0.099, 0.16)[(k + seed) % 3], c)


def set_gamma1(S, n, i, o, sym, seed):
    n.setGamma((2.0, 2.4, 1.5)[seed % 3], (0.055, 0.099, 0.16)[seed % 3])


def set_log(S, n, i, o, sym, seed):
    for k, c in enumerate("RGB"):
        n.setLogParams(0.6, 685.0 + 5.0 * k + 10.0 * seed, 95.0 - 4.0 * k + 3.0 * seed, 1.0 + 0.125 * seed, 0.0, c)


def set_ec(S, n, i, o, sym, seed):
    n.setExposureContrastPivot((0.5, -0.5, 1.0)[seed % 3], (1.5, 1.0, 1.25)[seed % 3], numbers(S, sym, "p", 1, 0.125, 0.5, seed)[0])


def set_lut1d(S, n, i, o, sym, seed):
    size, cols = ((3, 1), (4, 3), (5, 1))[seed % 3]
    n.setArray(cols, [SIZE[o] * v for v in numbers(S, sym, "t", size * cols, 0.0, 1.0, seed)])


def set_half(S, n, i, o, sym, seed):
    n.setArray(1, [((k * (37 + 6 * seed)) % 256) / 256.0 * SIZE[o] for k in range(65536)])


def set_lut3d(S, n, i, o, sym, seed):
    sizes = ((2, 2, 2), (2, 3, 2), (3, 2, 2))[seed % 3]
    total = sizes[0] * sizes[1] * sizes[2] * 3
    n.setArray(list(sizes), [SIZE[o] * v for v in numbers(S, sym, "t", total, 0.0, 1.0, seed)])


def set_mapped1d(S, n, i, o, sym, seed):
    size = 3 + 2 * (seed % 3)
    n.setArray(1, [SIZE[o] * v for v in (0.0, 0.125, 0.5, 0.875, 1.0, 0.625, 0.25)[:size]])
    m = 0.25 + 0.125 * seed
    mid = [[0.0, SIZE[i] * m, SIZE[i]], [0.0, 1.0, size - 1.0]]
    if seed % 2:
        n.setIndexMaps(mid, [[0.0, SIZE[i]], [0.0, size - 1.0]], [[0.0, SIZE[i]], [size - 1.0, 0.0]])
    else:
        n.setIndexMaps(mid)


def set_mapped3d(S, n, i, o, sym, seed):
    sizes = ([3, 2, 2], [2, 3, 2], [3, 2, 3])[seed % 3]
    n.setArray(list(sizes), [SIZE[o] * v for v in ((0.0, 0.125, 0.5, 0.875, 1.0, 0.25, 0.0, 0.75, 0.625) * 6)[:3 * sizes[0] * sizes[1] * sizes[2]]])
    mid = [[0.0, SIZE[i] * (0.25 + 0.125 * seed), SIZE[i]], [0.0, 1.0, 2.0]]
    if seed % 2:
        n.setIndexMaps(mid, [[0.0, SIZE[i]], [0.0, 1.0]], [[0.0, SIZE[i]], [1.0, 0.0]])
    else:
        n.setIndexMaps(mid)


def set_group(S, n, i, o, sym, seed):
    m = S.clf.Matrix("16f", "16f", "m%d" % seed, "m")
    set_matrix(S, m, "16f", "16f", sym, seed)
    n.addProcess(m)


KINDS = {
    "matrix": (mk("Matrix"), set_matrix, 3),
    "matrix-sizes": (mk("Matrix"), set_matrix4, 4),
    "range": (mk("Range", "clamp"), set_range, 3),
    "range-noClamp": (mk("Range", "noClamp"), set_range, 3),
    "cdl-Fwd": (mk("ASCCDL", "Fwd"), set_cdl, 3),
    "cdl-FwdNoClamp": (mk("ASCCDL", "FwdNoClamp"), set_cdl, 4),
    "cdl-Rev": (mk("ASCCDL", "Rev"), set_cdl, 3),
    "cdl-RevNoClamp": (mk("ASCCDL", "RevNoClamp"), set_cdl, 3),
    "correction": (mk("ColorCorrection"), set_cdl, 3),
    "lut1d": (mk("LUT1D", "linear"), set_lut1d, 3),
    "lut1d-half": (mk("LUT1D", "linear", True), set_half, 3),
    "lut1d-maps": (mk("LUT1D", "linear"), set_mapped1d, 3),
    "lut3d-tri": (mk("LUT3D", "trilinear"), set_lut3d, 3),
    "lut3d-tet": (mk("LUT3D", "tetrahedral"), set_lut3d, 4),
    "lut3d-maps": (mk("LUT3D", "trilinear"), set_mapped3d, 3),
    "ec-linear": (mk("ExposureContrast", "linear"), set_ec, 3),
    "ec-video": (mk("ExposureContrast", "video"), set_ec, 4),
    "ec-log": (mk("ExposureContrast", "log"), set_ec, 3),
}
for st in ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"):
    KINDS["gamma-" + st] = (mk("Gamma", st), set_gamma, 3)
KINDS["gamma-moncurveFwd-all"] = (mk("Gamma", "moncurveFwd"), set_gamma1, 4)
for st in ("linToLog", "logToLin"):
    KINDS["log-" + st] = (mk("Log", st), set_log, 3)


def built(S, kind, i, o, sym, seed, cls=None):
    n = KINDS[kind][0](S, i, o)
    KINDS[kind][1](S, n, i, o, sym, seed)
    return n


def heavy(kind):
    return kind.startswith(("lut", "log", "gamma-m"))


def pix(S, kind, i, name="x", lo=-0.25, hi=1.25):
    if "maps" in kind:
        # the same value in every channel
        return [[S.real(name, lo * SIZE[i], hi * SIZE[i])] * 3, [SIZE[i] * 0.375] * 3]
    if kind == "lut1d-half":
        lo, hi = 0.4375, 0.4392
    ch = (1,) if heavy(kind) else (0, 2)
    return [[S.real("%s%d" % (name, c), lo * SIZE[i], hi * SIZE[i]) if c in ch else SIZE[i] * (0.25, 0.6875, 0.4375, 0.875)[c] for c in range(KINDS[kind][2])]]


def fixedpix(kind, i):
    if "maps" in kind:
        return [[SIZE[i] * 0.375] * 3, [SIZE[i] * v for v in (0.375, 0.8125, 0.1875)]]
    return [[SIZE[i] * v for v in (0.375, 0.8125, 0.1875, 0.5)[:KINDS[kind][2]]]]


def use(S, node, kind, i, how):
    """Something done before the settings change."""
    if how == "process":
        run_node(S, node, fixedpix(kind, i))
    elif how == "process-list":
        run_list(S, plist(S, node), fixedpix(kind, i))
    elif how == "print":
        with quiet():
            node.printInfo()
    elif how == "write":
        pl = plist(S, node)
        pl.writeFile(os.path.join(S.tmp(), "used.clf"))


def changed(S, kind, i, o, how):
    """New settings made after use are as good as settings of a new node."""
    old = built(S, kind, i, o, False, 1)
    use(S, old, kind, i, how)
    KINDS[kind][1](S, old, i, o, True, 2)
    x = pix(S, kind, i)
    new = built(S, kind, i, o, True, 2)
    S.samev(flat(run_node(S, old, x)), flat(run_node(S, new, x)), "result")
    if how == "process":
        KINDS[kind][1](S, old, i, o, False, 3)
        S.samev(flat(run_node(S, old, x)), flat(run_node(S, built(S, kind, i, o, False, 3), x)), "second change")


HOW = ("process", "process-list", "print", "write")
PAIRS = (("16f", "16f"), ("10i", "16f"), ("16f", "12i"), ("8i", "16i"))
for k, kind in enumerate(sorted(KINDS)):
    i, o = PAIRS[k % 4]
    if kind == "correction":
        i = o = "16f"
    SCENARIOS.add("changed-" + kind, changed, kind=kind, i=i, o=o, how="process", conf={"weight": 3})
    if kind != "lut1d-half":
        SCENARIOS.add("changed-%s-%s" % (kind, HOW[1 + k % 3]), changed, kind=kind, i=i, o=o, how=HOW[1 + k % 3])
        for h in HOW[1:]:
            if h != HOW[1 + k % 3]:
                SCENARIOS.add("changed-%s-%s" % (kind, h), changed, tier="thorough", kind=kind, i=o, o=i, how=h)


def depths(S, kind):
    """Bit depths changed after use."""
    a, b = ("16f", "16f") if kind in ("lut1d-maps", "lut3d-maps") else S.choice("before", (("16f", "16f"), ("8i", "16i")))
    i, o = (a, S.choice("o", ("10i", "16i"))) if kind in ("lut1d-maps", "lut3d-maps") else S.choice("after", (("16f", "16f"), ("10i", "12i"), ("16i", "32f")))
    node = built(S, kind, a, b, False, 1)
    use(S, node, kind, a, "process")
    node.setInBitDepth(i)
    node.setOutBitDepth(o)
    S.eq([node.getInBitDepth(), node.getOutBitDepth()], [i, o], "depths")
    new = KINDS[kind][0](S, i, o)
    KINDS[kind][1](S, new, a, b, False, 1)
    x = pix(S, kind, i)
    S.samev(flat(run_node(S, node, x)), flat(run_node(S, new, x)), "result")


for kind in sorted(KINDS):
    if kind not in ("correction", "lut1d-half"):
        SCENARIOS.add("depths-" + kind, depths, kind=kind)

STYLES = {"range": ("clamp", "noClamp"), "cdl-Fwd": ("Fwd", "Rev", "FwdNoClamp", "RevNoClamp"), "ec-linear": ("linear", "video", "log"),
          "gamma-basicFwd": ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"), "log-linToLog": ("linToLog", "logToLin", "log10", "log2", "antiLog10", "antiLog2"),
          "lut3d-tri": ("trilinear", "tetrahedral")}


def styles(S, kind):
    """Styles changed after use, and back."""
    first, second = [S.choice(n, STYLES[kind]) for n in ("first", "second")]
    key = "interpolation" if kind.startswith("lut") else "style"
    node = built(S, kind, "16f", "16f", False, 1)
    node.setAttribute(key, first)
    use(S, node, kind, "16f", "process")
    node.setAttribute(key, second)
    S.eq(node.getAttribute(key), second, "style")
    new = built(S, kind, "16f", "16f", False, 1)
    new.setAttribute(key, second)
    x = [[S.real("x0", 0.0625, 1.0), 0.375, 0.75]]
    S.samev(flat(run_node(S, node, x)), flat(run_node(S, new, x)), "result")


for kind in sorted(STYLES):
    SCENARIOS.add("styles-" + kind, styles, kind=kind)


EXTREMES = {
    "cdl": (lambda S, n, k: (n.setSlope(*((0.125, 0.5, 4.0), (2.0, 1.0, 0.0625), (0.75, 3.0, 1.0))[k]), n.setOffset(*((0.0, -2.0, 1.0), (0.5, 0.0, -0.5), (1.0, 0.25, 0.0))[k]),
                             n.setPower(*((0.25, 1.0, 3.0), (4.0, 0.125, 1.0), (1.0, 2.0, 0.5))[k]), n.setSaturation((0.25, 2.0, 1.0)[k]))),
    "gamma": (lambda S, n, k: [n.setGamma((1.25, 2.0, 4.0)[(c + k) % 3], (0.0625, 0.25, 0.5)[(c + k) % 3], "RGB"[c]) for c in range(3)]),
    "log": (lambda S, n, k: [n.setLogParams((0.25, 1.0, 2.0)[(c + k) % 3], (1023.0, 500.0, 900.0)[(c + k) % 3], (0.0, 64.0, 200.0)[c], (0.5, 1.0, 2.0)[(c + k) % 3], (-0.25, 0.0, 0.25)[c], "RGB"[c]) for c in range(3)]),
    "ec": (lambda S, n, k: n.setExposureContrastPivot((-3.0, 0.0, 3.0)[k], (0.25, 1.0, 3.0)[k], (0.01, 1.0, 0.5)[k])),
}


def processed(S, kind, k):
    """Processing in one style leaves the settings for another style alone."""
    first, second = [S.choice(n, STYLES[kind]) for n in ("first", "second")]
    node, new = KINDS[kind][0](S, "16f", "16f"), KINDS[kind][0](S, "16f", "16f")
    for n in (node, new):
        EXTREMES[kind[:kind.index("-")]](S, n, k)
    node.setAttribute("style", first)
    run_node(S, node, [[0.375, 0.75, 0.25], [0.875, 0.0625, 0.5]])
    for n in (node, new):
        n.setAttribute("style", second)
    x = [[S.real("x", 0.0625, 1.0)] * 3]
    S.samev(flat(run_node(S, node, x)), flat(run_node(S, new, x)), "result")


for kind in sorted(STYLES):
    if kind.startswith(tuple(EXTREMES)):
        for k in range(3):
            SCENARIOS.add("processed-%s-%d" % (kind, k), processed, kind=kind, k=k)


def range_setters(S):
    """The setters of a Range, in any order, one overriding the other."""
    n = S.clf.Range("16f", "16f", "", "", S.choice("style", ("", "clamp", "noClamp")))
    v = S.reals("v", 4, 0.0, 0.5)
    S.assume(v[1] <= 0.25)
    n.setMinInValue(0.75)
    n.setMaxInValue(3.0)
    n.setMinOutValue(-0.5)
    n.setMaxOutValue(7.0)
    x = S.real("x", -1.0, 2.0)
    run_node(S, n, [[0.5, 0.5, 0.5]])
    n.setStyle("noClamp" if S.choice("twice", (False, True)) else "clamp")
    n.setMaxOutValue(1.0 + v[0])
    n.setMinInValue(v[1])
    n.setMaxInValue(v[2] + 0.5)
    n.setMinOutValue(v[3])
    S.eq([n.getValueElement(k) is not None for k in ("minInValue", "maxInValue", "minOutValue", "maxOutValue")], [True] * 4, "elements")
    S.samev([n.getValueElement(k) for k in ("minInValue", "maxInValue", "minOutValue", "maxOutValue")], [v[1], v[2] + 0.5, v[3], 1.0 + v[0]], "limits")
    r = v[3] + (x - v[1]) * ((1.0 + v[0] - v[3]) / (v[2] + 0.5 - v[1]))
    if n.getAttribute("style") == "clamp":
        r = S.clamp(r, v[3], 1.0 + v[0])
    S.close(run_node(S, n, [[x]])[0][0], r, "result", scale=16.0)


SCENARIOS.add("range-setters", range_setters)


def instances(S, kind):
    """Two nodes of the same class do not share settings."""
    i, o = "16f", "16f"
    a = KINDS[kind][0](S, i, o)
    b = KINDS[kind][0](S, i, o)
    KINDS[kind][1](S, a, i, o, False, 1)
    KINDS[kind][1](S, b, i, o, True, 2)
    x = pix(S, kind, i)
    first = run_node(S, a, x)
    second = run_node(S, b, x)
    S.samev(flat(run_node(S, a, x)), flat(first), "first again")
    S.samev(flat(first), flat(run_node(S, built(S, kind, i, o, False, 1), x)), "first")
    S.samev(flat(second), flat(run_node(S, built(S, kind, i, o, True, 2), x)), "second")
    for key in ("x", "style"):
        a.setAttribute(key, "one")
        b.setAttribute(key, "two")
        S.eq([a.getAttribute(key), b.getAttribute(key)], ["one", "two"], "attribute")
    a.setDynamicParam("EXPOSURE")
    a.addValueElement("value", 1.0)
    S.true(a.getDynamicParam("EXPOSURE") and not b.getDynamicParam("EXPOSURE"), "dynamic parameter")
    S.true(a.getValueElement("value") is not None and b.getValueElement("value") is None, "value element")


for kind in sorted(KINDS):
    if kind != "lut1d-half":
        SCENARIOS.add("instances-" + kind, instances, kind=kind)


def mat(S, v, name="m", i="16f", o="16f"):
    n = S.clf.Matrix(i, o, name, name)
    n.setMatrix([3, 4], [v[0], 0.0, 0.0, 0.25, 0.0, v[1], 0.0, -0.125, 0.0, 0.5, v[2], 0.0])
    return n


def matv(v, p):
    return [v[0] * p[0] + 0.25, v[1] * p[1] - 0.125, 0.5 * p[1] + v[2] * p[2]]


def growing(S, what):
    """Nodes added to a list or group after it was used."""
    a, b = S.reals("a", 3, -1.0, 1.0), S.reals("b", 3, -1.0, 1.0)
    x = S.reals("x", 3, -1.0, 1.0)
    pl = S.clf.ProcessList()
    box = pl
    if what == "group":
        box = S.clf.Group("16f", "16f", "g", "g")
        pl.addProcess(box)
    S.samev(run_list(S, pl, [x])[0], x, "empty")
    box.addProcess(mat(S, a, "a"))
    one = run_list(S, pl, [x])[0]
    S.closev(one, matv(a, x), "one", scale=4.0)
    S.eq(pl.getInBitDepth(), "16f", "depth")
    box.addProcess(mat(S, b, "b"))
    two = run_list(S, pl, [x])[0]
    S.closev(two, matv(b, matv(a, x)), "two", scale=8.0)
    S.true([n.getAttribute("id") for n in box.getProcesses()] == ["a", "b"], "order")
    n = box.getProcess("a")
    n.setAttribute("bypass", True)
    S.closev(run_list(S, pl, [x])[0], matv(b, x), "bypassed", scale=8.0)
    n.setAttribute("bypass", False)
    S.samev(run_list(S, pl, [x])[0], two, "back")
    n.setMatrix([3, 4], [b[0], 0.0, 0.0, 0.25, 0.0, b[1], 0.0, -0.125, 0.0, 0.5, b[2], 0.0])
    S.closev(run_list(S, pl, [x])[0], matv(b, matv(b, x)), "set again", scale=8.0)


for w in ("list", "group"):
    SCENARIOS.add("growing-" + w, growing, what=w)


def replacing(S, what, how):
    """The members a used list or group reports are the ones it processes, after one was exchanged, taken out or moved."""
    v = [S.reals(c, 3, -1.0, 1.0) for c in "abc"]
    x = S.reals("x", 3, -1.0, 1.0)
    pl = S.clf.ProcessList()
    box = pl
    if what == "group":
        box = S.clf.Group("16f", "16f", "g", "g")
        pl.addProcess(box)
    for k in (0, 1):
        box.addProcess(mat(S, v[k], "ab"[k]))
    first = run_list(S, pl, [x])[0]
    S.closev(first, matv(v[1], matv(v[0], x)), "first", scale=8.0)
    members = box.getProcesses()
    if how == "exchange":
        members[0] = mat(S, v[2], "c")
    elif how == "remove":
        del members[1]
    elif how == "swap":
        members[0], members[1] = members[1], members[0]
    else:
        members.insert(0, mat(S, v[2], "c"))
    want = x
    for n in box.getProcesses():            # what it reports now
        want = matv(v["abc".index(n.getAttribute("id"))], want)
    S.closev(run_list(S, pl, [x])[0], want, "after", scale=16.0)
    t = os.path.join(S.tmp(), "a.clf")
    pl.writeFile(t)
    back = S.clf.ProcessList(t)
    back = back[0].getProcesses() if what == "group" else list(back)
    S.true([n.getAttribute("id") for n in back] == [n.getAttribute("id") for n in box.getProcesses()], "written")


for w in ("list", "group"):
    for h in ("exchange", "remove", "swap", "insert"):
        SCENARIOS.add("replacing-%s-%s" % (w, h), replacing, what=w, how=h)


def separate(S):
    """Lists, groups and documents do not share nodes they were not given."""
    a, b = S.reals("a", 3, -1.0, 1.0), S.reals("b", 3, -1.0, 1.0)
    x = S.reals("x", 3, -1.0, 1.0)
    p, q = S.clf.ProcessList(), S.clf.ProcessList()
    g, h = S.clf.Group("16f", "16f", "g", "g"), S.clf.Group("16f", "16f", "h", "h")
    g.addProcess(mat(S, a))
    S.eq([len(g.getProcesses()), len(h.getProcesses())], [1, 0], "groups")
    p.addProcess(g)
    S.eq([len(p), len(q)], [1, 0], "lists")
    q.addProcess(mat(S, b))
    p.setID("p")
    p.setName("name")
    p.addValueElement("value", "1")
    p.addElement(S.clf.Description("text"))
    S.true(q.getID() is None and q.getName() is None and q.getValueElement("value") is None and len(q._elements) == 0, "attributes")
    f = os.path.join(S.tmp(), "a.clf")
    p.writeFile(f)
    r, s = S.clf.ProcessList(f), S.clf.ProcessList(f)
    r[0].getProcesses()[0].setMatrix([3, 3], [0.5, 0.0, 0.0, 0.0, 0.5, 0.0, 0.0, 0.0, 0.5])
    r.addProcess(mat(S, b))
    S.eq([len(r), len(s), len(p)], [2, 1, 1], "read lists")
    S.closev(run_list(S, s, [x])[0], matv(a, x), "read", scale=4.0)
    S.closev(run_list(S, p, [x])[0], matv(a, x), "written", scale=4.0)
    S.closev(run_list(S, r, [x])[0], matv(b, [0.5 * v for v in x]), "changed", scale=4.0)
    S.closev(run_list(S, q, [x])[0], matv(b, x), "other", scale=4.0)


SCENARIOS.add("separate", separate)


def rewritten(S, kind):
    """A document holds the settings a node has when it is written; none of the earlier ones."""
    i = o = "16f"
    node = built(S, kind, i, o, False, 1)
    pl = plist(S, node)
    f = os.path.join(S.tmp(), "a.clf")
    pl.writeFile(f)
    KINDS[kind][1](S, node, i, o, False, 2)
    pl.writeFile(f)
    x = pix(S, kind, i)
    S.closev(flat(run_list(S, S.clf.ProcessList(f), x)), flat(run_node(S, built(S, kind, i, o, False, 2), x)), "result", scale=4.0, tol=1e-6)
    with open(f) as fp:
        tags = fp.read()
    for t in ("<Array", "<SOPNode", "<SatNode", "<ECParams", "<minInValue", "<Slope"):
        S.true(tags.count(t) <= 1, "one " + t)
    if kind.startswith("lut1d-maps"):
        S.eq(tags.count("<IndexMap"), 1, "index maps")


for kind in sorted(KINDS):
    if kind not in ("lut1d-half", "correction", "log-linToLog", "log-logToLin"):
        SCENARIOS.add("rewritten-" + kind, rewritten, kind=kind)


def unharmed(S, kind):
    """Processing leaves the parameters alone."""
    i = o = "16f"
    if kind == "lut1d":
        vals = S.reals("t", 12, 0.0, 1.0)
        n = S.clf.LUT1D(i, o, "id", "name")
        n.setArray(3, list(vals))
        dims = [4, 3]
    else:
        vals = S.reals("t", 24, 0.0, 1.0)
        n = S.clf.LUT3D(i, o, "id", "name", kind[6:])
        n.setArray([2, 2, 2], list(vals))
        dims = [2, 2, 2, 3]
    m = [[0.0, 0.5, 1.0], [0.0, 0.25, dims[0] - 1.0]]
    if S.choice("maps", (False, True)):
        n.setIndexMaps(m)
    x = S.real("x", -0.25, 1.25)
    run_node(S, n, [[x, 0.25, 0.75], [0.125, 0.5, 1.0]])
    S.samev(list(n.getLUTValues()), vals, "entries")
    S.eq(list(n.getLUTDimensions()), dims, "dimensions")
    S.eq(m, [[0.0, 0.5, 1.0], [0.0, 0.25, dims[0] - 1.0]], "points")


for k in ("lut1d", "lut3d-trilinear", "lut3d-tetrahedral"):
    SCENARIOS.add("unharmed-" + k, unharmed, kind=k)


def formulas(S, what):
    """Settings made again give what their formulas say, not what they gave for another node or another time."""
    x = S.real("x", -0.25, 1.25)
    pixel = [[x, x, x], [0.375, 0.375, 0.375]]
    for turn in range(3):
        a = [S.real("a%d_%d" % (turn, c), 0.125, 0.875) for c in range(3)] if turn != 1 else [0.25, 0.5, 0.75]
        if what.startswith("maps"):
            if turn != 1:
                a = [(0.125, 0.5, 0.375), None, (0.625, 0.25, 0.5)][turn]
            if turn == 0 or what == "maps-new":
                n = S.clf.LUT1D("16f", "16f", "", "", "linear")
                n.setArray(1, [0.0, 0.5, 1.0])
            n.setIndexMaps(*[[[0.0, v, 1.0], [0.0, 1.0, 2.0]] for v in a])
            f = lambda v, c: S.ite(v <= 0.0, 0.0, S.ite(v >= 1.0, 1.0, S.ite(v <= a[c], 0.5 * v / a[c], 0.5 + 0.5 * (v - a[c]) / (1.0 - a[c]))))
        elif what.startswith("lut"):
            if turn == 0 or what == "lut-new":
                n = S.clf.LUT1D("16f", "16f", "", "", "linear")
            n.setArray(3, [0.0, 0.25, 0.5, a[0], a[1], a[2], 1.0, 0.5, 0.75])
            f = lambda v, c: S.ite(v <= 0.0, (0.0, 0.25, 0.5)[c], S.ite(v >= 1.0, (1.0, 0.5, 0.75)[c], S.ite(v <= 0.5, (0.0, 0.25, 0.5)[c] + 2.0 * v * (a[c] - (0.0, 0.25, 0.5)[c]),
                                                                                                         a[c] + (2.0 * v - 1.0) * ((1.0, 0.5, 0.75)[c] - a[c]))))
        elif what.startswith("cdl"):
            if turn == 0 or what == "cdl-new":
                n = S.clf.ASCCDL("16f", "16f", "", "", "FwdNoClamp")
            n.setSlope(*a)
            n.setOffset(a[2], a[0], a[1])
            f = lambda v, c: v * a[c] + a[(c + 2) % 3]
        elif what.startswith("gamma"):
            if turn == 0 or what == "gamma-new":
                n = S.clf.Gamma("16f", "16f", "", "", "basicFwd")
            g = ((2.0, 3.0, 1.0), (1.0, 2.0, 3.0), (3.0, 1.0, 2.0))[turn]
            for c in range(3):
                n.setGamma(g[c], 0.0, "RGB"[c])
            out = run_node(S, n, [[0.5, 0.5, 0.5], [0.25, 0.25, 0.25]])
            S.closev(out[0], [0.5 ** g[c] for c in range(3)], "turn%d" % turn)
            S.closev(out[1], [0.25 ** g[c] for c in range(3)], "turn%d" % turn)
            continue
        elif what.startswith("ec"):
            if turn == 0 or what == "ec-new":
                n = S.clf.ExposureContrast("16f", "16f", "", "", "linear")
            n.setExposureContrastPivot(float(turn - 1), 1.0, 0.5)
            f = lambda v, c: v * 2.0 ** (turn - 1)
            pixel = [[S.real("y", 0.0625, 1.25)] * 3, [0.375] * 3]
        out = run_node(S, n, pixel)
        for k, p in enumerate(pixel):
            S.closev(out[k], [f(p[c], c) for c in range(3)], "turn%d pixel%d" % (turn, k), scale=4.0)


for w in ("maps", "lut", "cdl", "gamma", "ec"):
    SCENARIOS.add("formulas-" + w, formulas, what=w)
    SCENARIOS.add("formulas-%s-new" % w, formulas, what=w + "-new")


def cubes(S, anew):
    """The same for 3D LUTs, at lattice points and along an edge."""
    x = S.real("x", 0.0, 1.0)
    n = None
    for turn in range(3):
        t = S.reals("t%d_" % turn, 6, 0.0, 1.0) if turn != 1 else [0.0, 0.25, 0.5, 1.0, 0.75, 0.125]
        if n is None or anew:
            n = S.clf.LUT3D("16f", "16f", "", "", ("trilinear", "tetrahedral", "trilinear")[turn])
        n.setAttribute("interpolation", ("trilinear", "tetrahedral", "trilinear")[turn])
        n.setArray([2, 2, 2], t[:3] + [0.5] * 18 + t[3:])
        out = run_node(S, n, [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0], [x, 1.0, 1.0]])
        S.closev(out[0] + out[1], t, "turn%d corners" % turn)
        S.closev(out[2], [0.5 + x * (v - 0.5) for v in t[3:]], "turn%d edge" % turn)


SCENARIOS.add("cubes", cubes, anew=False)
SCENARIOS.add("cubes-new", cubes, anew=True)
