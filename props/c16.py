"""C16 Writing and reading back"""
import os
import xml.etree.ElementTree as ET

from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "lists of up to 30 nodes, one or more of every kind and style, also nested in groups two deep; every number of a node symbolic (parameters within [-1e5,1e5] or the kind's range, array entries within " \
         "twice the code range); every subset of the optional parts (limits, CDL parameters, channels, offsets, index maps, attributes, descriptions, info, dynamic parameters); written to an element and to a " \
         "file, read strictly and not, three generations; texts from a fixed choice of awkward ones; pixels symbolic; 1D LUTs of up to 1500x3, 3D LUTs of up to 17x17x17 and index maps of up to 1030 points with one to three entries symbolic, lists of up to 130 nodes, " \
         "numbers of 1e9 to 1e-12" \
         "; files written again with other contents; the feature sets None, CLF, Autodesk and Duiker Research and All"
OUTSIDE = "texts outside the choice (claimed separately as not applicable); value elements attached to the list itself; index maps with fractional indices (written as integers)"

TEXTS = ("text", "true", "False", "a < b & 'c' > \"d\"", "  two  spaces ", "1.5", "]]>", "a/b:c")


def local(tag):
    return tag[tag.find("}") + 1:]


def names(e):
    return sorted(k for k in e.attrib if k != "xmlns")


def trees(S, a, b, label, scale, tol=0.0):
    """Two elements are the same document."""
    if local(a.tag) != local(b.tag):
        S.fail(label, "%s %s" % (a.tag, b.tag))
    p, q = names(a), names(b)
    if p != q:
        S.fail(label + " attributes", "%s %s" % (p, q))
    for k in p:
        texts(S, a.attrib.get(k), b.attrib.get(k), label + " " + k, scale, tol)
    texts(S, a.text, b.text, label + " text", scale, tol)
    if len(a) != len(b):
        S.fail(label + " children", "%s %s" % ([c.tag for c in a], [c.tag for c in b]))
    for x, y in zip(a, b):
        trees(S, x, y, label + "/" + x.tag, scale, tol)


def texts(S, a, b, label, scale, tol):
    a, b = a or "", b or ""
    if a.strip() == b.strip():
        return
    x, y = a.replace("@", " @ ").split(), b.replace("@", " @ ").split()
    if len(x) != len(y):
        S.fail(label, "%r %r" % (a, b))
    for p, q in zip(x, y):
        if p == q:
            continue
        m, n = S.num(p), S.num(q)
        if m is None or n is None:
            S.fail(label, "%r %r" % (a, b))
        else:
            S.close(m, n, "numbers of the " + label.split("/")[0], scale=scale, tol=tol + 1e-9)


def doc(path):
    return ET.parse(path).getroot()


def roundtrip(S, pl, scale=1.0, tol=0.0, strict=None):
    """pl, what is read back, both documents compared."""
    d = S.tmp()
    f, g = os.path.join(d, "a.clf"), os.path.join(d, "b.clf")
    before = pl.write()
    pl.writeFile(f)
    trees(S, before.getroot(), doc(f), "file", scale)
    strict = S.choice("strict", (False, True)) if strict is None else strict
    back = S.clf.ProcessList(f, strict)
    back.writeFile(g)
    trees(S, doc(f), doc(g), "second document", scale, tol)
    again = S.clf.ProcessList(g, strict)
    trees(S, doc(g), again.write().getroot(), "third document", scale, tol)
    trees(S, before.getroot(), pl.write().getroot(), "unchanged", scale)
    S.true(len(back) == len(pl), "nodes")
    for x, y in zip(pl, back):
        S.true(x.getNodeType() == y.getNodeType(), "type")
    return back


# ------------------------------------------------------------- every kind processes the same
def kind(S, names, i, o, nested):
    pl = S.clf.ProcessList()
    pl.setID("list")
    pl.setCompCLFversion("2.0")
    group = pl
    for _ in range(nested):
        g = S.clf.Group(i, o, "g", "g")
        group.addProcess(g)
        group = g
    which = S.choice("kind", names)
    n = nodes.make(S, which, i, o)
    group.addProcess(n)
    back = roundtrip(S, pl, max(SIZE[i], SIZE[o]), strict=True)
    m = back[0]
    for _ in range(nested):
        m = m.getProcesses()[0]
    for a in ("id", "name", "inBitDepth", "outBitDepth", "style", "interpolation", "halfDomain", "rawHalfs"):
        S.true(n.getAttribute(a) == m.getAttribute(a) or str(n.getAttribute(a)) == str(m.getAttribute(a)), "attribute " + a,
               "%r %r" % (n.getAttribute(a), m.getAttribute(a)))
    S.true(m.getInBitDepth() == i and m.getOutBitDepth() == o, "depths")
    a = SIZE[i]
    px = [[0.3 * a, 0.6 * a, 0.9 * a, 0.5], [-0.25 * a, 1.5 * a, 0.0, 0.25]]
    px[0][S.choice("channel", (0, 1, 2))] = S.real("x", -1.5 * a, 2.0 * a)
    S.closev(flat(run_list(S, back, px)), flat(run_list(S, pl, px)), "result", scale=4.0 * SIZE[o])


FAST = [k for k in nodes.KINDS if k != "lut1d-half" and not k.startswith("lut3d") and not k.startswith("lut1d-3-maps")]
for k, c in enumerate(range(0, len(FAST), 3)):
    i, o = (("16f", "16f"), ("10i", "12i"), ("8i", "16f"), ("32f", "10i"))[k % 4]
    SCENARIOS.add("kind-%d" % k, kind, names=tuple(FAST[c:c + 3]), i=i, o=o, nested=0, conf={"weight": 4})
SCENARIOS.add("kind-nested", kind, names=("matrix3x4", "cdl-Rev", "range-clamp-m", "gamma-moncurveFwd", "log-linToLog", "ec-video", "lut1d-1-map", "group-nested"), i="10i", o="16f", nested=2, conf={"weight": 6})
SCENARIOS.add("kind-lut1d-3-maps", kind, tier="thorough", names=("lut1d-3-maps",), i="10i", o="10i", nested=0)


def lut3d_fixed(S, which):
    pl = plist(S, nodes.make(S, which, "10i", "16f"))
    back = roundtrip(S, pl, 1023.0)
    a = SIZE["10i"]
    px = [[S.real("x0", -a, 2 * a), 0.3 * a, 0.8 * a], [0.3 * a, 0.6 * a, S.real("x1", 0.2 * a, 0.8 * a)]]
    S.closev(flat(run_list(S, back, px)), flat(run_list(S, pl, px)), "result", scale=4.0)


for k in ("lut3d-tri", "lut3d-tet", "lut3d-tri-map", "lut3d-tet-maps"):
    SCENARIOS.add("kind-" + k, lut3d_fixed, which=k, conf={"weight": 3})


# ------------------------------------------------------------- symbolic numbers
def same(S, n, label, scale=1.0, channels=3, extra=(), tol=1e-9):
    pl = plist(S, n)
    back = roundtrip(S, pl, scale)
    px = [[0.3, -0.4, 0.8, 0.5][:channels]] + [list(e) for e in extra]
    S.closev(flat(run_list(S, back, px)), flat(run_list(S, pl, px)), label, scale=scale, tol=tol)


def range_numbers(S, style):
    i, o = S.choice("depths", (("16f", "16f"), ("10i", "12i"), ("16f", "8i"), ("16i", "32f")))
    n = S.clf.Range(i, o, "r", "n", style)
    w = [S.real(p, -100000.0, 100000.0) for p in ("minIn", "maxIn", "minOut", "maxOut")]
    S.assume(w[0] + 0.5 <= w[1])
    S.assume(w[2] <= w[3])
    which = S.choice("which", ("", "m", "M", "mM"))
    if "m" in which:
        n.setMinInValue(w[0])
        n.setMinOutValue(w[2])
    if "M" in which:
        n.setMaxInValue(w[1])
        n.setMaxOutValue(w[3])
    if which == "" and S.choice("default", (False, True)):
        n.setDefaultRange(True)
    same(S, n, "result", 1e5, extra=[[w[0], w[1], S.real("x", -2e5, 2e5)]])


for st in ("", "clamp", "noClamp"):
    SCENARIOS.add("range-numbers-%s" % (st or "default"), range_numbers, style=st)


def cdl_numbers(S, style, cls):
    n = getattr(S.clf, cls)("16f", "16f", "c", "n", style) if cls == "ASCCDL" else S.clf.ColorCorrection(id="c")
    which = S.choice("which", ("", "s", "o", "p", "t", "sopt"))
    if "s" in which:
        n.setSlope(*S.reals("slope", 3, 0.1, 8.0))
    if "o" in which:
        n.setOffset(*S.reals("offset", 3, -2.0, 2.0))
    if "p" in which:
        n.setPower(*S.reals("power", 3, 0.2, 4.0))
    if "t" in which:
        n.setSaturation(S.real("sat", 0.1, 3.0))
    same(S, n, "result", 8.0)


for st in ("Fwd", "Rev", "FwdNoClamp", "RevNoClamp"):
    SCENARIOS.add("cdl-numbers-" + st, cdl_numbers, style=st, cls="ASCCDL", conf={"weight": 3})


def gamma_numbers(S, style):
    n = S.clf.Gamma("16f", "16f", "c", "n", style)
    which = S.choice("channels", ((None,), ("R",), ("B", "G"), ("R", "G", "B")))
    off = 0.0
    for k, c in enumerate(which):
        if style.startswith("mon"):
            off = S.choice("offset%d" % k, (0.055, 0.25))
        n.setGamma(S.real("gamma%d" % k, 1.1, 4.0), off, c)
    same(S, n, "result", 8.0)


for st in ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"):
    SCENARIOS.add("gamma-numbers-" + st, gamma_numbers, style=st)


def moncurve_offset(S):
    n = S.clf.Gamma("16f", "16f", "c", "n", "moncurveFwd")
    n.setGamma(2.5, S.real("offset", 0.01, 0.9), S.choice("channel", (None, "G")))
    same(S, n, "result", 8.0)


SCENARIOS.add("gamma-offset", moncurve_offset)


def log_numbers(S, style):
    n = S.clf.Log("16f", "16f", "c", "n", style)
    which = S.choice("channels", ((None,), ("R",), ("B", "G"), ("R", "G", "B")))
    for k, c in enumerate(which):
        n.setLogParams(S.real("gamma%d" % k, 0.3, 2.0), S.real("white%d" % k, 600.0, 900.0), S.real("black%d" % k, 10.0, 200.0),
                       S.real("high%d" % k, 0.5, 1.5), S.real("shadow%d" % k, 0.01, 0.1), c)
    same(S, n, "result", 8.0)


for st in ("linToLog", "logToLin"):
    SCENARIOS.add("log-numbers-" + st, log_numbers, style=st)


def ec_numbers(S, style):
    n = S.clf.ExposureContrast("16f", "16f", "c", "n", style)
    if S.choice("set", (True, False)):
        n.setExposureContrastPivot(S.real("exposure", -3.0, 3.0), S.real("contrast", 0.3, 3.0), S.real("pivot", 0.05, 0.9))
    same(S, n, "result", 8.0)


for st in ("linear", "video", "log"):
    SCENARIOS.add("ec-numbers-" + st, ec_numbers, style=st)


def matrix_numbers(S, dims, i, o):
    b = SIZE[o]
    n = S.clf.Matrix(i, o, "m", "n")
    vals = S.reals("m", dims[0] * dims[1], -2.0 * b if b == 1.0 else 0.01, 2.0 * b)
    if b > 1.0:
        vals[1] = -vals[1]
    n.setMatrix(list(dims), vals)
    back = roundtrip(S, plist(S, n), b, 1e-8)
    x = [[0.3 * SIZE[i], -0.4 * SIZE[i], 0.8 * SIZE[i], 0.5 * SIZE[i]]]
    S.closev(flat(run_list(S, back, x)), flat(run_list(S, plist(S, n), x)), "result", scale=b, tol=1e-8)


for d in ((3, 3), (3, 4), (4, 4), (4, 5), (3, 3, 3), (3, 4, 3)):
    for i, o in (("16f", "16f"), ("8i", "10i")):
        SCENARIOS.add("matrix-numbers-%s-%s" % ("x".join(map(str, d)), o), matrix_numbers, dims=d, i=i, o=o)


def entries(S, a, b, label, scale):
    a, b = list(a), list(b)
    S.true(len(a) == len(b), label + " count")
    for k in range(len(a)):
        S.close(a[k], b[k], label, scale=scale, tol=1e-9)


def lut_numbers(S, dims, i, o, maps):
    b = SIZE[o]
    three = len(dims) == 3
    n = (S.clf.LUT3D if three else S.clf.LUT1D)(i, o, "m", "n", S.choice("interpolation", ("trilinear", "tetrahedral") if three else ("linear", "cubic")))
    total = dims[0] * dims[1] * (dims[2] * 3 if three else 1)
    vals = S.reals("v", total, -b if b == 1.0 else 0.01, 2.0 * b)
    n.setArray(list(dims) if three else dims[1], vals)
    ms = []
    for k in range(maps):
        xs = S.reals("in%d_" % k, 3, 0.0, SIZE[i])
        S.assume(xs[0] + 0.125 <= xs[1])
        S.assume(xs[1] + 0.125 <= xs[2])
        ms.append([list(xs), [0, S.int("at%d" % k, 0, 5), 5]])
    if maps:
        n.setIndexMaps(*ms)
    back = roundtrip(S, plist(S, n), b, 1e-8, strict=True)[0]
    S.true(list(back.getLUTDimensions()) == list(n.getLUTDimensions()), "dimensions")
    entries(S, back.getLUTValues(), vals, "entry", b)
    for k in range(maps):
        S.true(back.getIndexMapDimensions(k) == 3, "map dimension")
        got = back.getIndexMapValues(k)
        entries(S, got[0], ms[k][0], "map input", SIZE[i])
        entries(S, got[1], ms[k][1], "map index", 1.0)
    for p in [[0.0, 0.5, 1.0], [0.3, 0.8, 0.1]]:
        if maps:
            break
        x = [[v * SIZE[i] for v in p]]
        S.closev(flat(run_node(S, back, x)), flat(run_node(S, n, x)), "result", scale=b, tol=1e-8)


for d, i, o, m in (((4, 1), "16f", "16f", 0), ((3, 3), "16f", "16f", 0), ((6, 1), "10i", "8i", 1), ((2, 3), "16i", "32f", 3), ((2, 2, 2), "16f", "16f", 0), ((2, 1 + 1, 3), "8i", "12i", 0),
                   ((3, 2, 2), "16f", "10i", 1), ((2, 2, 2), "10i", "16f", 3)):
    SCENARIOS.add("lut-numbers-%s-%s-%d" % ("x".join(map(str, d)), o, m), lut_numbers, dims=d, i=i, o=o, maps=m)


# ------------------------------------------------------------- everything else in the document
def attributes(S):
    pl = S.clf.ProcessList()
    t = S.choice("text", TEXTS + ("", "0"))
    if S.choice("full", (True, False)):
        pl.setID(t)
        pl.setName(t)
        pl.setCompCLFversion("2.0")
        pl.setInverseOf(t)
    if S.choice("namespace", (False, True)):
        pl.setNamespace("urn:AMPAS:CLF:v2.0")
    n = S.clf.Matrix("10i", "16f", t, t)
    n.setMatrix([3, 3], [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0])
    n.setAttribute("bypass", S.choice("bypass", (True, False)))
    pl.addProcess(n)
    back = roundtrip(S, pl)
    for get in ("getID", "getName", "getCompCLFversion", "getInverseOf", "getNamespace", "getInBitDepth", "getOutBitDepth"):
        S.true(getattr(pl, get)() == getattr(back, get)(), get, "%r %r" % (getattr(pl, get)(), getattr(back, get)()))
    for k in ("id", "name", "bypass", "inBitDepth", "outBitDepth"):
        S.true(back[0].getAttribute(k) == n.getAttribute(k), "attribute " + k, "%r %r" % (back[0].getAttribute(k), n.getAttribute(k)))
    S.true(back.getProcess(t) is back[0], "found by name")


SCENARIOS.add("attributes", attributes)


def elements(S):
    """Descriptions, descriptors and info, of the list and of nodes, in order."""
    t = S.choice("text", TEXTS)
    pl = S.clf.ProcessList()
    n = S.clf.Range("16f", "16f", "r", "r")
    g = S.clf.Group("16f", "16f", "g", "g")
    h = S.clf.ExposureContrast("16f", "16f", "e", "e", "linear")
    order = S.choice("order", (("d", "i", "o", "x"), ("x", "o", "d", "d"), ("i",), ()))
    for k in order:
        if k == "d":
            pl.addElement(S.clf.Description(t))
        elif k == "i":
            pl.addElement(S.clf.InputDescriptor(t))
        elif k == "o":
            pl.addElement(S.clf.OutputDescriptor(t))
        else:
            a, c = S.choice("info", (("app 1", "me"), ("app 1", ""), ("", t)))
            pl.addElement(S.clf.Info(a, c))
    twice = S.choice("the same again", (True, False))
    for k in range(S.choice("node texts", (0, 1, 2, 3))):
        n.addElement(S.clf.Description(t))
        h.addElement(S.clf.Description(t if twice else "%d %s" % (k, t)))
    if S.choice("dynamic", (False, True)):
        h.setDynamicParam("exposure")
        h.setDynamicParam("contrast")
    pl.addProcess(n)
    g.addProcess(h)
    pl.addProcess(g)
    back = roundtrip(S, pl)
    m = back[1].getProcesses()[0]
    for p in ("exposure", "contrast", "pivot"):
        S.true(m.getDynamicParam(p) == h.getDynamicParam(p), "dynamic parameter " + p)
    f = os.path.join(S.tmp(), "c.clf")
    back.writeFile(f)
    got = [(local(c.tag), (c.text or "")) for c in doc(f) if c.tag not in ("Range", "Group", "Info")]
    tags = {"d": "Description", "i": "InputDescriptor", "o": "OutputDescriptor"}
    S.true(got == [(tags[k], t) for k in order if k != "x"], "texts", repr(got))
    if "x" in order:
        info = dict((c.tag, c.text) for c in doc(f).find("Info"))
        S.true(info == dict((p, q) for p, q in (("AppRelease", a), ("Copyright", c)) if q), "info", repr(info))


SCENARIOS.add("elements", elements)


def many(S, count):
    """The order of many nodes, also of the same name."""
    pl = S.clf.ProcessList()
    g = S.clf.Group("16f", "16f", "g", "g")
    ks = [S.choice("k%d" % k, (0, 1)) for k in range(3)]
    for k in range(count):
        n = S.clf.Range("16f", "16f", "r%d" % k, "r%d" % (k % 5 + ks[k % 3]), "noClamp")
        n.setMinInValue(0.0)
        n.setMaxInValue(1.0)
        n.setMinOutValue(0.25 * (k % 3))
        n.setMaxOutValue(S.real("top%d" % k, 1.0, 2.0) if k < 3 else 1.0 + 0.5 * (k % 2))
        (g if k % 4 == 1 else pl).addProcess(n)
    pl.addProcess(g)
    back = roundtrip(S, pl, 4.0)
    S.true([n.getAttribute("id") for n in back] == [n.getAttribute("id") for n in pl], "order")
    S.true([n.getAttribute("id") for n in back[len(pl) - 1].getProcesses()] == [n.getAttribute("id") for n in g.getProcesses()], "order in the group")
    for name in ("r0", "r1", "r3", "nothing"):
        p, q = pl.getProcess(name), back.getProcess(name)
        S.true((p is None) == (q is None) and (p is None or p.getAttribute("id") == q.getAttribute("id")), "by name")


SCENARIOS.add("many", many, count=14)
SCENARIOS.add("many-more", many, tier="thorough", count=30)


def strange(S):
    """Spellings a document may use: prefixes, hyphens, spacing, attribute case."""
    d = S.tmp()
    f = os.path.join(d, "a.clf")
    v = [S.real("v%d" % k, -2.0, 2.0) for k in range(9)]
    form = S.choice("form", ("plain", "namespace", "prefix", "hyphen", "lines"))
    sep = "\n\t " if form == "lines" else " "
    m = sep.join(str(x) for x in v)
    cdl = {"hyphen": "ASC-CDL", "plain": "ASC_CDL"}.get(form, "ASCCDL")
    p = "c:" if form == "prefix" else ""
    ns = {"namespace": ' xmlns="urn:x"', "prefix": ' xmlns:c="urn:x"'}.get(form, "")
    text = ('<?xml version="1.0"?><%(p)sProcessList id="a"%(ns)s>%(s)s<!-- comment --><%(p)sDescription>text</%(p)sDescription>'
            '<%(p)sMatrix inBitDepth="16f" outBitDepth="16f"><%(p)sArray dim="3%(s)s3">%(s)s%(m)s%(s)s</%(p)sArray></%(p)sMatrix>'
            '<%(p)s%(cdl)s inBitDepth="16f" outBitDepth="16f" style="FwdNoClamp"><%(p)sSOPNode><%(p)sSlope>%(m3)s</%(p)sSlope></%(p)sSOPNode></%(p)s%(cdl)s></%(p)sProcessList>'
            % {"p": p, "ns": ns, "s": sep, "m": m, "cdl": cdl, "m3": sep.join(str(x) for x in v[:3])})
    with open(f, "w") as fp:
        fp.write(text)
    pl = S.clf.ProcessList(f, S.choice("strict", (True, False)))
    S.true([n.getNodeType() for n in pl] == ["Matrix", "ASC_CDL"], "nodes")
    out = run_list(S, pl, [[1.0, 0.5, 0.25]])[0]
    for c in range(3):
        S.close(out[c], v[c] * (v[3 * c] + 0.5 * v[3 * c + 1] + 0.25 * v[3 * c + 2]), "result", scale=8.0)
    roundtrip(S, pl, 2.0, 1e-8, strict=True)


SCENARIOS.add("strange", strange)


def info_document(S):
    """What a document says about itself is kept, in its order."""
    f = os.path.join(S.tmp(), "a.clf")
    kids = S.choice("children", (("AppRelease", "Copyright"), ("Release", "Copyright"), ("Copyright", "Release"), ("Copyright", "AppRelease"), ("Release",), ("Copyright",), ()))
    t = S.choice("text", ("2014", "me & you", "a  b"))
    text = '<?xml version="1.0"?><ProcessList id="a" compCLFversion="1.2"><Info>%s</Info><Description>d</Description><Range inBitDepth="16f" outBitDepth="16f"/></ProcessList>'
    with open(f, "w") as fp:
        fp.write(text % "".join("<%s>%s %d</%s>" % (k, t.replace("&", "&amp;"), j, k) for j, k in enumerate(kids)))
    pl = S.clf.ProcessList(f, S.choice("strict", (True, False)))
    back = roundtrip(S, pl)
    for p in (pl, back):
        root = p.write().getroot()
        S.true([(e.tag, e.text) for e in root.find("Info")] == [(k, "%s %d" % (t, j)) for j, k in enumerate(kids)], "info")
        S.true([e.tag for e in root] == ["Info", "Description", "Range"], "order")


SCENARIOS.add("info-document", info_document)


# ------------------------------------------------------------- larger
def big_lut(S, dims, i, o, at):
    """Fixed entries of many, a few arbitrary."""
    b = SIZE[o]
    three = len(dims) == 3
    n = (S.clf.LUT3D if three else S.clf.LUT1D)(i, o, "m", "n", "tetrahedral" if three else "linear")
    total = dims[0] * dims[1] * (dims[2] * 3 if three else 1)
    vals = [round(((k * 37) % 1024) / 1023.0 * b - 0.25 * b, 6) for k in range(total)]
    for k in at:
        vals[k % total] = S.real("v%d" % k if k >= 0 else "w%d" % -k, -b if b == 1.0 else 0.01, 2.0 * b)
    n.setArray(list(dims) if three else dims[1], list(vals))
    d = S.tmp()
    f = os.path.join(d, "a.clf")
    plist(S, n).writeFile(f, writeGzip=S.choice("gzip", (False, True)))
    pl = S.clf.ProcessList(f, S.choice("strict", (False, True)))
    back = pl[0]
    S.true(list(back.getLUTDimensions()) == list(n.getLUTDimensions()), "dimensions")
    got = list(back.getLUTValues())
    S.true(len(got) == total, "count")
    marks = [k % total for k in at]
    bad = 0
    for k in range(total):
        if k in marks:
            S.close(got[k], vals[k], "entry", scale=b, tol=1e-9)
        else:
            bad += abs(float(got[k]) - vals[k]) > 1e-6 * b
    S.true(bad == 0, "entries", "%d differ" % bad)
    g = os.path.join(d, "b.clf")
    pl.writeFile(g)
    again = list(S.clf.ProcessList(g)[0].getLUTValues())
    S.true(len(again) == total, "count again")
    for k in marks + [0, total // 3, total - 2]:
        S.close(again[k], vals[k], "entry again", scale=b, tol=1e-8)


for d, i, o, at in (((257, 3), "16f", "16f", (0, 400, -1)), ((1024, 1), "10i", "12i", (1023, 512)), ((1500, 3), "16f", "32f", (-2, 3001)), ((9, 9, 9), "16f", "16f", (-1, 1000)),
                    ((17, 5, 9), "8i", "10i", (-3, 7)), ((17, 17, 17), "12i", "16f", (-1, 9000))):
    SCENARIOS.add("big-lut-%s" % "x".join(map(str, d)), big_lut, dims=d, i=i, o=o, at=at)


def big_map(S, count, which, maps):
    """Index maps of many points."""
    n = S.clf.LUT1D("32f", "16f", "m", "n")
    n.setArray(3 if maps == 3 else 1, [0.0, 0.25, 0.5, 0.625] * (3 if maps == 3 else 1))
    ms = []
    for k in range(maps):
        xs = [round(0.1 * j + 0.01 * ((j * 7) % 5), 3) for j in range(count)]
        for j in which:
            xs[j] = xs[j - 1] + S.real("t%d_%d" % (k, j), 0.01, 0.99) * (xs[j + 1] - xs[j - 1])
        ms.append([xs, [j // 2 for j in range(count)]])
    n.setIndexMaps(*ms)
    back = roundtrip(S, plist(S, n), 8.0, 1e-8, strict=True)[0]
    for k in range(maps):
        S.true(back.getIndexMapDimensions(k) == count, "map dimension")
        got = back.getIndexMapValues(k)
        entries(S, got[0], ms[k][0], "map input", 1.0)
        entries(S, got[1], ms[k][1], "map index", 1.0)


for count, which, maps in ((9, (5,), 1), (40, (20, 38), 3), (257, (250,), 1), (1030, (1028,), 3)):
    SCENARIOS.add("big-map-%d" % count, big_map, count=count, which=which, maps=maps)


def magnitude(S, unit, kind):
    """Numbers that are large or small throughout: as many digits as there are."""
    if kind == "range":
        n = S.clf.Range("16f", "16f", "r", "r", "noClamp")
        lo = unit * S.real("lo", -4.0, 4.0)
        n.setMinInValue(lo)
        n.setMaxInValue(lo + unit * S.real("w", 0.5, 4.0))
        n.setMinOutValue(unit * S.real("b", -4.0, 4.0))
        n.setMaxOutValue(unit * S.real("t", 5.0, 8.0))
        x = [[lo, lo + unit, 2.0 * unit]]
    elif kind == "cdl":
        n = S.clf.ASCCDL("16f", "16f", "c", "n", "FwdNoClamp")
        n.setSlope(*[unit * v for v in S.reals("slope", 3, 0.5, 4.0)])
        n.setOffset(*[unit * v for v in S.reals("offset", 3, -2.0, 2.0)])
        x = [[0.5, 0.25, 1.0]]
    elif kind == "map":
        n = S.clf.LUT1D("32f", "16f", "m", "n")
        n.setArray(1, [0.0, 1.0, 0.5])
        a = S.reals("in", 2, 0.25, 4.0)
        n.setIndexMaps([[0.0, unit * a[0], unit * (a[0] + a[1])], [0, 1, 2]])
        x = [[unit * 0.2, unit * 2.0, unit * 9.0]]
    else:
        n = S.clf.ExposureContrast("16f", "16f", "c", "n", "linear")
        n.setExposureContrastPivot(unit * S.real("exposure", -3.0, 3.0), 1.0, S.real("pivot", 0.05, 0.9))
        x = None
    pl = plist(S, n)
    back = roundtrip(S, pl, unit, strict=True)
    if x:
        S.closev(flat(run_list(S, back, x)), flat(run_list(S, pl, x)), "result", scale=unit if kind != "map" else 1.0, tol=1e-6)


for unit in (1e9, 3e5, 1e-4, 1e-7, 1e-12):
    for kind_ in ("range", "cdl", "map", "ec"):
        if kind_ == "ec" and unit > 1e3:
            continue
        SCENARIOS.add("magnitude-%s-%g" % (kind_, unit), magnitude, unit=unit, kind=kind_)


def long_list(S, count, at):
    """Lists of many nodes, each with descriptions, some numbers arbitrary."""
    pl = S.clf.ProcessList()
    pl.setID("a")
    text = "a sentence of many words " * 40
    pl.addElement(S.clf.Description(text.strip()))
    for k in range(7):
        pl.addElement(S.clf.Description("line %d" % k))
    for k in range(count):
        v = S.real("v%d" % k, 1.0, 2.0) if k in at else 1.0 + 0.125 * (k % 8)
        if k % 3 == 0:
            n = S.clf.Matrix("16f", "16f", "m%d" % k, "m")
            n.setMatrix([3, 3], [v, 0.0, 0.0, 0.0, 1.0 / 8, 0.0, 0.0, 0.0, v])
        elif k % 3 == 1:
            n = S.clf.Range("16f", "16f", "r%d" % k, "r", "noClamp")
            n.setMinInValue(0.0)
            n.setMaxInValue(1.0)
            n.setMinOutValue(0.0)
            n.setMaxOutValue(v)
        else:
            n = S.clf.ASCCDL("16f", "16f", "c%d" % k, "c", "FwdNoClamp")
            n.setOffset(v, 0.5, 0.25)
        for j in range(k % 4):
            n.addElement(S.clf.Description("text %d" % j))
        pl.addProcess(n)
    back = roundtrip(S, pl, 4.0, strict=True)
    S.true([n.getAttribute("id") for n in back] == [n.getAttribute("id") for n in pl], "order")


for count, at in ((12, (11,)), (25, (3, 24)), (60, (0, 59, 33)), (130, (129,))):
    SCENARIOS.add("long-list-%d" % count, long_list, count=count, at=at)


AGAIN = (("matrix3x3", "matrix3x4"), ("range-clamp-mM", "range-noClamp-m"), ("cdl-Fwd", "cdl-Rev"), ("lut1d-1", "lut1d-3"), ("gamma-basicFwd", "gamma-moncurveRev"), ("log-log10", "log-linToLog"),
         ("ec-linear", "ec-video"), ("group", "matrix3x3"), ("lut3d-tri", "lut1d-1-map"))


def again(S, first, second):
    """A file that is written again, with other contents, is read as it is then."""
    d = S.tmp()
    f = os.path.join(d, "a.clf")
    one, two = plist(S, nodes.make(S, first)), plist(S, nodes.make(S, second), nodes.make(S, "matrix3x3"))
    one.writeFile(f)
    a = S.clf.ProcessList(f)
    ta = a.write().getroot()
    two.writeFile(f)
    b = S.clf.ProcessList(f)
    c = S.clf.ProcessList()
    c.readFile(f)
    trees(S, two.write().getroot(), doc(f), "second file", 4.0)
    trees(S, b.write().getroot(), doc(f), "second list", 4.0)
    trees(S, c.write().getroot(), doc(f), "third list", 4.0)
    trees(S, a.write().getroot(), ta, "first list", 4.0)
    x = [[S.real("x0", 0.0, 1.0), 0.25, 0.75]]
    S.closev(flat(run_list(S, b, x)), flat(run_list(S, two, x)), "second result", scale=16.0, tol=1e-6, ctol=1e-3)
    one.writeFile(f)
    last = S.clf.ProcessList(f)
    trees(S, last.write().getroot(), ta, "first again", 4.0)
    S.closev(flat(run_list(S, last, x)), flat(run_list(S, one, x)), "first result", scale=16.0, tol=1e-6, ctol=1e-3)
    # by another name, and where the first list is written over by what was read
    h = os.path.join(d, "b.clf")
    b.writeFile(h)
    a.writeFile(h)
    trees(S, S.clf.ProcessList(h).write().getroot(), ta, "another file", 4.0)


for a_, b_ in AGAIN:
    SCENARIOS.add("again-%s-%s" % (a_, b_), again, first=a_, second=b_)
    SCENARIOS.add("again-%s-%s" % (b_, a_), again, first=b_, second=a_)


def fewer_features(S, names, bits):
    """What the feature set in use says about extensions does not change what is written and read."""
    pl = plist(S, *[nodes.make(S, k) for k in names])
    d = S.tmp()
    f, g = os.path.join(d, "a.clf"), os.path.join(d, "b.clf")
    pl.writeFile(f)
    old = S.clf.getFeatureCompatibility()
    S.clf.setFeatureCompatibility(bits)
    try:
        back = S.clf.ProcessList(f)
        back.writeFile(g)
    finally:
        S.clf.setFeatureCompatibility(old)
    trees(S, doc(f), doc(g), "second document", 4.0)
    x = [[S.real("x%d" % c, 0.0, 1.0) for c in range(3)]]
    S.closev(flat(run_list(S, back, x)), flat(run_list(S, pl, x)), "result", scale=16.0, tol=1e-6, ctol=1e-3)


for b_ in (0, 1, 2, 15):
    for k_ in (("matrix3x3", "range-clamp-mM", "cdl-Fwd"), ("gamma-basicFwd", "log-log2"), ("ec-linear", "group")):
        SCENARIOS.add("features-%d-%s" % (b_, k_[0]), fewer_features, names=k_, bits=b_)
