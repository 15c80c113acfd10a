"""C35 Documents are read by their meaning, not their form"""
import contextlib
import io
import os

from props import nodes
from props.common import *

SCENARIOS = Registry()
BOUNDS = "a document of one node of every kind in seven spellings (spacing and line breaks, order of attributes and of elements, namespaces, comments, descriptions, element name spellings, other white space), " \
         "or leaving out any optional attribute or element; parameters and pixels symbolic where numbers are written in decimal; every argument of every node left out"
OUTSIDE = "documents in encodings other than ASCII; DTDs and entities; more than one node and one extra element per document"


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def read(S, text, name="a.clf"):
    f = os.path.join(S.tmp(), name)
    with open(f, "w") as fp:
        fp.write(text)
    with quiet():
        return S.clf.ProcessList(f)


def element(tag, attrs, children, form, text=None):
    """One element in the given form. children: strings; text: numbers."""
    attrs = list(attrs)
    if form in ("reversed", "mixed"):
        attrs.reverse()
    sep = "\n    " if form in ("spread", "mixed") else " "
    quote = "'" if form == "reversed" else '"'
    a = "".join("%s%s=%s%s%s" % (sep, k, quote, v, quote) for k, v in attrs)
    children = list(children)
    if form in ("reordered", "mixed"):
        children.reverse()
    if form == "described":
        children = ["<Description>some 1 2 3</Description>"] + children + ["<Description/>"]
    if form == "commented":
        children = ["<!-- <Array dim='2 2'>0 0 0 0</Array> -->"] + children + ["<?app data?>"]
    if text is not None:
        glue = {"spread": "\n\n\t ", "mixed": " \t", "tight": " "}.get(form, " ")
        pad = {"spread": "\n ", "mixed": "\t", "tight": ""}.get(form, "")
        body = pad + glue.join("%s" % v for v in text) + pad
        if form == "commented":
            body = "<!-- 9 9 -->" + body
    else:
        body = ("\n  " if form in ("spread", "described") else "").join(children)
    pre = "c:" if form == "prefixed" else ""
    if not body and form in ("plain", "reversed"):
        return "<%s%s%s/>" % (pre, tag, a)
    return "<%s%s%s>%s</%s%s%s>" % (pre, tag, a, body, pre, tag, " " if form == "spread" else "")


def document(form, body):
    pre = "c:" if form == "prefixed" else ""
    ns = {"prefixed": ' xmlns:c="urn:NAMESPACE"', "namespace": ' xmlns="urn:NAMESPACE"'}.get(form, "")
    head = {"plain": '<?xml version="1.0" encoding="UTF-8"?>\n', "tight": "", "commented": '<?xml version="1.0"?><!-- first -->'}.get(form, '<?xml version="1.0" ?>\n')
    inside = {"commented": "<!-- before -->%s<!-- after -->", "described": "<Description>x</Description><Info><AppRelease>1</AppRelease></Info>%s<Description>y</Description>",
              "spread": "\n\n  %s\n\n"}.get(form, "%s")
    return "%s<%sProcessList%s id=\"p\" compCLFversion=\"1.2\">%s</%sProcessList>\n" % (head, pre, ns, inside % body, pre)


FORMS = ("plain", "spread", "reversed", "reordered", "namespace", "prefixed", "described", "commented", "mixed", "tight")


def base(i, o, *more):
    return [("id", "n1"), ("name", "true"), ("inBitDepth", i), ("outBitDepth", o)] + list(more)


def matrix(S, form, i, o):
    m = S.reals("m", 12, -2.0, 2.0)
    n = S.clf.Matrix(i, o, "n1", "true")
    n.setMatrix([3, 4], list(m))
    return element("Matrix", base(i, o), [element("Array", [("dim", "3 4 3")], [], form, m)], form), n


def rng(S, form, i, o, style):
    v = S.reals("v", 3, 0.0, 0.25)
    n = S.clf.Range(i, o, "n1", "true", style)
    vals = (("minInValue", SIZE[i] * v[0]), ("maxInValue", SIZE[i] * 0.75), ("minOutValue", SIZE[o] * v[1]), ("maxOutValue", SIZE[o] * (0.5 + v[2])))
    n.setMinInValue(vals[0][1])
    n.setMaxInValue(vals[1][1])
    n.setMinOutValue(vals[2][1])
    n.setMaxOutValue(vals[3][1])
    return element("Range", base(i, o, *([("style", style)] if style else [])), [element(t, [], [], form, [x]) for t, x in vals], form), n


def cdl(S, form, i, o, style, tag="ASC_CDL", sat="SatNode", parts=("Slope", "Offset", "Power", "Saturation")):
    v = S.reals("v", 2, 0.5, 1.5)
    n = S.clf.ASCCDL(i, o, "n1", "true", style)
    vals = {"Slope": [v[0], 0.75, 1.25], "Offset": [0.125, -0.0625, v[1] - 0.75], "Power": [1.5, 2.0, 1.0], "Saturation": [v[1]]}
    for t in parts:
        getattr(n, "set" + t)(*vals[t])
    sop = [element(t, [], [], form, vals[t]) for t in parts if t != "Saturation"]
    kids = [element(tag.replace("ASC", "SOP").replace("_CDL", "Node") if False else "SOPNode", [], sop, form)] if sop else []
    if "Saturation" in parts:
        kids.append(element(sat, [], [element("Saturation", [], [], form, vals["Saturation"])], form))
    return element(tag, base(i, o, *([("style", style)] if style else [])), kids, form), n


def lut1d(S, form, i, o, cols, maps=False):
    size = 3
    t = [SIZE[o] * x for x in S.reals("t", size * cols, 0.0, 1.0)]
    n = S.clf.LUT1D(i, o, "n1", "true", "linear")
    kids = []
    if maps:
        n.setIndexMaps([[0.0, SIZE[i] * 0.25, SIZE[i]], [0.0, 1.0, 2.0]])
        kids.append(element("IndexMap", [("dim", "3")], [], form, ["0.0@0", "%s@1" % (SIZE[i] * 0.25), "%s@2" % SIZE[i]]))
    n.setArray(cols, t)
    kids.append(element("Array", [("dim", "%d %d" % (size, cols))], [], form, t))
    return element("LUT1D", base(i, o, ("interpolation", "linear")), kids, form), n


def lut3d(S, form, i, o, interpolation):
    t = S.reals("t", 24, 0.0, 1.0)
    t = [SIZE[o] * x for x in t]
    n = S.clf.LUT3D(i, o, "n1", "true", interpolation)
    n.setArray([2, 2, 2], t)
    return element("LUT3D", base(i, o, ("interpolation", interpolation)), [element("Array", [("dim", "2 2 2 3")], [], form, t)], form), n


def gamma(S, form, i, o, style, offset=True):
    n = S.clf.Gamma(i, o, "n1", "true", style)
    kids = []
    for c, g, f in zip("RGB", (2.0, 2.4, 1.5), (0.055, 0.099, 0.16)):
        n.setGamma(g, f if offset else 0.0, c)
        kids.append(element("GammaParams", [("channel", c), ("gamma", g)] + ([("offset", f)] if offset else []), [], form))
    return element("Gamma", base(i, o, ("style", style)), kids, form), n


def log(S, form, i, o, style):
    n = S.clf.Log(i, o, "n1", "true", style)
    kids = []
    for k, c in enumerate("RGB"):
        v = (0.6 + 0.05 * k, 685.0 - k, 95.0 + k, 1.0 + 0.125 * k, 0.0625 * k)
        n.setLogParams(*(v + (c,)))
        kids.append(element("LogParams", list(zip(("gamma", "refWhite", "refBlack", "highlight", "shadow"), v)) + [("channel", c)], [], form))
    return element("Log", base(i, o, ("style", style)), kids, form), n


def ec(S, form, i, o, style):
    n = S.clf.ExposureContrast(i, o, "n1", "true", style)
    v = S.reals("v", 1, 0.125, 0.5)
    n.setExposureContrastPivot(0.5, 1.5, v[0])
    return element("ExposureContrast", base(i, o, ("style", style)), [element("ECParams", [("exposure", 0.5), ("contrast", 1.5), ("pivot", v[0])], [], form)], form), n


def group(S, form, i, o):
    a, m = matrix(S, form, i, "16f")
    r = S.clf.Range("16f", o, "n1", "true", "clamp")
    b = element("Range", base("16f", o, ("style", "clamp")), [element(t, [], [], form, [x]) for t, x in (("minInValue", 0.0), ("minOutValue", 0.25 * SIZE[o]))], form)
    r.setMinInValue(0.0)
    r.setMinOutValue(0.25 * SIZE[o])
    g = S.clf.Group(i, o, "n1", "true")
    g.addProcess(m)
    g.addProcess(r)
    kids = [a, b] if form not in ("reordered", "mixed") else [b, a]
    return element("Group", base(i, o), kids, form), g


KINDS = {"matrix": (matrix, {}), "range": (rng, {"style": ""}), "range-noClamp": (rng, {"style": "noClamp"}), "cdl-FwdNoClamp": (cdl, {"style": "FwdNoClamp"}), "cdl-Rev": (cdl, {"style": "Rev"}),
         "lut1d-1": (lut1d, {"cols": 1}), "lut1d-3": (lut1d, {"cols": 3}), "lut1d-map": (lut1d, {"cols": 1, "maps": True}), "lut3d-tri": (lut3d, {"interpolation": "trilinear"}),
         "lut3d-tet": (lut3d, {"interpolation": "tetrahedral"}), "gamma-moncurveFwd": (gamma, {"style": "moncurveFwd"}), "gamma-basicRev": (gamma, {"style": "basicRev", "offset": False}),
         "log-logToLin": (log, {"style": "logToLin"}), "log-log2": (log, {"style": "log2"}), "ec-linear": (ec, {"style": "linear"}), "ec-video": (ec, {"style": "video"}), "group": (group, {})}


def pix(S, kind, i):
    ch = (1,) if kind.startswith(("lut", "log", "gamma")) else (0, 2)
    lo = 0.0625 if kind.startswith(("log", "ec")) else -0.25
    return [[S.real("x%d" % c, lo * SIZE[i], 1.25 * SIZE[i]) if c in ch else SIZE[i] * (0.25, 0.6875, 0.4375)[c] for c in range(3)]]


def spelled(S, kind, forms, i, o):
    """The form of a document does not matter."""
    form = S.choice("form", forms)
    f, kw = KINDS[kind]
    text, node = f(S, form, i, o, **kw)
    pl = read(S, document(form, text))
    S.eq(len(pl), 1, "nodes")
    S.eq([pl[0].getNodeType(), pl[0].getAttribute("id"), pl[0].getAttribute("name"), pl[0].getInBitDepth(), pl[0].getOutBitDepth()], [node.getNodeType(), "n1", "true", i, o], "node")
    S.eq([pl.getID(), pl.getCompCLFversion()], ["p", "1.2"], "list")
    x = pix(S, kind, i)
    S.closev(flat(run_list(S, pl, x)), flat(run_node(S, node, x)), "result", scale=4.0 * SIZE[o], tol=1e-9)


DEPTHPAIRS = (("16f", "16f"), ("10i", "16f"), ("16f", "12i"), ("8i", "32f"))
for k, kind in enumerate(sorted(KINDS)):
    i, o = DEPTHPAIRS[k % 4]
    for j in range(0, len(FORMS), 5):
        SCENARIOS.add("spelled-%s-%d" % (kind, j // 5), spelled, kind=kind, forms=FORMS[j:j + 5], i=i, o=o, conf={"weight": 2})
        SCENARIOS.add("spelled-%s-%s-%d" % (kind, DEPTHPAIRS[(k + 1) % 4], j // 5), spelled, tier="thorough", kind=kind, forms=FORMS[j:j + 5], i=DEPTHPAIRS[(k + 1) % 4][0], o=DEPTHPAIRS[(k + 1) % 4][1])

NUMBERS = {"1.5": 1.5, "2": 2.0, "+0.75": 0.75, ".5": 0.5, "-1.": -1.0, "1e-1": 0.1, "2.5E+1": 25.0, "-0": 0.0, "00012": 12.0, "0.1234567890123": 0.1234567890123}


def decimals(S):
    """Spellings of numbers."""
    t = S.choice("number", tuple(sorted(NUMBERS)))
    v = NUMBERS[t]
    x = S.reals("x", 3, -1.0, 1.0)
    where = S.choice("where", ("matrix", "range", "cdl", "gamma", "log", "ec", "lut", "map"))
    kw = base("16f", "16f")
    if where == "matrix":
        pl = read(S, document("plain", element("Matrix", kw, [element("Array", [("dim", "3 3 3")], [], "plain", [t, 0, 0, 0, 1, 0, 0, 0, t])], "plain")))
        want = [v * x[0], x[1], v * x[2]]
    elif where == "range":
        pl = read(S, document("plain", element("Range", kw + [("style", "noClamp")], [element("minInValue", [], [], "plain", [t]), element("minOutValue", [], [], "plain", [t])], "plain")))
        S.closev([pl[0].getValueElement("minInValue"), pl[0].getValueElement("minOutValue")], [v, v], "limits")
        want = x
    elif where == "cdl":
        pl = read(S, document("plain", element("ASC_CDL", kw + [("style", "FwdNoClamp")], ["<SOPNode><Offset>%s 0 %s</Offset></SOPNode>" % (t, t)], "plain")))
        want = [x[0] + v, x[1], x[2] + v]
    elif where == "ec":
        pl = read(S, document("plain", element("ExposureContrast", kw + [("style", "linear")], ['<ECParams exposure="1" contrast="1" pivot="%s"/>' % t], "plain")))
        S.assume(v > 0.0)
        want = [2.0 * u for u in x]
        S.assume(x[0] > 0.01)
        S.assume(x[1] > 0.01)
        S.assume(x[2] > 0.01)
    elif where == "lut":
        pl = read(S, document("plain", element("LUT1D", kw, [element("Array", [("dim", "2 1")], [], "plain", [t, 0.5])], "plain")))
        want = [v + S.clamp(u, 0.0, 1.0) * (0.5 - v) for u in x]
    elif where == "map":
        S.assume(v < 1.5)
        pl = read(S, document("plain", element("LUT1D", kw, [element("IndexMap", [("dim", "2")], [], "plain", [t + "@0", "2@1"]), element("Array", [("dim", "2 1")], [], "plain", [0.0, 1.0])], "plain")))
        want = [S.clamp((u - v) / (2.0 - v), 0.0, 1.0) for u in x]
    elif where == "gamma":
        pl = read(S, document("plain", element("Gamma", kw + [("style", "basicFwd")], ['<GammaParams gamma="1" offset="%s"/>' % t], "plain")))
        want = [S.max(u, 0.0) for u in x]
    else:
        pl = read(S, document("plain", element("Log", kw + [("style", "antiLog2")], ['<LogParams gamma="%s"/>' % t], "plain")))
        want = None
    if want is not None:
        S.closev(run_list(S, pl, [x])[0], want, "result", scale=32.0)


SCENARIOS.add("decimals", decimals, conf={"weight": 3})


def left_out(S, what):
    """Optional parts take their defaults when they are left out."""
    x = S.reals("x", 3, 0.0625, 1.0)
    if what == "cdl":
        parts = S.choice("parts", ((), ("Slope",), ("Offset",), ("Power",), ("Saturation",), ("Slope", "Power"), ("Offset", "Saturation")))
        style = S.choice("style", ("Fwd", "FwdNoClamp", ""))
        text, n = cdl(S, "plain", "16f", "16f", style, parts=parts)
        pl = read(S, document("plain", text))
        n = S.clf.ASCCDL("16f", "16f", "", "", style or "Fwd")
        v = S.reals("v", 2, 0.5, 1.5)
        n.setSlope(*([v[0], 0.75, 1.25] if "Slope" in parts else [1.0] * 3))
        n.setOffset(*([0.125, -0.0625, v[1] - 0.75] if "Offset" in parts else [0.0] * 3))
        n.setPower(*([1.5, 2.0, 1.0] if "Power" in parts else [1.0] * 3))
        n.setSaturation(v[1] if "Saturation" in parts else 1.0)
        want = run_node(S, n, [x])[0]
    elif what == "attributes":
        gone = S.choice("gone", ("inBitDepth", "outBitDepth", "id", "name", "all"))
        m = S.reals("m", 9, -2.0, 2.0)
        attrs = [a for a in base("16f", "16f") if a[0] != gone and gone != "all"]
        pl = read(S, document("plain", element("Matrix", attrs, [element("Array", [("dim", "3 3 3")], [], "plain", m)], "plain")))
        want = [sum((m[3 * r + c] * x[c] for c in range(3)), 0.0) for r in range(3)]
    elif what == "range":
        # no style is clamping; a lone minimum shifts
        pl = read(S, document("plain", '<Range inBitDepth="16f" outBitDepth="16f"><minInValue>0.5</minInValue><minOutValue>0.25</minOutValue></Range>'))
        want = [S.max(v - 0.25, 0.25) for v in x]
    elif what == "gamma":
        style = S.choice("style", ("basicFwd", "moncurveFwd"))
        kids = S.choice("kids", ('', '<GammaParams gamma="2"/>', '<GammaParams gamma="2" channel="G"/>'))
        pl = read(S, document("plain", '<Gamma inBitDepth="16f" outBitDepth="16f" style="%s">%s</Gamma>' % (style, kids)))
        want = [v * v if kids and ("channel" not in kids or c == 1) else v for c, v in enumerate(x)]
    elif what == "log":
        given = S.choice("given", (("gamma", 0.5), ("refWhite", 700.0), ("refBlack", 90.0), ("highlight", 1.25), ("shadow", 0.125), None))
        style = S.choice("style", ("linToLog", "logToLin"))
        kids = "" if given is None else '<LogParams %s="%s"/>' % given
        pl = read(S, document("plain", '<Log inBitDepth="16f" outBitDepth="16f" style="%s">%s</Log>' % (style, kids)))
        v = dict(gamma=0.6, refWhite=685.0, refBlack=95.0, highlight=1.0, shadow=0.0)
        if given:
            v[given[0]] = given[1]
        n = S.clf.Log("16f", "16f", "", "", style)
        n.setLogParams(v["gamma"], v["refWhite"], v["refBlack"], v["highlight"], v["shadow"])
        x = [x[0], 0.25, 0.5]
        want = run_node(S, n, [x])[0]
    elif what == "ec":
        given = S.choice("given", ("", 'exposure="1.0"', 'contrast="1.5"', 'pivot="0.5"', None))
        pl = read(S, document("plain", '<ExposureContrast inBitDepth="16f" outBitDepth="16f" style="linear">%s</ExposureContrast>' % ("" if given is None else "<ECParams %s/>" % given)))
        want = [2.0 * v for v in x] if given and "exposure" in given else [S.pow(v, 1.5) for v in x] if given and "contrast" in given else x
    elif what == "lut1d":
        t = S.reals("t", 3, 0.0, 1.0)
        pl = read(S, document("plain", '<LUT1D inBitDepth="16f" outBitDepth="16f"><Array dim="3 1">%s %s %s</Array></LUT1D>' % tuple(t)))
        want = [S.ite(v <= 0.5, t[0] + 2.0 * v * (t[1] - t[0]), t[1] + (2.0 * v - 1.0) * (t[2] - t[1])) for v in x]
    elif what == "lut3d":
        t = S.reals("t", 8, 0.0, 1.0)
        rows = " ".join("%s %s %s" % (t[k], t[(3 * k + 1) % 8], t[(5 * k + 2) % 8]) for k in range(8))
        pl = read(S, document("plain", '<LUT3D inBitDepth="16f" outBitDepth="16f"><Array dim="2 2 2 3">%s</Array></LUT3D>' % rows))
        r, g, b = x
        want = []
        for c, (p, q) in enumerate(((1, 0), (3, 1), (5, 2))):
            u = 0.0
            for k in range(8):
                w = (r if k & 4 else 1.0 - r) * (g if k & 2 else 1.0 - g) * (b if k & 1 else 1.0 - b)
                u = u + w * t[(p * k + q) % 8]
            want.append(u)
    S.closev(run_list(S, pl, [x])[0], want, "result", scale=4.0)


for w in ("cdl", "attributes", "range", "gamma", "log", "ec", "lut1d", "lut3d"):
    SCENARIOS.add("left-out-" + w, left_out, what=w, conf={"weight": 2})


BODY = {"Gamma": '<GammaParams gamma="2.0"/>', "Log": "", "ExposureContrast": '<ECParams exposure="1.0" contrast="1.5" pivot="0.5"/>', "LUT1D": '<Array dim="4 1">0 0.5 0.25 1</Array>',
        "LUT3D": '<Array dim="2 2 2 3">0 0.5 0.25 1 0.5 0 0.25 0.75 1 0 0.125 0.5 0.5 0.75 1 0 0 0.25 0.375 0.5 0.125 1 1 0</Array>',
        "ASCCDL": "<SOPNode><Slope>2 1 1</Slope><Power>2 1 1.5</Power></SOPNode>", "Range": "<minInValue>0.25</minInValue><maxInValue>0.5</maxInValue><minOutValue>0</minOutValue><maxOutValue>0.75</maxOutValue>"}
STYLES = {"Gamma": ("style", "basicFwd"), "Log": ("style", "log10"), "ExposureContrast": ("style", "linear"), "LUT1D": ("interpolation", "linear"), "LUT3D": ("interpolation", "trilinear"),
          "ASCCDL": ("style", "Fwd"), "Range": ("style", "clamp")}


def style_left_out(S, tag):
    """A node without a style, in a document or made without one, is of the default style."""
    key, default = STYLES[tag]
    full = '<%s inBitDepth="16f" outBitDepth="16f" %s="%s">%s</%s>' % (tag, key, default, BODY[tag], tag)
    x = S.reals("x", 3, -0.25, 1.25)
    if tag in ("LUT1D", "LUT3D"):
        x = [x[0], 0.375, 0.8125]
    want = run_list(S, read(S, document("plain", full)), [x])[0]
    depths = S.choice("depths", (True, False))
    part = '<%s%s>%s</%s>' % (tag, ' inBitDepth="16f" outBitDepth="16f"' if depths else "", BODY[tag], tag)
    S.samev(run_list(S, read(S, document("plain", part)), [x])[0], want, "document")
    n = getattr(S.clf, tag)()
    S.eq([n.getInBitDepth(), n.getOutBitDepth()], ["16f", "16f"], "depths")
    if tag == "Gamma":
        n.setGamma(2.0)
    elif tag == "ExposureContrast":
        n.setExposureContrastPivot(1.0, 1.5, 0.5)
    elif tag == "LUT1D":
        n.setArray(1, [0.0, 0.5, 0.25, 1.0])
    elif tag == "LUT3D":
        n.setArray([2, 2, 2], [float(v) for v in BODY[tag].split(">")[1].split("<")[0].split()])
    elif tag == "ASCCDL":
        n.setSlope(2.0, 1.0, 1.0)
        n.setPower(2.0, 1.0, 1.5)
    elif tag == "Range":
        n.setMinInValue(0.25)
        n.setMaxInValue(0.5)
        n.setMinOutValue(0.0)
        n.setMaxOutValue(0.75)
    S.samev(run_list(S, plist(S, n), [x])[0], want, "made")


for t in sorted(STYLES):
    SCENARIOS.add("style-left-out-" + t, style_left_out, tag=t, conf={"weight": 2})


def arguments(S, what):
    """Arguments left out of setters."""
    x = S.reals("x", 3, 0.0625, 1.0)
    if what == "log":
        v = dict(gamma=0.6, refWhite=685.0, refBlack=95.0, highlight=1.0, shadow=0.0)
        given = S.choice("given", (("gamma", 0.5), ("refWhite", 700.0), ("refBlack", 90.0), ("highlight", 1.25), ("shadow", 0.125), None))
        style = S.choice("style", ("linToLog", "logToLin"))
        x = [x[0], 0.25, 0.5]
        n, m = S.clf.Log("16f", "16f", "", "", style), S.clf.Log("16f", "16f", "", "", style)
        n.setLogParams(**({given[0]: given[1]} if given else {}))
        if given:
            v[given[0]] = given[1]
        m.setLogParams(v["gamma"], v["refWhite"], v["refBlack"], v["highlight"], v["shadow"])
    elif what == "gamma":
        style = S.choice("style", ("moncurveFwd", "moncurveRev"))
        n, m = S.clf.Gamma("16f", "16f", "", "", style), S.clf.Gamma("16f", "16f", "", "", style)
        n.setGamma(2.0)
        m.setGamma(2.0, 0.0)
    S.samev(run_node(S, n, [x])[0], run_node(S, m, [x])[0], "result")


for w in ("log", "gamma"):
    SCENARIOS.add("arguments-" + w, arguments, what=w, conf={"weight": 2})


def names(S):
    """Spellings of element names."""
    tag = S.choice("tag", ("ASC_CDL", "ASC-CDL", "ASCCDL"))
    sop = S.choice("sop", ("SOPNode", "SopNode", "SOPnode"))
    sat = S.choice("sat", ("SatNode", "SATNode"))
    v = S.reals("v", 2, 0.5, 1.5)
    pl = read(S, document("plain", '<%s inBitDepth="16f" outBitDepth="16f" style="FwdNoClamp"><%s><Slope>%s 1 1</Slope></%s><%s><Saturation>%s</Saturation></%s></%s>' % (tag, sop, v[0], sop, sat, v[1], sat, tag)))
    S.eq(len(pl), 1, "nodes")
    x = S.reals("x", 3, 0.0, 1.0)
    y = [x[0] * v[0], x[1], x[2]]
    luma = 0.2126 * y[0] + 0.7152 * y[1] + 0.0722 * y[2]
    S.closev(run_list(S, pl, [x])[0], [luma + v[1] * (u - luma) for u in y], "result", scale=4.0)


SCENARIOS.add("names", names)


def order(S):
    """Several nodes with other elements in between keep their order."""
    m = S.reals("m", 3, -2.0, 2.0)
    between = S.choice("between", ("", "<Description>x</Description>", "<Info><Copyright>c</Copyright></Info>", "<!-- c -->", "<Unknown/>", "\n\n"))
    at = S.choice("at", (0, 1, 2, 3))
    body = ['<Matrix id="m%d" inBitDepth="16f" outBitDepth="16f"><Array dim="3 4 3">%s 0 0 %s 0 1 0 0 0 0 1 0</Array></Matrix>' % (k, m[k], 0.25 * k) for k in range(3)]
    body.insert(at, between)
    pl = read(S, document("plain", "".join(body)))
    S.eq([n.getAttribute("id") for n in pl], ["m0", "m1", "m2"], "order")
    x = S.reals("x", 3, -1.0, 1.0)
    S.closev(run_list(S, pl, [x])[0], [(x[0] * m[0] * m[1] + 0.25) * m[2] + 0.5, x[1], x[2]], "result", scale=16.0)


SCENARIOS.add("order", order)
