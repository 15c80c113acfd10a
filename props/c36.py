"""C36 Printed information"""
import contextlib
import io
import os

from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "every node kind with symbolic parameters within [-100,100] (positive where the node needs it), as built and as read back, attributes and bit depths from choices; arrays of 2 to 40 rows and 1 to 5 columns and lattices of up to " \
         "12 rows, index maps of 2 to 40 points; lists with attributes, descriptions, info and dynamic parameters, groups nested three deep and references to files; verbose processing of chains of up to four nodes, " \
         "bypassed ones, groups and references included, with symbolic pixels"
OUTSIDE = "the layout of the text; digits after the ninth of array values; what is printed while files are read; arrays of nodes of integer output depth, which are shown without their fraction"


def printed(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*a, **k)
    return out.getvalue().split("\n"), r


def parse(S, lines):
    """Blocks of what is said, in order."""
    blocks = []
    cur = None
    part = None

    def start(kind):
        b = {"kind": kind, "Attribute": {}, "Element": {}, "Value": {}, "Dynamic Parameter": [], "texts": [], "arrays": [], "maps": [], "Resolved Path": None}
        blocks.append(b)
        return b
    for line in lines:
        w = [x.strip() for x in line.split(" : ")]
        t = line.strip()
        if t == "ProcessList":
            cur, part = start("ProcessList"), None
        elif w[0] == "ProcessNode type":
            cur, part = start(w[1]), None
        elif t == "" or t in ("Process Nodes", "Values", "Info"):
            continue
        elif t == "Array":
            part = {"rows": []}
            cur["arrays"].append(part)
        elif t == "IndexMap":
            part = {"pairs": []}
            cur["maps"].append(part)
        elif w[0] == "Dimensions":
            part["dim"] = [int(x) for x in w[1].strip("[]()").split(",")]
        elif w[0] == "Length":
            part["length"] = int(w[1])
        elif w[0] == "map":
            part["pairs"] += [[S.num(y) for y in x.split(",")] for x in w[1].split()]
        elif w[0] in ("Attribute", "Element", "Value"):
            cur[w[0]][w[1]] = " : ".join(w[2:])
            part = None
        elif w[0] == "Dynamic Parameter":
            cur[w[0]].append(w[1])
        elif w[0] == "Resolved Path":
            cur[w[0]] = w[1]
        elif len(w) == 2 and w[0] in ("Description", "AppRelease", "Copyright", "Release", "InputDescriptor", "OutputDescriptor"):
            cur["texts"].append((w[0], w[1]))
        elif part is not None and "rows" in part:
            part["rows"].append(None if t == "..." else [S.num(x) for x in t.split()])
        elif part is not None and "pairs" in part:
            part["pairs"].append(None if t == "..." else [S.num(x) for x in t.split(",")])
        else:
            S.fail("layout", "unexpected line %r" % line)
    return blocks


def numbers(S, text):
    return [S.num(x.strip()) for x in text.strip("[]").split(",")]


def shorten(rows, limit):
    return list(rows) if len(rows) < limit else list(rows[:3]) + [None] + list(rows[-3:])


def compare(S, got, want, label, tol=1e-8):
    S.true(len(got) == len(want), label + " count", "%d instead of %d" % (len(got), len(want)))
    for a, b in zip(got, want):
        if a is None or b is None:
            S.true(a is None and b is None, label + " gap")
        else:
            S.true(len(a) == len(b), label + " width", "%r" % (a,))
            S.closev(a, b, label, scale=1.0, tol=tol, ctol=1e-5)


def block(S, b, kind, attributes=None, values=None, elements=None, arrays=(), maps=(), whole=False):
    S.true(b["kind"] == kind, "type", "%s instead of %s" % (b["kind"], kind))
    for k, v in (attributes or {}).items():
        S.true(b["Attribute"].get(k) == str(v), "attribute " + k, "%r instead of %r" % (b["Attribute"].get(k), v))
    for name, want in (("Value", values or {}), ("Element", elements or {})):
        S.true(sorted(b[name]) == sorted(want), name + " names", "%r instead of %r" % (sorted(b[name]), sorted(want)))
        for k, v in want.items():
            if k in b[name]:
                got = numbers(S, b[name][k])
                v = list(v) if isinstance(v, (list, tuple)) else [v]
                S.true(len(got) == len(v), k + " count")
                S.closev(got, v, k, scale=1.0, ctol=1e-5)
    S.true(len(b["arrays"]) == len(arrays), "arrays", "%d" % len(b["arrays"]))
    for a, (dim, vals) in zip(b["arrays"], arrays):
        S.true(a["dim"] == list(dim), "dimensions", "%r instead of %r" % (a["dim"], dim))
        cols = dim[-1] if len(dim) in (2, 4) else dim[1]
        rows = [vals[k:k + cols] for k in range(0, len(vals), cols)]
        want = shorten(rows, 11)
        if whole:
            S.true(len(a["rows"]) == len(want), "rows")
            for g, w in zip(a["rows"], want):
                if w is not None:
                    S.true(S.And(*[S.And(x - y < 1.0, y - x < 1.0) for x, y in zip(g, w)]), "whole part")
        else:
            compare(S, a["rows"], want, "array")
    S.true(len(b["maps"]) == len(maps), "index maps", "%d" % len(b["maps"]))
    for m, (xs, ys) in zip(b["maps"], maps):
        S.true(m["length"] == len(xs), "length", "%r" % m["length"])
        compare(S, m["pairs"], shorten([list(p) for p in zip(xs, ys)], 15), "map")


def node(S, kind, i="16f", o="16f"):
    """A node with symbolic parameters and what is to be said about it."""
    c = S.clf
    w = dict(attributes={"inBitDepth": i, "outBitDepth": o, "id": "i", "name": "n"})
    if kind.startswith("matrix"):
        dim = [int(x) for x in kind[6:].split("x")]
        n = c.Matrix(i, o, "i", "n")
        v = S.reals("m", dim[0] * dim[1], -100.0, 100.0)
        n.setMatrix(dim, v)
        w["arrays"] = [(dim, v)]
        return n, "Matrix", w
    if kind == "range":
        style = S.choice("style", ("", "clamp", "noClamp"))
        n = c.Range(i, o, "i", "n", style)
        if style:
            w["attributes"]["style"] = style
        w["elements"] = {}
        which = S.choice("which", ("none", "min", "max", "both"))
        for k in ("minInValue", "minOutValue", "maxInValue", "maxOutValue"):
            if which in ("both", k[:3]):
                v = S.real(k, -100.0, 100.0)
                getattr(n, "set" + k[0].upper() + k[1:])(v)
                w["elements"][k] = v
        return n, "Range", w
    if kind == "cdl":
        style = S.choice("style", ("Fwd", "Rev", "FwdNoClamp", "RevNoClamp"))
        n = c.ASCCDL(i, o, "i", "n", style)
        w["attributes"]["style"] = style
        w["values"] = {}
        for k in ("slope", "offset", "power"):
            if S.choice("has " + k, (True, False)):
                v = S.reals(k, 3, -100.0, 100.0)
                getattr(n, "set" + k.capitalize())(*v)
                w["values"][k] = v
        if S.choice("has saturation", (True, False)):
            v = S.real("saturation", 0.0, 100.0)
            n.setSaturation(v)
            w["values"]["saturation"] = v
        return n, "ASC_CDL", w
    if kind in ("gamma", "log"):
        names = {"gamma": ("gamma", "offset"), "log": ("gamma", "ref white", "ref black", "highlight", "shadow")}[kind]
        defaults = {"gamma": (1.0, 0.0), "log": (0.6, 685.0, 95.0, 1.0, 0.0)}[kind]
        style = S.choice("style", {"gamma": ("basicFwd", "moncurveRev"), "log": ("log10", "antiLog2", "linToLog")}[kind])
        n = (c.Gamma if kind == "gamma" else c.Log)(i, o, "i", "n", style)
        w["attributes"]["style"] = style
        vals = {k: [d] * 3 for k, d in zip(names, defaults)}
        for step, ch in enumerate(S.choice("channels", ((), (None,), ("R",), ("G", "B"), (None, "B"), ("R", "G", "B"), ("G", None), ("B", "B")))):
            p = S.reals("p%d" % step, len(names), 0.125, 100.0)
            (n.setGamma if kind == "gamma" else n.setLogParams)(*(list(p) + [ch]))
            for k, v in zip(names, p):
                vals[k] = [v] * 3 if ch is None else [v if "RGB"[q] == ch else vals[k][q] for q in range(3)]
        w["values"] = vals
        return n, kind.capitalize(), w
    if kind == "ec":
        style = S.choice("style", ("linear", "video", "log"))
        n = c.ExposureContrast(i, o, "i", "n", style)
        w["attributes"]["style"] = style
        v = [0.0, 1.0, 1.0]
        if S.choice("set", (True, False)):
            v = [S.real("e", -100.0, 100.0), S.real("c", 0.0, 100.0), S.real("p", 0.125, 100.0)]
            n.setExposureContrastPivot(*v)
        w["values"] = dict(zip(("exposure", "contrast", "pivot"), v))
        return n, "ExposureContrast", w
    raise KeyError(kind)


def one(S, kind, read=False):
    i, o = S.choice("depths", (("16f", "16f"), ("10i", "32f")))
    n, t, w = node(S, kind, i, o)
    dyn = S.choice("dynamic", ((), ("EXPOSURE",), ("EXPOSURE", "CONTRAST")))
    for d in dyn:
        n.setDynamicParam(d)
    texts = S.choice("texts", ((), ("some text",), ("one", "two words")))
    for x in texts:
        n.addElement(S.clf.Description(x))
    if S.choice("bypassed", (False, True)):
        n.setAttribute("bypass", True)
        w["attributes"]["bypass"] = True
    if read:
        f = os.path.join(S.tmp(), "a.clf")
        plist(S, n).writeFile(f)
        n = S.clf.ProcessList(f)[0]
    bs = parse(S, printed(n.printInfo)[0])
    S.true(len(bs) == 1, "one node")
    block(S, bs[0], t, **w)
    S.true(bs[0]["Dynamic Parameter"] == list(dyn), "dynamic parameters", repr(bs[0]["Dynamic Parameter"]))
    S.true([x for k, x in bs[0]["texts"]] == list(texts), "descriptions", repr(bs[0]["texts"]))


for k_ in ("matrix3x3", "matrix3x4", "matrix4x4", "matrix4x5", "matrix3x3x3", "matrix3x4x3", "range", "cdl", "gamma", "log", "ec"):
    SCENARIOS.add("one-" + k_, one, kind=k_)
    SCENARIOS.add("read-" + k_, one, kind=k_, read=True)


def lut(S, what, dims, maps, o="16f", read=False, encoding="string"):
    c = S.clf
    total = 1
    for d in dims:
        total *= d
    total = total if what == 1 else total * 3
    vals = S.reals("e", total, -100.0, 100.0)
    how = S.choice("interpolation", ("linear", "cubic") if what == 1 else ("trilinear", "tetrahedral"))
    if what == 1:
        n = c.LUT1D("16f", o, "i", "n", how)
        n.setArray(dims[1], vals)
        dim = list(dims)
        sizes = [dims[0]] * 3
    else:
        n = c.LUT3D("16f", o, "i", "n", how)
        n.setArray(list(dims), vals)
        dim = list(dims) + [3]
        sizes = list(dims)
    ms = []
    for q in range(maps[0]):
        xs = [k * 0.25 + q for k in range(maps[1])]
        ys = [(sizes[q] - 1.0) * k / (maps[1] - 1.0) for k in range(maps[1])]
        if read:        # indices are written as whole numbers
            ys = [float(int(y)) for y in ys]
        k = S.choice("point%d" % q, (0, 1, maps[1] - 1) if q == 0 else (1,))
        ys[k] = S.int("y%d" % q, 0, sizes[q] - 1) if read else S.real("y%d" % q, 0.0, sizes[q] - 1.0)
        ms.append((xs, ys))
    if ms:
        n.setIndexMaps(*[[list(x), list(y)] for x, y in ms])
    if read:
        f = os.path.join(S.tmp(), "a.clf")
        plist(S, n).writeFile(f)
        n = S.clf.ProcessList(f)[0]
    bs = parse(S, printed(n.printInfo)[0])
    S.true(len(bs) == 1, "one node")
    block(S, bs[0], "LUT%dD" % what, attributes={"inBitDepth": "16f", "outBitDepth": o, "interpolation": how, "id": "i", "name": "n"}, arrays=[(dim, vals)], maps=ms, whole=o != "16f")


for rows, cols, mp in ((2, 1, (0, 0)), (3, 3, (1, 2)), (9, 1, (3, 3)), (10, 3, (1, 14)), (11, 1, (1, 15)), (12, 3, (3, 16)), (40, 1, (1, 40))):
    SCENARIOS.add("lut1d-%d-%d" % (rows, cols), lut, what=1, dims=(rows, cols), maps=mp)
    SCENARIOS.add("read-lut1d-%d-%d" % (rows, cols), lut, what=1, dims=(rows, cols), maps=mp, read=True)
for s, mp in (((2, 2, 2), (0, 0)), ((2, 3, 2), (3, 3)), ((1, 5, 2), (0, 0)), ((3, 2, 2), (1, 15))):
    SCENARIOS.add("lut3d-%d%d%d" % s, lut, what=3, dims=s, maps=mp)
    SCENARIOS.add("read-lut3d-%d%d%d" % s, lut, what=3, dims=s, maps=mp, read=True)
SCENARIOS.add("lut1d-integers", lut, what=1, dims=(3, 3), maps=(0, 0), o="10i")
SCENARIOS.add("lut1d-integers-long", lut, what=1, dims=(12, 1), maps=(0, 0), o="8i")


def holder(S, depth, read=False):
    """Lists, groups and references: everything in order, once."""
    d = S.tmp()
    c = S.clf
    v = S.reals("v", 6, -100.0, 100.0)

    def r(k):
        n = c.Range("16f", "16f", "r%d" % k, "name %d" % k, "noClamp")
        n.setMinOutValue(v[k])
        n.setMinInValue(0.0)
        return n
    inner = plist(S, r(4))
    inner.setID("inner")
    path = os.path.join(d, "inner.clf")
    inner.writeFile(path)
    order = []

    def make(k):
        if k == 0:
            order.append(("Range", 0))
            return r(0)
        g = c.Group("16f", "16f", "g%d" % k, "group %d" % k)
        order.append(("Group", k))
        order.append(("Range", k))
        g.addProcess(r(k))
        g.addProcess(make(k - 1))
        return g
    pl = c.ProcessList()
    pl.setID("the id")
    pl.setName("the name")
    pl.setCompCLFversion(1.0)
    pl.addElement(c.Description("a text"))
    pl.addElement(c.Info("release", "owner"))
    pl.addProcess(make(depth))
    where = S.choice("where", ("here", "none", "gone"))
    if where != "none":
        ref = c.Reference("16f", "16f", "f", "reference", "inner.clf" if where == "here" else "gone.clf", d)
        pl.addProcess(ref)
        order.append(("Reference", None))
        if where == "here":
            order.append(("ProcessList", None))
            order.append(("Range", 4))
    pl.addProcess(r(5))
    order.append(("Range", 5))
    if read:
        f = os.path.join(d, "a.clf")
        pl.writeFile(f)
        pl = c.ProcessList(f)
    before = run_list(S, pl, [[1.0, 2.0, 3.0]])[0]
    bs = parse(S, printed(pl.printInfo)[0])
    S.true(bs[0]["kind"] == "ProcessList" and bs[0]["Attribute"].get("id") == "the id" and bs[0]["Attribute"].get("name") == "the name", "list", repr(bs[0]["Attribute"]))
    S.true(sorted(bs[0]["texts"]) == sorted([("Description", "a text"), ("AppRelease", "release"), ("Copyright", "owner")]), "texts", repr(bs[0]["texts"]))
    S.true([b["kind"] for b in bs[1:]] == [k for k, _ in order], "nodes", "%r" % [b["kind"] for b in bs[1:]])
    for b, (t, k) in zip(bs[1:], order):
        if t == "Range":
            block(S, b, "Range", attributes={"id": "r%d" % k, "name": "name %d" % k}, elements={"minInValue": 0.0, "minOutValue": v[k]})
        elif t == "Group":
            block(S, b, "Group", attributes={"id": "g%d" % k, "name": "group %d" % k})
        elif t == "Reference":
            S.true(b["Resolved Path"] == os.path.join(d, "inner.clf" if where == "here" else "gone.clf"), "path", repr(b["Resolved Path"]))
        else:
            S.true(b["Attribute"].get("id") == "inner", "referenced list", repr(b["Attribute"]))
    S.samev(run_list(S, pl, [[1.0, 2.0, 3.0]])[0], before, "unchanged")


for dep in (0, 1, 2, 3):
    SCENARIOS.add("holder-%d" % dep, holder, depth=dep)
    SCENARIOS.add("read-holder-%d" % dep, holder, depth=dep, read=True)


def stages(lines):
    """What verbose processing says: (node name, values)."""
    out = []
    for line in lines:
        if " - result value : " in line:
            head, rest = line.split(" - result value : ", 1)
            if head.startswith("Group - "):
                head = head[len("Group - "):]
            out.append((head.rsplit(" (", 1)[0], rest.split(", result type")[0].split()))
    return out


def verbose(S, n, how):
    """The results said are those after each node, and the outcome is that of quiet processing."""
    c = S.clf
    px = S.reals("x", 6, -4.0, 4.0)
    nds, want = [], []
    state = list(px)
    adapted = S.choice("depth", ("16f", "10i")) if how == "bypass" else "16f"
    for k in range(n):
        m = c.Range("16f", "16f", "r", "node %d" % k, "noClamp")
        o = S.real("o%d" % k, -4.0, 4.0)
        m.setMinInValue(0.0)
        m.setMinOutValue(o)
        nds.append(m)
        off = how == "bypass" and k == 1
        if off:
            m.setAttribute("bypass", True)
            if adapted == "10i":
                nds[0].setAttribute("outBitDepth", "10i")
                m.setAttribute("inBitDepth", "10i")
        else:
            state = [x + o for x in state]
            want.append(("node %d" % k, list(state)))
    if how == "bypass" and adapted == "10i":
        # the first node works in code values, and its result is taken back to 0..1
        first = [x + 0.0 for x in px]
        out0 = list(nds[0].process(arr(S, first), stride=3))
        want = [("node 0", out0), ("adapter", [x / 1023.0 for x in out0])]
        state = [x / 1023.0 for x in out0]
        for k in range(2, n):
            state = [x + nds[k].getValueElement("minOutValue") for x in state]
            want.append(("node %d" % k, list(state)))
    if how == "group":
        g = c.Group("16f", "16f", "g", "group")
        for m in nds:
            g.addProcess(m)
        pl = plist(S, g)
        want.append(("group", want[-1][1]))
    elif how == "reference":
        f = os.path.join(S.tmp(), "b.clf")
        plist(S, *nds).writeFile(f)
        r = c.Reference("16f", "16f", "f", "reference", f)
        pl = plist(S, r)
        want.append(("reference", want[-1][1]))
    else:
        pl = plist(S, *nds)
    quiet_ = list(pl.process(arr(S, px), stride=3))
    lines, out = printed(pl.process, arr(S, px), stride=3, verbose=True)
    S.samev(list(out), quiet_, "outcome")
    got = stages(lines)
    S.true([k for k, v in got] == [k for k, v in want], "nodes", "%r instead of %r" % ([k for k, v in got], [k for k, v in want]))
    for (k, v), (_, w) in zip(got, want):
        S.true(len(v) == len(w), "values")
        S.closev([S.num(x) for x in v], w, k, scale=1.0, tol=1e-6, ctol=2e-5)


for n_ in (1, 2, 4):
    for h in ("list", "group", "reference"):
        SCENARIOS.add("verbose-%s-%d" % (h, n_), verbose, n=n_, how=h)
SCENARIOS.add("verbose-bypass-3", verbose, n=3, how="bypass")
SCENARIOS.add("verbose-bypass-4", verbose, n=4, how="bypass")
