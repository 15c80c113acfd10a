"""C30 OCIO configurations"""
import contextlib
import io
import os
import sys

from props.common import *

SCENARIOS = Registry()
BOUNDS = "matrices with all sixteen coefficients and four offsets symbolic within -2..2 or zero, on four pixels; logarithms of symbolic values to bases 2, 10 and others; 1D LUT files of three symbolic entries, " \
         "3D ones of eight, forward and inverse; groups nested up to three deep in both directions; color spaces with either or both directions, up to two sources and two destinations, all settings of the command" \
         "; several matrices in one list or group; one configuration after another"
OUTSIDE = "PyOpenColorIO itself, which a stand-in replaces; offsets of alpha with matrices that leave alpha alone (CLF has no place for them in a 3x4 matrix); search paths of several folders"

PIX = ((0.25, 0.5, -0.75, 1.0), (1.5, 0.0, 0.125, 0.5))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def ocio(S):
    import PyOpenColorIO as OCIO
    OCIO.CONFIGS.clear()
    return OCIO


def converter(S):
    return S.mod("aces.convertOCIOtoCLF")


def nodes_of(S, transform, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pns = converter(S).convertTransformsToProcessNodes(transform, *a, **k)
    return pns, out.getvalue()


def matrix(S, form):
    """Coefficients, offsets and what they do."""
    OCIO = ocio(S)
    m = [1.0 if r == c else 0.0 for r in range(4) for c in range(4)]
    off = [0.0] * 4
    if form != "identity":
        for r in range(3):
            for c in range(3):
                m[4 * r + c] = S.real("m%d%d" % (r, c), -2.0, 2.0)
    if form in ("full", "full-offset", "alpha-row", "alpha-column", "alpha-scale", "alpha-scale-offset"):
        for k in {"full": (3, 7, 11, 12, 13, 14, 15), "full-offset": (3, 7, 11, 12, 13, 14, 15), "alpha-row": (12, 14), "alpha-column": (3, 11), "alpha-scale": (15,), "alpha-scale-offset": (15,)}[form]:
            m[k] = S.real("m%d%d" % (k // 4, k % 4), -2.0, 2.0)
    if form in ("offset", "full-offset", "alpha-scale-offset", "alpha-column-offset"):
        off = S.reals("o", 3 if form == "offset" else 4, -2.0, 2.0)
        if form == "offset":
            off.append(0.0)
    if form == "one-offset":
        off[S.choice("which", (0, 1, 2))] = S.real("o", -2.0, 2.0)
    if form == "alpha-offset":
        m[15] = 0.5
        off[3] = S.real("o", -2.0, 2.0)
    t = OCIO.MatrixTransform(m, off)
    return t, (lambda p: [sum(m[4 * r + c] * p[c] for c in range(4)) + off[r] for r in range(4)])


def matrices(S, form, stride):
    t, f = matrix(S, form)
    alpha = S.Or(*([t.offset[3] == 0.0, t.matrix[15] != 1.0] + [t.matrix[k] != 0.0 for k in (3, 7, 11, 12, 13, 14)]))
    S.assume(alpha)         # see OUTSIDE
    pns, _ = nodes_of(S, t)
    S.true(len(pns) == 1 and pns[0].getNodeType() == "Matrix", "one matrix")
    for p in PIX:
        got = run_list(S, plist(S, *pns), [list(p[:stride])])[0]
        S.closev(got, f(p)[:stride], "result", scale=4.0)


for f_ in ("identity", "plain", "offset", "one-offset", "full", "full-offset", "alpha-row", "alpha-column", "alpha-scale", "alpha-scale-offset", "alpha-offset"):
    SCENARIOS.add("matrix-" + f_, matrices, form=f_, stride=4)
for f_ in ("identity", "plain", "offset", "one-offset"):
    SCENARIOS.add("matrix3-" + f_, matrices, form=f_, stride=3)


def unsupported(S):
    """What has no counterpart is left out and reported."""
    OCIO = ocio(S)
    t = S.choice("t", ("matrix", "log3", "loge", "exponent", "cdl", "space", "file3d", "filecsp", "filexyz"))
    if t == "matrix":
        x = OCIO.MatrixTransform([2.0, 0, 0, 0, 0, 2.0, 0, 0, 0, 0, 2.0, 0, 0, 0, 0, 1.0], (0.0,) * 4, "inverse")
    elif t in ("log3", "loge"):
        x = OCIO.LogTransform(3.0 if t == "log3" else 2.718281828, S.choice("d", ("forward", "inverse")))
    elif t == "exponent":
        x = OCIO.ExponentTransform((2.0,) * 4)
    elif t == "cdl":
        x = OCIO.CDLTransform()
    elif t == "space":
        x = OCIO.ColorSpaceTransform()
    else:
        d, _, name, _ = lut(S, {"file3d": "spi3d"}.get(t, "spi1d"))
        if t == "filexyz":
            os.rename(os.path.join(d, name), os.path.join(d, "a.xyz"))
            name = "a.xyz"
        if t == "filecsp":
            with open(os.path.join(d, "a.csp"), "w") as fp:
                fp.write("CSPLUTV100\n1D\n\nBEGIN METADATA\nEND METADATA\n\n" + "2\n0.0 1.0\n0.0 1.0\n" * 3 + "\n2\n0.0 0.0 0.0\n1.0 1.0 1.0\n")
            name = "a.csp"
        x = OCIO.FileTransform(os.path.join(d, name), "linear", "inverse" if t != "filexyz" else "forward")
    pns, out = nodes_of(S, x)
    S.true(pns == [], "left out")
    said = [w for w in ("not", "Unsupported", "unsupported", "ould") if w in out]
    S.true(bool(said), "reported", repr(out))
    # the rest of a group stays
    if not isinstance(x, OCIO.FileTransform):
        pns, _ = nodes_of(S, OCIO.GroupTransform([OCIO.LogTransform(2.0), x, OCIO.LogTransform(10.0)]))
        S.true([n.getAttribute("style") for n in pns] == ["log2", "log10"], "neighbours")


def log(S):
    OCIO = ocio(S)
    base = S.choice("base", (2, 10, 2.0, 10.0))
    d = S.choice("d", ("forward", "inverse"))
    x = S.reals("x", 3, 0.001, 4.0)
    pns, _ = nodes_of(S, OCIO.LogTransform(base, d))
    S.true(len(pns) == 1 and pns[0].getNodeType() == "Log", "one log")
    got = run_list(S, plist(S, *pns), [x])[0]
    if d == "forward":
        want = [S.log10(v) if base == 10 else S.log10(v) / S.log10(2.0) for v in x]
    else:
        want = [S.pow(10.0 if base == 10 else 2.0, v) for v in x]
    S.closev(got, want, "result", scale=16.0, ctol=1e-3)
    S.true(pns[0].getAttribute("style") == {(10, "forward"): "log10", (10, "inverse"): "antiLog10", (2, "forward"): "log2", (2, "inverse"): "antiLog2"}[int(base), d], "style")


SCENARIOS.add("log", log)


def lut(S, ext, name="a"):
    """Folder, file name and function of a LUT file with symbolic entries."""
    d = S.tmp()
    if ext == "spi1d":
        e = [S.real(name + "e0", -0.25, 0.25)]
        for k in (1, 2):
            e.append(e[-1] + S.real(name + "e%d" % k, 0.125, 1.0))
        text = "Version 1\nFrom 0 1\nLength 3\nComponents 1\n{\n %s\n %s\n %s\n}\n" % tuple(e)

        def at(k):
            return e[k], [e[k]] * 3
    else:
        e = S.reals(name + "e", 24, -1.0, 2.0)
        text = "SPILUT 1.0\n3 3\n2 2 2\n" + "".join("%d %d %d %s %s %s\n" % ((k >> 2, k >> 1 & 1, k & 1) + tuple(e[3 * k:3 * k + 3])) for k in range(8))

        def at(k):
            return None, e[3 * k:3 * k + 3]
    f = "%s.%s" % (name, ext)
    with open(os.path.join(d, f), "w") as fp:
        fp.write(text)
    return d, e, f, at


SCENARIOS.add("unsupported", unsupported)


def files(S, ext):
    """LUT files, found from the search path, forward."""
    OCIO = ocio(S)
    d, e, f, at = lut(S, ext)
    search = S.choice("search", (None, "dir", "up"))
    src = {None: os.path.join(d, f), "dir": f, "up": os.path.join(os.path.basename(d), f)}[search]
    path = {None: None, "dir": d, "up": os.path.dirname(d)}[search]
    interp = S.choice("interpolation", ("linear", "tetrahedral") if ext == "spi3d" else ("linear",))
    args = S.choice("args", ((True, True), (False, True), (False, False)))
    pns, _ = nodes_of(S, OCIO.FileTransform(src, interp), path, *args)
    if ext == "spi1d":
        for (x, v) in ((0.0, e[0]), (0.25, 0.5 * (e[0] + e[1])), (0.5, e[1]), (1.0, e[2]), (0.875, 0.25 * e[1] + 0.75 * e[2])):
            S.closev(run_list(S, plist(S, *pns), [[x] * 3])[0], [v] * 3, "result", scale=1.0, ctol=1e-4)
    else:
        S.true(pns[0].getAttribute("interpolation") == {"linear": "trilinear"}.get(interp, interp), "interpolation")
        for k in range(8):
            S.closev(run_list(S, plist(S, *pns), [[float(k >> 2), float(k >> 1 & 1), float(k & 1)]])[0], at(k)[1], "corner", ctol=1e-4)


SCENARIOS.add("files-1d", files, ext="spi1d")
SCENARIOS.add("files-3d", files, ext="spi3d")


def inverse_files(S, args):
    """Inverse 1D LUT files undo the LUT."""
    OCIO = ocio(S)
    d, e, f, _ = lut(S, "spi1d")
    pns, _ = nodes_of(S, OCIO.FileTransform(f, "linear", "inverse"), d, *args)
    pl = plist(S, *pns)
    # a half-domain table answers exactly at its codes only
    for (x, v) in ((0.0, e[0]), (0.5, e[1]), (1.0, e[2]), (0.25, 0.5 * (e[0] + e[1]))):
        got = run_list(S, pl, [[v] * 3])[0]
        for c in range(3):
            S.close(got[c], x, "undone", tol=1e-6, ctol=1e-3)


SCENARIOS.add("inverse-index", inverse_files, args=(True, False))


def settings(S):
    """The kind of inverse asked for reaches the reader."""
    OCIO = ocio(S)
    C = converter(S)
    seen = []

    class Reader(object):
        @staticmethod
        def read(lutPath, inverse=False, interpolation="linear", inversesUseIndexMaps=True, inversesUseHalfDomain=True, returnProcessNodes=False):
            seen.append((lutPath, bool(inverse), interpolation, inversesUseIndexMaps, inversesUseHalfDomain, returnProcessNodes))
            return [S.clf.Range("16f", "16f", "x%d" % len(seen), "x")]

    a, b = S.choice("index", (True, False)), S.choice("half", (True, False))
    dirs = [S.choice("d%d" % k, ("forward", "inverse")) for k in range(2)]
    interp = S.choice("interpolation", ("linear", "nearest", "tetrahedral", "best"))
    old = C.lutFormats.Registry
    C.lutFormats.Registry = Reader
    try:
        g = OCIO.GroupTransform([OCIO.FileTransform("one.spi1d", interp, dirs[0]), OCIO.GroupTransform([OCIO.FileTransform("two.spi1d", "linear", dirs[1])])])
        way = S.choice("way", ("kw", "pos", "default"))
        with quiet():
            if way == "kw":
                pns = C.convertTransformsToProcessNodes(g, lutSearchPath="/base", inversesUseIndexMaps=a, inversesUseHalfDomain=b)
            elif way == "pos":
                pns = C.convertTransformsToProcessNodes(g, "/base", a, b)
            else:
                a = b = True
                pns = C.convertTransformsToProcessNodes(g, "/base")
    finally:
        C.lutFormats.Registry = old
    S.true([s[:3] for s in seen] == [("/base/one.spi1d", dirs[0] == "inverse", interp), ("/base/two.spi1d", dirs[1] == "inverse", "linear")], "files", repr(seen))
    S.true(all(s[3:] == (a, b, True) for s in seen), "settings", repr(seen))
    S.true([n.getAttribute("id") for n in pns] == ["x1", "x2"], "order")


SCENARIOS.add("settings", settings)


def simple(S, OCIO, k):
    """Transforms that do not commute, those with an inverse only in the forward direction."""
    if k == 0:
        c = S.real("c", -1.0, 1.0)
        t = OCIO.MatrixTransform([2.0, 0, 0, 0, 0, 0.5, 0, 0, 0, 0, 1.5, 0, 0, 0, 0, 1.0], [c, 0.25, c, 0.0])
        return t, lambda v: [2.0 * v[0] + c, 0.5 * v[1] + 0.25, 1.5 * v[2] + c]
    if k == 1:
        t = OCIO.MatrixTransform([0, 1.0, 0, 0, 0, 0, 1.0, 0, 1.0, 0, 0, 0, 0, 0, 0, 1.0])
        return t, lambda v: [v[1], v[2], v[0]]
    t = OCIO.MatrixTransform([1.0, 0, 0, 0, 0, -1.0, 0, 0, 0, 0, 1.0, 0, 0, 0, 0, 1.0], [0.5, 0.0, 0.0, 0.0])
    return t, lambda v: [v[0] + 0.5, -v[1], v[2]]


def groups(S, depth):
    """A group is its members in order."""
    OCIO = ocio(S)
    order = S.choice("order", ((0, 1), (1, 0), (0, 1, 2), (2, 0, 1), (1, 2, 0), (), (0,)))
    parts = [simple(S, OCIO, k) for k in order]
    x = S.reals("x", 3, -1.0, 2.0)
    t = OCIO.GroupTransform([p[0] for p in parts])
    if depth > 1 and len(parts) > 1:
        at = S.choice("at", (0, 1))
        inner = OCIO.GroupTransform([p[0] for p in parts[at:]])
        t = OCIO.GroupTransform([p[0] for p in parts[:at]] + [inner])
    for _ in range(depth - 2):
        t = OCIO.GroupTransform([t])
    pns, _ = nodes_of(S, t)
    S.true(len(pns) == len(parts), "count")
    v = list(x)
    for p in parts:
        v = p[1](v)
    S.closev(run_list(S, plist(S, *pns), [x])[0], v, "result", scale=8.0)


for d_ in (1, 2, 3):
    SCENARIOS.add("groups-%d" % d_, groups, depth=d_)


def inverse_groups(S, depth):
    """An inverse group undoes its members, last first."""
    OCIO = ocio(S)
    kinds = S.choice("kinds", ((2, 10), (10, 2), (2, "lut"), ("lut", 10), (2, 10, "lut")))
    dirs = [S.choice("dir%d" % k, ("forward", "inverse")) for k in range(len(kinds))]
    outer = [S.choice("group%d" % k, ("forward", "inverse")) for k in range(depth)]
    made, want = [], []
    for k, d in zip(kinds, dirs):
        made.append(OCIO.FileTransform("a.spi1d", "linear", d) if k == "lut" else OCIO.LogTransform(k, d))
        want.append([k, d == "forward"])
    t = made
    for d in outer:
        t = [OCIO.GroupTransform(t, d)]
        if d == "inverse":
            want = [[k, not f] for (k, f) in reversed(want)]
    C = converter(S)
    n = [0]

    class Reader(object):
        @staticmethod
        def read(lutPath, inverse=False, *a, **k):
            return [S.clf.Range("16f", "16f", "inv" if inverse else "fwd", "x")]

    old = C.lutFormats.Registry
    C.lutFormats.Registry = Reader
    try:
        pns, _ = nodes_of(S, t[0])
    finally:
        C.lutFormats.Registry = old
    got = []
    for p in pns:
        if p.getNodeType() == "Range":
            got.append(["lut", p.getAttribute("id") == "fwd"])
        else:
            s = p.getAttribute("style")
            got.append([10 if "10" in s else 2, not s.startswith("anti")])
    S.true(got == want, "members", "%s, not %s" % (got, want))


for d_ in (1, 2, 3):
    SCENARIOS.add("inverse-groups-%d" % d_, inverse_groups, depth=d_)


def inverse_group_values(S):
    """Log and LUT of a group and its inverse."""
    OCIO = ocio(S)
    x = S.real("x", 0.5, 4.0)
    g = lambda d: OCIO.GroupTransform([OCIO.LogTransform(2.0), OCIO.LogTransform(10.0, "inverse")], d)      # noqa: E731
    pns, _ = nodes_of(S, g("inverse"))
    got = run_list(S, plist(S, *pns), [[x] * 3])[0]
    S.closev(got, [S.pow(2.0, S.log10(x))] * 3, "result", scale=8.0, ctol=1e-3)


SCENARIOS.add("inverse-group-values", inverse_group_values)


def space(S, OCIO, k, name):
    """A color space of one matrix, and its functions."""
    c = S.real(name, -1.0, 1.0)
    g = (2.0, 0.5, -1.0, 3.0)[k % 4]
    t = OCIO.MatrixTransform([g, 0, 0, 0, 0, 1.0, 0, 0, 0, 0, 0.5, 0, 0, 0, 0, 1.0], [c, 0.25, c, 0.0])
    other = OCIO.MatrixTransform([7.0, 0, 0, 0, 0, 7.0, 0, 0, 0, 0, 7.0, 0, 0, 0, 0, 1.0])
    return t, other, (lambda v: [g * v[0] + c, v[1] + 0.25, 0.5 * v[2] + c])


def run_main(S, argv):
    C = converter(S)
    old = sys.argv
    sys.argv = ["convertOCIOtoCLF.py"] + argv
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            C.main()
    finally:
        sys.argv = old
    return out.getvalue()


def configuration(S, how):
    """Sources to the reference in order, then the reference to the destinations."""
    OCIO = ocio(S)
    ns = S.choice("counts", ((1, 1), (1, 0), (0, 1), (2, 1), (1, 2)))
    spaces, src, dst = {}, [], []
    fs = []
    for k in range(ns[0]):
        t, other, f = space(S, OCIO, k, "s%d" % k)
        spaces["in %d" % k] = OCIO.ColorSpace(t, other)
        src.append("in %d" % k)
        fs.append(f)
    for k in range(ns[1]):
        t, other, f = space(S, OCIO, k + 2, "d%d" % k)
        spaces["out%d" % k] = OCIO.ColorSpace(other, t)
        dst.append("out%d" % k)
        fs.append(f)
    d = S.tmp()
    cfg, out = os.path.join(d, "config.ocio"), os.path.join(d, "a.clf")
    OCIO.CONFIGS[cfg] = OCIO.Config("luts", spaces)
    if how == "main":
        long = S.choice("long", (False, True))
        argv = (["--config", cfg, "--output", out] if long else ["-c", cfg, "-o", out])
        for n in src:
            argv += ["--source" if long else "-s", n]
        for n in dst:
            argv += ["--destination" if long else "-d", n]
        run_main(S, argv)
    else:
        with quiet():
            converter(S).convertOCIOtoCLF(cfg, src, dst, out, True, True)
    if not os.path.exists(out):
        S.fail("written", "nothing")
        return
    pl = S.clf.ProcessList(out)
    x = S.reals("x", 3, -1.0, 2.0)
    v = list(x)
    for f in fs:
        v = f(v)
    S.closev(run_list(S, pl, [x])[0], v, "result", scale=16.0)
    names = ["%s to reference" % n for n in src] + ["reference to %s" % n for n in dst]
    S.true(len(pl) == len(names) and all(n in p.getAttribute("name") for n, p in zip(names, pl)), "names", repr([p.getAttribute("name") for p in pl]))


SCENARIOS.add("configuration-main", configuration, how="main")
SCENARIOS.add("configuration-call", configuration, how="call")


def opposite(S):
    """A color space that defines the other direction only is used inverted."""
    OCIO = ocio(S)
    which = S.choice("which", ("source", "destination"))
    base = S.choice("base", (2, 10))
    d_ = S.choice("d", ("forward", "inverse"))
    form = S.choice("form", ("log", "group", "none"))
    t = OCIO.LogTransform(base, d_)
    if form == "group":
        t = OCIO.GroupTransform([t, OCIO.LogTransform(2, "forward")])
    if form == "none":
        t = None
    sp = OCIO.ColorSpace(None, t) if which == "source" else OCIO.ColorSpace(t, None)
    d = S.tmp()
    cfg, out = os.path.join(d, "config.ocio"), os.path.join(d, "a.clf")
    OCIO.CONFIGS[cfg] = OCIO.Config("", {"x": sp})
    run_main(S, ["-c", cfg, "-o", out, "-s" if which == "source" else "-d", "x"])
    if form == "none":
        S.true(not os.path.exists(out), "nothing to write")
        return
    got = [n.getAttribute("style") for n in S.clf.ProcessList(out)]
    one = ("antiLog%d" if d_ == "forward" else "log%d") % base
    S.true(got == (["antiLog2"] if form == "group" else []) + [one], "inverted", repr(got))


SCENARIOS.add("opposite", opposite)


def files_of_configuration(S):
    """LUT files are found from the configuration's folder and search path; the command's options choose the kind of inverse."""
    OCIO = ocio(S)
    C = converter(S)
    seen = []

    class Reader(object):
        @staticmethod
        def read(lutPath, inverse=False, interpolation="linear", inversesUseIndexMaps=True, inversesUseHalfDomain=True, returnProcessNodes=False):
            seen.append((lutPath, bool(inverse), bool(inversesUseIndexMaps), bool(inversesUseHalfDomain)))
            return [S.clf.Range("16f", "16f", "x%d" % len(seen), "x")]

    search = S.choice("search", ("luts", "", "/abs/luts", "luts/more"))
    d = S.tmp()
    cfg, out = os.path.join(d, "config.ocio"), os.path.join(d, "a.clf")
    OCIO.CONFIGS[cfg] = OCIO.Config(search, {"x": OCIO.ColorSpace(OCIO.FileTransform("f.spi1d"), None), "y": OCIO.ColorSpace(None, OCIO.FileTransform("g.spi1d", "linear", "inverse"))})
    a, b = S.choice("index", (False, True)), S.choice("half", (False, True))
    old = C.lutFormats.Registry
    C.lutFormats.Registry = Reader
    try:
        run_main(S, ["-c", cfg, "-o", out, "-s", "x", "-d", "y"] + (["--inversesUseIndexMaps"] if a else []) + (["--inversesUseHalfDomain"] if b else []))
    finally:
        C.lutFormats.Registry = old
    base = search if search.startswith("/") else os.path.join(d, search)
    S.true([os.path.normpath(s[0]) for s in seen] == [os.path.normpath(os.path.join(base, n)) for n in ("f.spi1d", "g.spi1d")], "paths", repr(seen))
    S.true([s[1] for s in seen] == [False, True], "directions")
    S.true(all(s[2:] == (a, b) for s in seen), "settings", repr(seen))


SCENARIOS.add("files-of-configuration", files_of_configuration)


def incomplete(S):
    """Nothing is written without a configuration, an output or a color space."""
    OCIO = ocio(S)
    d = S.tmp()
    cfg, out = os.path.join(d, "config.ocio"), os.path.join(d, "a.clf")
    OCIO.CONFIGS[cfg] = OCIO.Config("", {"x": OCIO.ColorSpace(OCIO.LogTransform(2), None)})
    left = S.choice("left", ("-c", "-o", "spaces"))
    argv = []
    for (o, v) in (("-c", cfg), ("-o", out), ("spaces", None)):
        if o != left:
            argv += [o, v] if v else [S.choice("kind", ("-s", "-d")), "x"]
    run_main(S, argv)
    S.true(os.listdir(d) == [], "nothing written")


SCENARIOS.add("incomplete", incomplete)


def several_matrices(S, depth):
    """Each transform has its own matrix, in a group or one after the other."""
    OCIO = ocio(S)
    ts, fs = [], []
    for k in range(3):
        m = [1.0 if r == c else 0.0 for r in range(4) for c in range(4)]
        for r in range(3):
            m[5 * r] = S.real("m%d%d" % (k, r), 0.25, 2.0)
        off = [0.0] * 4
        if S.choice("offset%d" % k, (False, True)):
            off[1] = S.real("o%d" % k, -1.0, 1.0)
        ts.append(OCIO.MatrixTransform(m, off))
        fs.append((m, off))
    if depth:
        pns, _ = nodes_of(S, OCIO.GroupTransform(ts))
        made = [[p] for p in pns]
    else:
        made = [nodes_of(S, t)[0] for t in ts]
    S.true([len(p) for p in made] == [1, 1, 1], "nodes")
    for p, (m, off) in zip(made, fs):
        got = run_list(S, plist(S, *p), [[0.25, 0.5, 0.75]])[0]
        S.closev(got, [m[0] * 0.25, m[5] * 0.5 + off[1], m[10] * 0.75], "result", scale=4.0)


SCENARIOS.add("several-matrices", several_matrices, depth=0)
SCENARIOS.add("several-matrices-group", several_matrices, depth=1)


def another_configuration(S):
    """What an earlier file held does not matter."""
    OCIO = ocio(S)
    d, _, name, _ = lut(S, "spi1d")
    f = os.path.join(d, name)
    v = S.reals("v", 2, 0.25, 1.0)
    made = []
    for k in range(2):
        with open(f, "w") as fp:
            fp.write("Version 1\nFrom 0.0 1.0\nLength 2\nComponents 1\n{\n0.0\n%s\n}\n" % v[k])
        made.append(nodes_of(S, OCIO.FileTransform(f, "linear", "forward"))[0])
    for k in range(2):
        S.closev(run_list(S, plist(S, *made[k]), [[1.0, 0.5, 0.0]])[0], [v[k], 0.5 * v[k], 0.0], "result", scale=1.0, ctol=1e-4)


SCENARIOS.add("another-configuration", another_configuration)
