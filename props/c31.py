"""C31 Groups and references"""
import contextlib
import io
import os

from props import nodes
from props.common import *

SCENARIOS = Registry()
BOUNDS = "groups of up to four nodes of every kind with concrete parameters or symbolic matrices and ranges, nested up to three deep, built or read; references with every form of path, symbolic contents, " \
         "chains of three files; two pixels of three or four channels within -1..2 symbolic; groups of up to 40 members and 14 deep, chains of up to 8 files, up to 1100 pixels with two symbolic, " \
         "values of 1e-6 to 1e9" \
         "; referenced files rewritten between two lists, settings or readings; equal file names in two folders"
OUTSIDE = "references that lead back to their own file, and bypassed first or last members (they adapt no bit depth, in lists as in groups)"

AFTER = ("matrix3x3", "range-clamp-mM", "cdl-Fwd", "lut1d-3", "lut3d-tet", "gamma-moncurveFwd", "log-log2", "ec-linear", "matrix4x4", "group-nested", "lut1d-1-map")


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def affine(S, coef, off, i="16f", o="16f", name="m"):
    """Diagonal matrix with offsets."""
    m = S.clf.Matrix(i, o, name, name)
    m.setMatrix([3, 4], [coef[0], 0.0, 0.0, off[0], 0.0, coef[1], 0.0, off[1], 0.0, 0.0, coef[2], off[2]])
    return m


def chain(S, n):
    """n nodes that do not commute; what they do to a pixel."""
    c = S.reals("c", n, -1.0, 1.0)
    made = []
    for k in range(n):
        if k % 2:
            r = S.clf.Range("16f", "16f", "r%d" % k, "r%d" % k)
            r.setMinInValue(0.0)
            r.setMaxInValue(1.0)
            r.setMinOutValue(0.25)
            r.setMaxOutValue(1.25)
            made.append(r)
        else:
            made.append(affine(S, [0.5, -0.75, 2.0], [c[k], 0.25, c[k]], name="m%d" % k))

    def f(p):
        v = list(p)
        for k in range(n):
            if k % 2:
                v = [S.clamp(x, 0.0, 1.0) + 0.25 for x in v]
            else:
                v = [0.5 * v[0] + c[k], -0.75 * v[1] + 0.25, 2.0 * v[2] + c[k]] + v[3:]
        return v

    return made, f


def grouped(S, made, cuts, depth):
    """The nodes from cuts[0] to cuts[1] in a group, nested depth deep."""
    a, b = cuts
    g = S.clf.Group("16f", "16f", "g", "g")
    top = g
    for k in range(depth - 1):
        h = S.clf.Group("16f", "16f", "h%d" % k, "h%d" % k)
        if k == 0 and b - a > 1:
            g.addProcess(made[a])
            a += 1
        g.addProcess(h)
        g = h
    for n in made[a:b]:
        g.addProcess(n)
    return plist(S, *(made[:cuts[0]] + [top] + made[cuts[1]:]))


def contents(S, n, depth):
    """A group is its members, wherever it stands."""
    made, f = chain(S, n)
    cuts = S.choice("cuts", tuple((a, b) for a in range(n + 1) for b in range(a, n + 1)))
    stride = 3 if n % 2 == 0 else S.choice("stride", (3, 4) if n == 1 else (3,))
    px = pixels(S, stride, 2 if n < 3 else 1, -1.0, 2.0)
    pl = grouped(S, made, cuts, depth)
    S.closev(flat(run_list(S, pl, px)), [v for p in px for v in f(p)], "result", scale=4.0)


for n_ in (0, 1, 2, 3, 4):
    for d_ in (1, 2, 3):
        SCENARIOS.add("contents-%d-%d" % (n_, d_), contents, tier="quick" if n_ < 4 else "thorough", n=n_, depth=d_)


def direct(S):
    """A group on its own, given an array or a list."""
    made, f = chain(S, 3)
    g = S.clf.Group("16f", "16f", "g", "g")
    for n in made:
        g.addProcess(n)
    S.true(len(g.getProcesses()) == 3 and all(a is b for a, b in zip(g.getProcesses(), made)), "members")
    px = S.reals("x", 3, -1.0, 2.0)
    values = list(px) if S.choice("as", ("list", "array")) == "list" else arr(S, px)
    with quiet():
        out = g.process(values, stride=3, verbose=S.choice("verbose", (False, True)))
    S.closev(list(out), f(px), "result", scale=4.0)


SCENARIOS.add("direct", direct)

GROUP = '<Group id="g" inBitDepth="16f" outBitDepth="16f">%s</Group>'
MAT = '<Matrix id="m%d" inBitDepth="16f" outBitDepth="16f"><Array dim="3 4 3">%s 0 0 %s 0 %s 0 %s 0 0 %s %s</Array></Matrix>'
CLIP = '<Range id="r" inBitDepth="16f" outBitDepth="16f"><minInValue>0</minInValue><maxInValue>1</maxInValue><minOutValue>0.25</minOutValue><maxOutValue>1.25</maxOutValue></Range>'


def read_group(S, depth, shape):
    """Groups of a document, with their members in order."""
    c = S.reals("c", 2, -1.0, 1.0)
    x = S.reals("x", 3, -1.0, 2.0)
    one = MAT % (1, 0.5, c[0], -0.75, 0.25, 2.0, c[0])
    two = MAT % (2, 2.0, c[1], 1.5, c[1], -1.0, 0.5)
    if shape == "one":
        body = one + CLIP + two
    elif shape == "front":
        body = GROUP % (one + CLIP) + two
    else:
        body = one + GROUP % (CLIP + two)
    for _ in range(depth):
        body = GROUP % body
    f = os.path.join(S.tmp(), "a.clf")
    with open(f, "w") as fp:
        fp.write('<?xml version="1.0"?><ProcessList id="p" compCLFversion="1">%s</ProcessList>' % body)
    with quiet():
        pl = S.clf.ProcessList(f)
    if S.choice("again", (False, True)):
        g = os.path.join(S.tmp(), "b.clf")
        pl.writeFile(g)
        pl = S.clf.ProcessList(g)
    v = [0.5 * x[0] + c[0], -0.75 * x[1] + 0.25, 2.0 * x[2] + c[0]]
    v = [S.clamp(t, 0.0, 1.0) + 0.25 for t in v]
    v = [2.0 * v[0] + c[1], 1.5 * v[1] + c[1], -v[2] + 0.5]
    S.closev(run_list(S, pl, [x])[0], v, "result", scale=4.0)


for d_ in (1, 2, 3):
    for s_ in ("one", "front", "back"):
        SCENARIOS.add("read-group-%d-%s" % (d_, s_), read_group, depth=d_, shape=s_)


def kinds(S, kind, depths, few=False):
    """Members of every kind, at bit depths that differ, read and written or not."""
    stride = max(3, nodes.channels(kind))
    b, c = S.choice("depths", depths)
    first = "matrix3x4" if S.choice("after", (False, True)) else "cdl-FwdNoClamp"
    make = lambda: [nodes.make(S, first, "16f", b), nodes.make(S, kind, b, c), nodes.make(S, "range-noClamp-m", c, "32f")]      # noqa: E731
    px = pixels(S, stride, 1, 0.0, 1.0)
    if few:
        px = [[px[0][0], 0.375, px[0][0]] + px[0][3:]]
    direct_ = run_list(S, plist(S, *make()), px)
    g = S.clf.Group("16f", "32f", "g", "g")
    for n in make():
        g.addProcess(n)
    S.closev(flat(run_list(S, plist(S, g), px)), flat(direct_), "whole", scale=2.0)
    h = S.clf.Group(b, "32f", "h", "h")
    m = make()
    for n in m[1:]:
        h.addProcess(n)
    S.closev(flat(run_list(S, plist(S, m[0], h), px)), flat(direct_), "end", scale=2.0)
    h = S.clf.Group("16f", c, "h", "h")
    m = make()
    for n in m[:2]:
        h.addProcess(n)
    S.closev(flat(run_list(S, plist(S, h, m[2]), px)), flat(direct_), "front", scale=2.0)


for k_ in sorted(nodes.KINDS):
    if k_ in ("lut1d-half", "lut3d-tet-maps", "lut3d-tri-map"):
        continue
    few_ = k_.startswith("lut")
    SCENARIOS.add("kinds-" + k_, kinds, kind=k_, depths=(("16f", "10i"), ("8i", "16f")), few=few_)
    if few_:
        SCENARIOS.add("all-kinds-" + k_, kinds, tier="thorough", kind=k_, depths=(("16f", "10i"), ("8i", "16f")))


def bypassed(S, depth):
    """A bypassed member between others is left out and its neighbours' depths are adapted, as in a list."""
    b, c = S.choice("depths", (("16f", "16f"), ("10i", "16f"), ("16f", "8i"), ("8i", "12i")))
    x = S.reals("x", 3, -1.0, 2.0)
    m = [affine(S, [0.5, 2.0, -1.0], [0.25 * SIZE[b], 0.0, 0.5 * SIZE[b]], "16f", b), nodes.make(S, "lut1d-3", b, c), affine(S, [1.5, 0.5, 1.0], [0.0, 0.125, 0.25], c, "16f")]
    m[1].setAttribute("bypass", True)
    direct_ = run_list(S, plist(S, *m), [x])[0]
    g = S.clf.Group("16f", "16f", "g", "g")
    for n in m:
        g.addProcess(n)
    for k in range(depth - 1):
        h = S.clf.Group("16f", "16f", "h", "h")
        h.addProcess(g)
        g = h
    got = run_list(S, plist(S, g), [x])[0]
    S.closev(got, direct_, "as a list", scale=4.0)


for d_ in (1, 2):
    SCENARIOS.add("bypassed-%d" % d_, bypassed, depth=d_)


def bypassed_group(S):
    """A bypassed group or reference changes nothing."""
    d, _, want = files(S)
    x = S.reals("x", 3, -1.0, 2.0)
    if S.choice("what", ("group", "reference")) == "group":
        n = S.clf.Group("16f", "16f", "g", "g")
        n.addProcess(affine(S, [0.5, 2.0, 3.0], [0.1, 0.2, 0.3]))
    else:
        n = S.clf.Reference("16f", "16f", "r", "r", "one.clf", d)
    n.setAttribute("bypass", S.choice("bypass", (True, False, None)))
    got = run_list(S, plist(S, n), [x])[0]
    if n.getAttribute("bypass"):
        want = x
    elif n.getNodeType() == "Group":
        want = [0.5 * x[0] + 0.1, 2.0 * x[1] + 0.2, 3.0 * x[2] + 0.3]
    else:
        want = want(1, x)
    S.closev(got, want, "result", scale=4.0)


SCENARIOS.add("bypassed-group", bypassed_group)


# ---- references
def files(S, sub=""):
    """one.clf and two.clf of a folder, and what they do."""
    d = os.path.join(S.tmp(), sub) if sub else S.tmp()
    if sub:
        os.makedirs(d)
    c = S.reals("f", 2, -1.0, 1.0)
    plist(S, affine(S, [0.5, 2.0, -1.0], [c[0], 0.25, c[0]])).writeFile(os.path.join(d, "one.clf"))
    plist(S, affine(S, [1.5, -0.5, 3.0], [0.125, c[1], 0.5]), affine(S, [1.0, 1.0, 2.0], [c[1], 0.0, 0.0])).writeFile(os.path.join(d, "two.clf"))

    def want(k, x):
        if k == 1:
            return [0.5 * x[0] + c[0], 2.0 * x[1] + 0.25, -x[2] + c[0]] + list(x[3:])
        return [1.5 * x[0] + 0.125 + c[1], -0.5 * x[1] + c[1], 2.0 * (3.0 * x[2] + 0.5)] + list(x[3:])

    return d, c, want


PLACES = ("absolute", "base", "base/", "below", "up", "cwd", "cwd-below", "cwd-base")


@contextlib.contextmanager
def where(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def place(d, how, name):
    """path, base path, working folder of a reference to d/name."""
    up, last = os.path.split(d)
    return {"absolute": (os.path.join(d, name), "", up), "base": (name, d, up), "base/": (name, d + "/", up), "below": (last + "/" + name, up, d), "up": ("../" + last + "/" + name, d, up),
            "cwd": (name, "", d), "cwd-below": (last + "/" + name, "", up), "cwd-base": (name, last, up), "both": (os.path.join(d, name), up + "/nowhere", up)}[how]


def referring(S, made):
    """However the reference is written down, the file it names is used."""
    d, _, want = files(S, "sub")
    k = S.choice("file", (1, 2))
    path, base, cwd = place(d, S.choice("place", PLACES + ("both",)), ("one.clf", "two.clf")[k - 1])
    alias = S.choice("alias", ("", "anything"))
    stride = S.choice("stride", (3, 4))
    px = pixels(S, stride, 1, -1.0, 2.0)
    with where(cwd), quiet():
        if made == "init":
            r = S.clf.Reference("16f", "16f", "r", "r", path, base, alias)
        elif made == "set":
            r = S.clf.Reference("16f", "16f", "r", "r", "other.clf", d, "b")
            r.setPaths(path, base, alias)
        else:
            t = '<Reference id="r" inBitDepth="16f" outBitDepth="16f"%s%s%s/>' % tuple(
                ' %s="%s"' % (n, v) if v else "" for (n, v) in (("path", path), ("basePath", base), ("alias", alias)))
            if made == "group":
                t = GROUP % t
            f = os.path.join(S.tmp(), "a.clf")
            with open(f, "w") as fp:
                fp.write('<?xml version="1.0"?><ProcessList id="p" compCLFversion="1">%s</ProcessList>' % t)
            pl = S.clf.ProcessList(f)
            r = None
        if r is not None:
            pl = plist(S, r)
            for (n, v) in (("path", path), ("basePath", base), ("alias", alias)):
                S.true(r.getAttribute(n) == (v if v else None), n, "%r" % r.getAttribute(n))
    got = run_list(S, pl, px)
    S.closev(got[0], want(k, px[0]), "result", scale=8.0)


for m_ in ("init", "set", "read", "group"):
    SCENARIOS.add("referring-" + m_, referring, made=m_)


def direct_reference(S):
    """The reference node on its own gives what the file's list gives, for lists and arrays."""
    d, _, want = files(S)
    k = S.choice("file", (1, 2))
    r = S.clf.Reference("16f", "16f", "r", "r", ("one.clf", "two.clf")[k - 1], d)
    px = pixels(S, 3, 2, -1.0, 2.0)
    values = flat(px) if S.choice("as", ("list", "array")) == "list" else arr(S, flat(px))
    with quiet():
        out = list(r.process(values, stride=3, verbose=S.choice("verbose", (False, True))))
    S.closev(out, want(k, px[0]) + want(k, px[1]), "result", scale=8.0)
    pl = S.clf.ProcessList(os.path.join(d, ("one.clf", "two.clf")[k - 1]))
    S.closev(out, flat(run_list(S, pl, px)), "as the file", scale=8.0)


SCENARIOS.add("direct-reference", direct_reference)


def absent(S):
    """No file, no change."""
    d, _, _ = files(S)
    x = S.reals("x", 3, -100.0, 100.0)
    path, base = S.choice("path", (("missing.clf", ""), ("missing.clf", d), ("", ""), ("", d), ("one.clf", d + "/nowhere"), ("one.clf/x", d)))
    r = S.clf.Reference("16f", "16f", "r", "r", path, base)
    way = S.choice("way", ("new", "before", "read"))
    if way == "before":
        r = S.clf.Reference("16f", "16f", "r", "r", "two.clf", d)
        r.setPaths(path, base)
    pl = plist(S, r)
    if way == "read":
        f = os.path.join(S.tmp(), "a.clf")
        pl.writeFile(f)
        with quiet():
            pl = S.clf.ProcessList(f)
        S.true(pl[0].getAttribute("path") == (path or None) and pl[0].getAttribute("basePath") == (base or None), "kept")
    S.samev(run_list(S, pl, [x])[0], x, "unchanged")


SCENARIOS.add("absent", absent)


def retarget(S):
    """Pointing a reference elsewhere counts for processing and for writing."""
    d, _, want = files(S)
    x = S.reals("x", 3, -1.0, 2.0)
    r = S.clf.Reference("16f", "16f", "r", "r", "one.clf", d)
    g = S.clf.Group("16f", "16f", "g", "g")
    g.addProcess(r)
    pl = plist(S, g if S.choice("in", ("list", "group")) == "group" else r)
    steps = S.choice("steps", (("two",), ("two", "one"), ("none", "two"), ("two", "none"), ("two", "two")))
    S.closev(run_list(S, pl, [x])[0], want(1, x), "first", scale=8.0)
    for s in steps:
        if s == "none":
            r.setPaths("missing.clf", d)
            e = list(x)
        elif s == "two":
            r.setPaths(os.path.join(d, "two.clf"))
            e = want(2, x)
        else:
            r.setPaths("one.clf", d, "again")
            e = want(1, x)
        S.closev(run_list(S, pl, [x])[0], e, "after " + s, scale=8.0)
    contained = S.choice("contained", (False, True))
    f = os.path.join(S.tmp(), "a.clf")
    pl.writeFile(f, writeSelfContained=contained)
    with quiet():
        back = S.clf.ProcessList(f)
    S.closev(run_list(S, back, [x])[0], e, "written", scale=8.0)
    if not contained or steps[-1] == "none":
        n = back[0]
        while n.getNodeType() == "Group":
            n = n.getProcesses()[0]
        S.true(n.getNodeType() == "Reference", "a reference")
        for a in ("path", "basePath", "alias"):
            S.true(n.getAttribute(a) == r.getAttribute(a), a)


SCENARIOS.add("retarget", retarget)


def chained(S):
    """Files that refer to files."""
    d, _, want = files(S)
    x = S.reals("x", 3, -1.0, 2.0)
    a = plist(S, affine(S, [2.0, 1.0, 0.5], [0.0, 0.5, 0.25]), S.clf.Reference("16f", "16f", "r", "r", "one.clf", d))
    a.writeFile(os.path.join(d, "a.clf"))
    g = S.clf.Group("16f", "16f", "g", "g")
    g.addProcess(S.clf.Reference("16f", "16f", "r", "r", "a.clf", d))
    g.addProcess(affine(S, [-1.0, 1.0, 2.0], [0.5, 0.0, 0.0]))
    b = plist(S, g)
    how = S.choice("how", ("built", "read", "referred"))
    if how != "built":
        b.writeFile(os.path.join(d, "b.clf"))
        b = S.clf.ProcessList(os.path.join(d, "b.clf")) if how == "read" else plist(S, S.clf.Reference("16f", "16f", "r", "r", os.path.join(d, "b.clf")))
    v = want(1, [2.0 * x[0], x[1] + 0.5, 0.5 * x[2] + 0.25])
    v = [-v[0] + 0.5, v[1], 2.0 * v[2]]
    S.closev(run_list(S, b, [x])[0], v, "result", scale=8.0)


SCENARIOS.add("chained", chained)


def between(S):
    """A reference among other nodes."""
    d, _, want = files(S)
    x = S.reals("x", 3, -1.0, 2.0)
    at = S.choice("at", (0, 1, 2))
    made = [affine(S, [2.0, 1.0, 0.5], [0.0, 0.5, 0.25]), affine(S, [-1.0, 1.0, 2.0], [0.5, 0.0, 0.0])]
    made.insert(at, S.clf.Reference("16f", "16f", "r", "r", "two.clf", d))
    v = list(x)
    for n in made:
        if n.getNodeType() == "Reference":
            v = want(2, v)
        elif n is [m for m in made if m.getNodeType() == "Matrix"][0]:
            v = [2.0 * v[0], v[1] + 0.5, 0.5 * v[2] + 0.25]
        else:
            v = [-v[0] + 0.5, v[1], 2.0 * v[2]]
    S.closev(run_list(S, plist(S, *made), [x])[0], v, "result", scale=16.0)


SCENARIOS.add("between", between)


# ---- larger
def far(S, unit, n, depth):
    """Members see values of any size, and hand them on as they are."""
    c = S.reals("c", n, -1.0, 1.0)
    made = [affine(S, [0.5, -0.75, 2.0], [unit * c[k], unit * 0.25, unit * c[k]], name="m%d" % k) for k in range(n)]
    px = [[unit * v for v in p] for p in pixels(S, 3, 1, -2.0, 2.0)]
    v = list(px[0])
    for k in range(n):
        v = [0.5 * v[0] + unit * c[k], -0.75 * v[1] + unit * 0.25, 2.0 * v[2] + unit * c[k]]
    got = run_list(S, grouped(S, made, S.choice("cuts", ((0, n), (1, n), (0, n - 1), (1, n - 1))), depth), px)[0]
    S.closev(got, v, "result", scale=8.0 * unit * 2 ** max(0, n - 2))


for unit in (1e-6, 1e-3, 300.0, 7e4, 1e8):
    for n, d in ((2, 1), (3, 2), (4, 5)):
        SCENARIOS.add("far-%g-%d-%d" % (unit, n, d), far, unit=unit, n=n, depth=d)


def long_chain(S, n, at):
    """n matrices that do not commute, one of them with arbitrary offsets; what they do."""
    made, fs = [], []
    for k in range(n):
        co = [(0.5, 1.0, 1.25), (1.0, 0.75, 1.0), (1.5, 1.0, 0.8), (1.0, -1.0, 1.0)][k % 4]
        off = S.reals("off%d_" % k, 3, -1.0, 1.0) if k in at else [0.125 * ((k * 3) % 5), -0.25, 0.0625 * (k % 3)]
        made.append(affine(S, co, off, name="m%d" % k))
        fs.append((co, off))

    def f(p):
        v = list(p)
        for co, off in fs:
            v = [co[c] * v[c] + off[c] for c in range(3)] + v[3:]
        return v
    return made, f


def members(S, n, depth, way):
    """Many members, in their order."""
    made, f = long_chain(S, n, (0, n // 2, n - 1))
    cuts = S.choice("cuts", ((0, n), (1, n), (0, n - 1), (n // 3, n // 2)))
    pl = grouped(S, made, cuts, depth)
    if way == "read":
        g = os.path.join(S.tmp(), "a.clf")
        pl.writeFile(g)
        pl = S.clf.ProcessList(g)
    px = pixels(S, 3, 1, -1.0, 2.0)
    S.closev(flat(run_list(S, pl, px)), [v for p in px for v in f(p)], "result", scale=64.0)


for n in (8, 11, 13, 24, 40):
    for d in (1, 2):
        SCENARIOS.add("members-%d-%d" % (n, d), members, n=n, depth=d, way=("built", "read")[(n + d) % 2])
for d in (4, 6, 9, 14):
    SCENARIOS.add("deep-%d" % d, members, n=3, depth=d, way=("built", "read")[d // 2 % 2])


def tree(S, widths):
    """Groups side by side and within one another."""
    total = sum(widths)
    made, f = long_chain(S, total, (0, total - 1))
    at, parts = 0, []
    for k, w in enumerate(widths):
        g = S.clf.Group("16f", "16f", "g%d" % k, "g%d" % (k % 2))
        for n in made[at:at + w]:
            g.addProcess(n)
        at += w
        if parts and k % 3 == 2:
            h = S.clf.Group("16f", "16f", "h%d" % k, "h")
            h.addProcess(parts.pop())
            h.addProcess(g)
            g = h
        parts.append(g)
    pl = plist(S, *parts)
    if S.choice("way", ("built", "read")) == "read":
        q = os.path.join(S.tmp(), "a.clf")
        pl.writeFile(q)
        pl = S.clf.ProcessList(q)
    stride = S.choice("stride", (3, 5))
    px = pixels(S, stride, 2, -1.0, 2.0)
    S.closev(flat(run_list(S, pl, px)), [v for p in px for v in f(p)], "result", scale=64.0)


for w in ((1, 1), (2, 0, 3), (1, 2, 3, 1), (0, 1, 0, 2, 2), (3, 1, 4, 1, 5)):
    SCENARIOS.add("tree-" + "-".join(map(str, w)), tree, widths=w)


def many_pixels(S, count, stride, what):
    """A group or a reference with many pixels at once."""
    made, f = long_chain(S, 3, ())
    if what == "group":
        pl = grouped(S, made, (0, 3), 2)
    else:
        d = S.tmp()
        plist(S, *made).writeFile(os.path.join(d, "one.clf"))
        r = S.clf.Reference("16f", "16f", "r", "r", "one.clf", d)
        pl = plist(S, r)
        if what == "both":
            g = S.clf.Group("16f", "16f", "g", "g")
            g.addProcess(r)
            pl = plist(S, g)
    px = [[((k * 7 + c * 5) % 64) / 32.0 - 0.5 for c in range(stride)] for k in range(count)]
    for k in (count // 2 + 1, count - 1):
        px[k] = S.reals("x%d_" % k, stride, -1.0, 2.0)
    got = run_list(S, pl, px)
    for k in (0, 1, count // 2, count // 2 + 1, count - 2, count - 1):
        S.closev(got[k], f(px[k]), "pixel", scale=4.0)


for k, (count, stride) in enumerate(((5, 3), (17, 4), (70, 3), (300, 5), (1100, 3))):
    for what in ("group", "reference", "both"):
        SCENARIOS.add("pixels-%s-%d-%d" % (what, count, stride), many_pixels, count=count, stride=stride, what=what)


def referring_far(S, unit):
    """The file's list gets the values as they are."""
    d, _, want = files(S)
    x = [unit * v for v in S.reals("x", 3, -2.0, 2.0)]
    k = S.choice("file", (1, 2))
    pl = plist(S, S.clf.Reference("16f", "16f", "r", "r", ("one.clf", "two.clf")[k - 1], d))
    S.closev(run_list(S, pl, [x])[0], want(k, x), "result", scale=16.0 * max(unit, 1.0))


for unit in (1e-5, 100.0, 7e4, 1e9):
    SCENARIOS.add("referring-far-%g" % unit, referring_far, unit=unit)


def long_references(S, n):
    """Files that refer to one another n deep, each adding a matrix, and the same file several times."""
    d, _, want = files(S)
    x = S.reals("x", 3, -1.0, 2.0)
    name = "one.clf"
    v = want(1, x)
    for k in range(n):
        m = affine(S, [0.5, 1.0, -1.0], [0.125 * k, 0.25, 0.5])
        made = [S.clf.Reference("16f", "16f", "r", "r", name, d), m]
        name = "n%d.clf" % k
        plist(S, *made).writeFile(os.path.join(d, name))
        v = [0.5 * v[0] + 0.125 * k, v[1] + 0.25, -v[2] + 0.5]
    twice = S.choice("twice", (False, True))
    made = [S.clf.Reference("16f", "16f", "r", "r", name, d)]
    if twice:
        made += [S.clf.Reference("16f", "16f", "r", "r", "one.clf", d), S.clf.Reference("16f", "16f", "r", "r", "one.clf", d)]
        v = want(1, want(1, v))
    S.closev(run_list(S, plist(S, *made), [x])[0], v, "result", scale=64.0)


for n in (2, 4, 7):
    SCENARIOS.add("long-references-%d" % n, long_references, n=n)


def grown(S, what):
    """Members added after processing count."""
    made, f = long_chain(S, 4, (1, 3))
    g = S.clf.Group("16f", "16f", "g", "g")
    for n in made[:2]:
        g.addProcess(n)
    pl = plist(S, g)
    x = S.reals("x", 3, -1.0, 2.0)
    if what == "written":
        pl.writeFile(os.path.join(S.tmp(), "a.clf"))
    else:
        run_list(S, pl, [x])
    for n in made[2:]:
        g.addProcess(n)
    S.closev(run_list(S, pl, [x])[0], f(x), "result", scale=16.0)
    q = os.path.join(S.tmp(), "b.clf")
    pl.writeFile(q)
    S.closev(run_list(S, S.clf.ProcessList(q), [x])[0], f(x), "read back", scale=16.0)


for w in ("written", "processed"):
    SCENARIOS.add("grown-" + w, grown, what=w)


def rewritten(S, how):
    """A reference uses its file as it was when it was read or set, whatever was at the path before."""
    d, c, want = files(S)
    x = S.reals("x", 3, -1.0, 2.0)
    f = os.path.join(d, "one.clf")
    v = S.reals("v", 3, -1.0, 1.0)

    def other():
        plist(S, affine(S, [1.0, 0.25, 2.0], v)).writeFile(f)
    base = S.choice("base", (True, False))

    def ref():
        return S.clf.Reference("16f", "16f", "r", "r", "one.clf" if base else f, d if base else "")
    after = [x[0] + v[0], 0.25 * x[1] + v[1], 2.0 * x[2] + v[2]]
    with quiet():
        first = plist(S, ref())
        S.closev(run_list(S, first, [x])[0], want(1, x), "first", scale=8.0)
        other()
        if how == "new":
            second = plist(S, ref())
        elif how == "set":
            second = first
            first[0].setPaths("one.clf" if base else f, d if base else "", "")
        else:
            g = os.path.join(S.tmp(), "a.clf")
            first.writeFile(g)
            second = S.clf.ProcessList(g)
        S.closev(run_list(S, second, [x])[0], after, "second", scale=8.0)


for h in ("new", "set", "read"):
    SCENARIOS.add("rewritten-" + h, rewritten, how=h)


def same_names(S):
    """Files of the same name in different folders, and in one list two references to one file."""
    d, c, want = files(S)
    e = os.path.join(d, "sub")
    os.mkdir(e)
    v = S.reals("v", 3, -1.0, 1.0)
    plist(S, affine(S, [1.0, 0.25, 2.0], v)).writeFile(os.path.join(e, "one.clf"))
    x = S.reals("x", 3, -1.0, 2.0)

    def one(y):
        return want(1, y)

    def two(y):
        return [y[0] + v[0], 0.25 * y[1] + v[1], 2.0 * y[2] + v[2]]
    order = S.choice("order", ("ab", "ba", "aa", "bb", "aba"))
    how = S.choice("how", ("base", "path", "cwd"))
    with quiet():
        rs = []
        for k in order:
            w = d if k == "a" else e
            if how == "cwd":
                with where(w):
                    rs.append(S.clf.Reference("16f", "16f", "r", "r", "one.clf"))
            else:
                rs.append(S.clf.Reference("16f", "16f", "r", "r", "one.clf" if how == "base" else os.path.join(w, "one.clf"), w if how == "base" else ""))
        y = x
        for k in order:
            y = one(y) if k == "a" else two(y)
        S.closev(run_list(S, plist(S, *rs), [x])[0], y, "result", scale=16.0)


SCENARIOS.add("same-names", same_names)
