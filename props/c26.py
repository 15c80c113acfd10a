"""C26 The registry of LUT formats"""
import contextlib
import io
import os

from props.luts import *

SCENARIOS = Registry()
BOUNDS = "every registered format, extension and capability, extensions in five spellings and file names of six shapes, the three kinds of LUT data, LUT entries and list answers symbolic; up to three formats " \
         "sharing an extension with any combination of capabilities, each failing or not" \
         "; formats registered while others are in use"
OUTSIDE = "files without an extension whose content would tell the format"

KINDS = ("1D", "3D", "1D_3D_1D")
STYLE = {"1D": "write1D", "3D": "write3D", "1D_3D_1D": "write1D3D1D"}
EXTENSIONS = {"spi1d": ("read", "write1D"), "spi3d": ("read", "write3D"), "csp": ("read", "write1D", "write3D", "write1D3D1D"), "clf": ("write1D3D1D",), "ctl": ("write1D", "write3D"), "spimtx": ()}
NAMES = ("a.%s", "a b.%s", "a.b.%s", ".x.%s", "a.csp.%s", "a.spi1d.%s")


def spelled(S, ext):
    return S.choice("spelling", (ext, ext.upper(), ext.capitalize(), ext[:-1] + ext[-1].upper(), ext[0] + ext[1:].upper()))


def formats(S, ext):
    return [c for c in registry(S).getFormats() if ext in c.extensions()]


def capabilities(S, ext):
    """What is reported for an extension is what the formats do with it."""
    ext_ = spelled(S, ext)
    found = formats(S, ext)
    S.true(len(found) == 1, "registered once")
    c = found[0]
    caps = EXTENSIONS[ext]
    S.true(c.canRead(ext_) == ("read" in caps), "read")
    S.true(c.canWrite1D(ext_) == ("write1D" in caps), "1D")
    S.true(c.canWrite3D(ext_) == ("write3D" in caps), "3D")
    S.true(c.canWrite1D3D1D(ext_) == ("write1D3D1D" in caps), "1D/3D/1D")
    for x in ("read", "write1D", "write3D", "write1D3D1D"):
        S.true(c.isCapable(x, ext_) == (x in caps), "capable of " + x)
    S.true(set(c.capabilities(ext_)) == set(caps), "capabilities")
    for other in ("xyz", ext[:-1], ext[1:], ext + "x", "x" + ext, "." + ext, "a." + ext):
        if other not in EXTENSIONS:
            S.true(not c.capabilities(other) and not c.canRead(other) and not c.isCapable("write1D", other) and not c.canWrite3D(other), "others")
    every = set(x for e in c.extensions() for x in c.capabilities(e))
    S.true(set(c.capabilities()) == every, "of all extensions")
    S.true(len(c.descriptions()) == len(c.extensions()), "described")
    for x in every:
        S.true(c.isCapable(x), "capable of some")


for e in sorted(EXTENSIONS):
    SCENARIOS.add("capabilities-" + e, capabilities, ext=e)


def document(S, ext):
    """Text of a file and what it does to 0.25, 0.5 and 1."""
    if ext == "spi1d":
        e = S.reals("e", 2, -1.0, 1.0)
        return "Version 1\nFrom 0 1\nLength 2\nComponents 1\n{\n %s\n %s\n}\n" % (e[0], e[1]), [0.75 * e[0] + 0.25 * e[1], 0.5 * (e[0] + e[1]), e[1]], e[0]
    e = S.reals("e", 24, -1.0, 1.0) if ext == "spi3d" else S.reals("e", 6, -1.0, 1.0)
    if ext == "spi3d":
        t = "SPILUT 1.0\n3 3\n2 2 2\n"
        for k in range(8):
            t += "%d %d %d %s %s %s\n" % ((k >> 2, k >> 1 & 1, k & 1) + tuple(e[3 * k:3 * k + 3]))
        corner = lambda r, g, b: e[3 * (4 * r + 2 * g + b):][:3]
        want = []
        for c in range(3):
            lo = 0.5 * (corner(0, 0, 1)[c] + corner(0, 1, 1)[c])
            hi = 0.5 * (corner(1, 0, 1)[c] + corner(1, 1, 1)[c])
            want.append(0.75 * lo + 0.25 * hi)
        return t, want, None
    t = "CSPLUTV100\n1D\n\nBEGIN METADATA\nEND METADATA\n\n" + "2\n0.0 1.0\n0.0 1.0\n" * 3 + "\n2\n%s %s %s\n%s %s %s\n" % tuple(e)
    return t, [0.75 * e[0] + 0.25 * e[3], 0.5 * (e[1] + e[4]), e[5]], None


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def reading(S, ext):
    t, want, _ = document(S, ext)
    f = put(S, t, S.choice("name", NAMES) % spelled(S, ext))
    nodes_ = S.choice("nodes", (False, True))
    with quiet():
        got = registry(S).read(f, returnProcessNodes=nodes_)
    if got is None:
        S.fail("read", "nothing for %s" % os.path.basename(f))
        return
    if nodes_:
        S.true(isinstance(got, list) and len(got) > 0, "nodes")
        pl = plist(S, *got)
    else:
        pl = got
        S.true(pl.getNodeType() == "ProcessList" if hasattr(pl, "getNodeType") else hasattr(pl, "process"), "list")
    S.closev(run1(S, pl, [0.25, 0.5, 1.0]), want, "result", scale=1.0, ctol=2e-4)


for e in ("spi1d", "spi3d", "csp"):
    SCENARIOS.add("reading-" + e, reading, ext=e)


def not_read(S):
    """Formats that are not known or not read."""
    ext = S.choice("ext", ("clf", "ctl", "spimtx", "xyz", "CLF", "spi", "spi1", "spi1dx", "txt", ""))
    f = put(S, "Version 1\nFrom 0 1\nLength 2\nComponents 1\n{\n 0.0\n 1.0\n}\n", "a" + ("." + ext if ext else ""))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = registry(S).read(f, returnProcessNodes=S.choice("nodes", (False, True)))
    S.true(got is None, "nothing")
    S.true(out.getvalue().strip() != "", "reported")


SCENARIOS.add("not-read", not_read)


def refused_inverse(S):
    """Kinds without an inverse do not give the forward transform instead."""
    ext = S.choice("ext", ("spi3d", "csp"))
    t, want, _ = document(S, ext)
    f = put(S, t, "a." + ext)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = registry(S).read(f, inverse=True, returnProcessNodes=S.choice("nodes", (False, True)))
    S.true(got is None, "nothing")
    S.true(out.getvalue().strip() != "", "reported")


SCENARIOS.add("no-inverse", refused_inverse)


def writing(S, ext):
    kind = S.choice("kind", KINDS)
    name = S.choice("name", NAMES[:4]) % spelled(S, ext)
    f = os.path.join(S.tmp(), name)
    p = Probe(S)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        registry(S).write(p, f, kind, lutResolution1d=2, lutResolution3d=2, lutResolution1d3d1d=[2, 2, 2], shaperIn=[None, 0.0, 1.0], shaperOut=[None, 0.0, 1.0])
    if STYLE[kind] not in EXTENSIONS.get(ext, ()):
        S.true(not os.path.exists(f), "nothing is written")
        S.true(os.listdir(os.path.dirname(f)) == [], "nothing at all is written")
        S.true(out.getvalue().strip() != "", "reported")
        return
    S.true(os.path.exists(f), "written")
    S.true(os.listdir(os.path.dirname(f)) == [name], "nothing else is written")
    want = p.at(1.0, 1.0, 1.0)
    if want is None:
        S.fail("sampled", "not at 1")
        return
    if ext == "ctl":
        S.true("lookup" + kind in get(f), "kind")
        return
    with quiet():
        pl = S.clf.ProcessList(f) if ext == "clf" else registry(S).read(f)
    S.closev(run1(S, pl, [1.0, 1.0, 1.0]), want, "result", scale=1.0, tol=1e-6, ctol=2e-4)
    if kind != "1D":
        S.closev(run1(S, pl, [1.0, 0.0, 0.0]), p.at(1.0, 0.0, 0.0), "result", scale=1.0, tol=1e-6, ctol=2e-4)


for e in sorted(EXTENSIONS) + ["xyz"]:
    SCENARIOS.add("writing-" + e, writing, ext=e)


def defaults(S):
    """What is written without settings: 1024 samples of 0 to 1."""
    ext = S.choice("ext", ("spi1d", "csp", "ctl"))
    f = put(S, "", "a." + ext)
    calls = []

    class List:
        def process(self, values, stride=0, verbose=False):
            calls.append([float(v) for v in values])
            return S.np.array([v * 0.5 for v in values], dtype=S.np.float32)
    with quiet():
        registry(S).write(List(), f)
    S.true(len(calls) == 1024 and calls[0] == [0.0] * 3 and calls[-1] == [1.0] * 3 and near(calls[1][0], 1.0 / 1023), "samples")


SCENARIOS.add("defaults", defaults)


# ------------------------------------------------------------- formats that share an extension
def several(S, n):
    """The first capable format that does not fail is used, and told what was asked for."""
    R = registry(S)
    saved = dict(R.lutFormats)
    log = []
    kind = S.choice("kind", ("read",) + KINDS)
    flags = []
    v = S.real("v", -1.0, 1.0)

    def make(k):
        able, works = S.choice("able%d" % k, (False, True)), S.choice("works%d" % k, (False, True))
        flags.append((able, works))

        class Fake:
            @classmethod
            def extensions(cls):
                return ["abc", "def"] if k % 2 else ["abc"]

            @classmethod
            def isCapable(cls, what, extension=None):
                return able and what == ("read" if kind == "read" else STYLE[kind])

            @classmethod
            def canRead(cls, extension=None):
                return cls.isCapable("read", extension)

            @classmethod
            def read(cls, *a):
                log.append((k, a))
                if not works:
                    return []
                r = S.clf.Range("16f", "16f", "r", "r", "noClamp")
                r.setMinInValue(0.0)
                r.setMaxInValue(1.0)
                r.setMinOutValue(v + k)
                r.setMaxOutValue(v + k + 1.0)
                return [r]

            @classmethod
            def write(cls, *a):
                log.append((k, a))
                return works
        return Fake
    try:
        R.lutFormats.clear()
        for k in range(n):
            R.registerLutFormat("F%d" % k, make(k))
        f = os.path.join("dir", S.choice("name", ("a.abc", "a.ABC", "x.def.Abc")))
        out = io.StringIO()
        marks = ["i%d" % j for j in range(12)]
        with contextlib.redirect_stdout(out):
            if kind == "read":
                got = R.read(f, marks[0], marks[1], marks[2], marks[3])
            else:
                got = R.write(marks[9], f, kind, *marks[:7])
    finally:
        R.lutFormats.clear()
        R.lutFormats.update(saved)
    want = []
    used = None
    for k, (able, works) in enumerate(flags):
        if able:
            want.append(k)
            if works:
                used = k
                break
    S.true([k for k, a in log] == want, "formats tried", "%r instead of %r" % ([k for k, a in log], want))
    for k, a in log:
        if kind == "read":
            S.true(list(a) == [f] + marks[:4], "told", "%r" % (a,))
        else:
            S.true(list(a) == [marks[9], f, STYLE[kind]] + marks[:7], "told", "%r" % (a,))
    if used is None:
        S.true(got is None, "nothing")
        S.true(out.getvalue().strip() != "", "reported")
    elif kind == "read":
        S.closev(run1(S, got, [0.0, 1.0, 0.5]), [v + used, v + used + 1.0, v + used + 0.5], "result", scale=1.0)


SCENARIOS.add("several-1", several, n=1)
SCENARIOS.add("several-2", several, n=2)
SCENARIOS.add("several-3", several, n=3)


def wrapped(S):
    """The list made of the nodes that were read keeps their order and has an id."""
    e = S.reals("e", 4, 0.125, 1.0)
    lo = S.choice("lo", (0.0, 0.5, -1.0))
    f = put(S, "Version 1\nFrom %s 2.0\nLength 4\nComponents 1\n{\n%s\n%s\n%s\n%s\n}\n" % ((lo,) + tuple(e)), "a.spi1d")
    with quiet():
        pl = registry(S).read(f)
        nds = registry(S).read(f, returnProcessNodes=True)
    S.true([n.getNodeType() for n in pl] == [n.getNodeType() for n in nds], "the same nodes")
    S.true(pl.getID() not in (None, ""), "id")
    x = [[lo, 2.0, lo + 0.4 * (2.0 - lo)]]
    S.closev(flat(run_list(S, pl, x)), flat(run_list(S, plist(S, *nds), x)), "result", scale=2.0)


SCENARIOS.add("wrapped", wrapped)


def without(S, ext):
    """Names without an extension are in no known format, whatever directory they are in."""
    where = S.choice("where", ("", "dir." + ext, "a.b"))
    name = S.choice("name", (ext, "." + ext, "a" + ext, "a." + ext + "."))
    d = os.path.join(S.tmp(), where)
    if where:
        os.makedirs(d)
    f = os.path.join(d, name)
    here = os.getcwd()
    relative = S.choice("relative", (False, True))
    out = io.StringIO()
    try:
        if relative:
            os.chdir(d)
        g = name if relative else f
        with contextlib.redirect_stdout(out):
            if ext in ("spi1d", "spi3d", "csp"):
                t, want, _ = document(S, ext)
                with open(f, "w") as fp:
                    fp.write(t)
                S.true(registry(S).read(g) is None, "not read")
                os.remove(f)
            for kind in KINDS:
                registry(S).write(Probe(S), g, kind, lutResolution1d=2, lutResolution3d=2, lutResolution1d3d1d=[2, 2, 2])
    finally:
        os.chdir(here)
    S.true(os.listdir(d) == [], "nothing is written")
    S.true(out.getvalue().strip() != "", "reported")


for e in sorted(EXTENSIONS):
    SCENARIOS.add("without-" + e, without, ext=e)


def registered(S):
    """Formats registered later are found, those taken away are not; a name registered anew replaces the old one."""
    R = registry(S)
    saved = dict(R.lutFormats)
    v = S.real("v", -1.0, 1.0)

    def make(ext, w):
        class Fake:
            @classmethod
            def extensions(cls):
                return [ext]

            @classmethod
            def isCapable(cls, what, extension=None):
                return what == "read" and extension in (None, ext)

            @classmethod
            def canRead(cls, extension=None):
                return cls.isCapable("read", extension)

            @classmethod
            def read(cls, *a):
                r = S.clf.Range("16f", "16f", "r", "r", "noClamp")
                r.setMinInValue(0.0)
                r.setMinOutValue(w)
                return [r]
        return Fake
    order = S.choice("order", ("read first", "register first"))
    d = S.tmp()

    def get_(name):
        with quiet():
            return R.read(os.path.join(d, name))
    try:
        f = put(S, "Version 1\nFrom 0.0 1.0\nLength 2\nComponents 1\n{\n0.0\n1.0\n}\n", "a.spi1d")
        if order == "read first":
            with quiet():
                S.true(R.read(f) is not None, "known format")
            S.true(get_("x.qqq") is None, "not yet")
        R.registerLutFormat("QQQ", make("qqq", v))
        got = get_("x.qqq")
        S.true(got is not None, "new format")
        if got is not None:
            S.closev(run1(S, got, [0.0, 0.5, 1.0]), [v, v + 0.5, v + 1.0], "new format", scale=2.0)
        R.registerLutFormat("QQQ", make("qqq", v + 1.0))
        got = get_("x.qqq")
        if got is not None:
            S.closev(run1(S, got, [0.0, 0.5, 1.0]), [v + 1.0, v + 1.5, v + 2.0], "replaced", scale=2.0)
        R.registerLutFormat("RRR", make("rrr", v + 2.0))
        got = get_("x.rrr")
        S.true(got is not None, "another format")
        S.true(get_("x.sss") is None, "unknown format")
        with quiet():
            S.true(R.read(f) is not None, "known format")
    finally:
        R.lutFormats.clear()
        R.lutFormats.update(saved)


SCENARIOS.add("registered", registered)
