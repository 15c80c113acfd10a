"""C27 Command line converters"""
import contextlib
import io
import os
import sys

from props.luts import *

SCENARIOS = Registry()
BOUNDS = "every option of both converters given or left out, in short and long form, in several orders and combinations, shaper limits symbolic; whole conversions of lists with symbolic parameters to every format and of " \
         "LUT files with symbolic entries" \
         "; up to four conversions in a row; each setting left out in calls of the library"
OUTSIDE = "numbers that are no numbers (the option parser refuses them) and options given several times (the first shaper and 1D/3D/1D resolution count, the last of the others); the OCIO converter is C30"


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def run_main(S, module, argv):
    m = S.mod("aces." + module)
    old = sys.argv
    sys.argv = [module + ".py"] + [str(a) for a in argv]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            m.main()
    finally:
        sys.argv = old
    return out.getvalue()


WRITE = ("processList", "lutPath", "lutDataFormat", "lutResolution1d", "lutResolution3d", "lutResolution1d3d1d", "inputMin", "inputMax", "shaperIn", "shaperOut")
READ = ("lutPath", "inverse", "interpolation", "inversesUseIndexMaps", "inversesUseHalfDomain", "returnProcessNodes")


class Recorder(object):
    """Takes the registry's place; keeps the rest of it."""
    def __init__(self, S, answer=None):
        self.S, self.calls, self.answer = S, [], answer
        self.real = registry(S)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def write(self, *a, **k):
        d = dict(lutDataFormat=None, lutResolution1d=1024, lutResolution3d=33, lutResolution1d3d1d=[1024, 33, 2], inputMin=0.0, inputMax=1.0,
                 shaperIn=["linear", 0.0, 1.0], shaperOut=["linear", 0.0, 1.0])
        d.update(zip(WRITE, a))
        d.update(k)
        self.calls.append(d)

    def read(self, *a, **k):
        d = dict(inverse=False, interpolation="linear", inversesUseIndexMaps=True, inversesUseHalfDomain=True, returnProcessNodes=False)
        d.update(zip(READ, a))
        d.update(k)
        self.calls.append(d)
        return self.answer


@contextlib.contextmanager
def recorded(S, answer=None):
    r = Recorder(S, answer)
    old = S.lf.Registry
    S.lf.Registry = r
    try:
        yield r
    finally:
        S.lf.Registry = old


def kinds(S):
    lf = S.lf
    return lf.LUTDATAFORMAT_1D, lf.LUTDATAFORMAT_3D, lf.LUTDATAFORMAT_1D_3D_1D


def some_list(S, c=0.25):
    m = S.clf.Matrix("32f", "32f", "m", "m")
    m.setMatrix([3, 4], [0.5, 0.0, 0.0, c, 0.0, 0.75, 0.0, c, 0.0, 0.0, 1.5, 0.125])
    return plist(S, m)


def image_of(c, v):
    return [0.5 * v[0] + c, 0.75 * v[1] + c, 1.5 * v[2] + 0.125]


def write_list(S, c=0.25):
    f = os.path.join(S.tmp(), "in.clf")
    some_list(S, c).writeFile(f)
    return f


def close_lists(S, got, want, label):
    S.true(len(got) == len(want), label + " length", repr(got))
    for k, (g, w) in enumerate(zip(got, want)):
        if w is None or isinstance(w, str):
            S.true(g == w, "%s[%d]" % (label, k), repr(g))
        else:
            S.close(g, w, "%s[%d]" % (label, k), ctol=1e-6)


def options(S, group):
    """What is given is passed on, what is left out has its documented default."""
    f = write_list(S)
    argv = ["--clf", f] if S.choice("long", (False, True)) else ["-c", f]
    argv += ["-l", "some.out"]
    D1, D3, D131 = kinds(S)
    want = dict(lutPath="some.out", lutDataFormat=D1, lutResolution1d=1024, lutResolution3d=33, lutResolution1d3d1d=[1024, 33, 2], inputMin=0.0, inputMax=1.0, shaperIn=None, shaperOut=None)
    extra = []
    if group == "form":
        g = S.choice("form", ((), ("1d",), ("3d",), ("1d3d1d",), ("1d", "3d"), ("3d", "1d"), ("3d", "1d3d1d")))
        extra = [["--generate" + x] for x in g]
        if g:
            want["lutDataFormat"] = D1 if "1d" in g else D3 if "3d" in g else D131
    if group == "resolution":
        a, b, c = S.choice("1d", (None, 2, 17)), S.choice("3d", (None, 3, 65)), S.choice("131", (None, (11, 7, 5), (1024, 33, 0)))
        if a:
            extra.append(["--lutResolution1d", a])
            want["lutResolution1d"] = a
        if b:
            extra.append(["--lutResolution3d", b])
            want["lutResolution3d"] = b
        if c:
            extra.append(["--lutResolution1d3d1d"] + list(c))
            want["lutResolution1d3d1d"] = list(c)
    if group == "range":
        a, b = S.choice("min", (None, "-0.125", "0", "1e-3")), S.choice("max", (None, "2", "0.5", "65504.0"))
        if a:
            extra.append(["--inputMinValue", a])
            want["inputMin"] = float(a)
        if b:
            extra.append(["--inputMaxValue", b])
            want["inputMax"] = float(b)
    if group == "shaper":
        for n in ("shaperIn", "shaperOut"):
            t = S.choice(n, (None, "linear", "log2"))
            if t:
                lo, hi = S.real(n + "lo", -16.0, 0.0), S.real(n + "hi", 0.5, 16.0)
                extra.append(["--" + n, t, lo, hi])
                want[n] = [t, lo, hi]
    if group == "format":
        extra = S.choice("format", ([], [["-f", "ctl"]], [["--format", "clf"]]))
    if group == "all":
        extra = [["--lutResolution1d", 5], ["--inputMaxValue", "3"], ["--generate1d3d1d"], ["--shaperOut", "linear", "0.5", "2"], ["--inputMinValue", "-1"], ["--lutResolution3d", "9"],
                 ["--shaperIn", "log2", "-8.5", "4"], ["--lutResolution1d3d1d", "6", "4", "3"]]
        want.update(lutResolution1d=5, inputMax=3.0, lutDataFormat=D131, shaperOut=["linear", 0.5, 2.0], inputMin=-1.0, lutResolution3d=9, shaperIn=["log2", -8.5, 4.0], lutResolution1d3d1d=[6, 4, 3])
    if len(extra) > 1 and S.choice("order", ("given", "reversed")) == "reversed":
        extra.reverse()
    after = S.choice("place", ("after", "before", "around"))
    for k, e in enumerate(extra):
        argv = argv + e if after == "after" or after == "around" and k % 2 else e + argv
    with recorded(S) as r:
        run_main(S, "convertCLFtoLUT", argv)
    if len(r.calls) != 1:
        S.fail("one conversion", "%d" % len(r.calls))
        return
    got = r.calls[0]
    for k in ("lutPath", "lutDataFormat", "lutResolution1d", "lutResolution3d"):
        S.true(got[k] == want[k], k, repr(got[k]))
    S.true(list(got["lutResolution1d3d1d"]) == want["lutResolution1d3d1d"], "1D/3D/1D", repr(got["lutResolution1d3d1d"]))
    S.close(got["inputMin"], want["inputMin"], "min")
    S.close(got["inputMax"], want["inputMax"], "max")
    for k in ("shaperIn", "shaperOut"):
        if want[k] is None:
            S.true(got[k][0] in (None, "linear"), k + " type", repr(got[k]))
            close_lists(S, list(got[k])[1:], [0.0, 1.0], k)
        else:
            close_lists(S, list(got[k]), want[k], k)
    x = [0.25, 0.5, 0.75]
    S.closev(run1(S, got["processList"], x), image_of(0.25, x), "list")


for g_ in ("form", "resolution", "range", "shaper", "format", "all"):
    SCENARIOS.add("options-" + g_, options, group=g_)


def library(S):
    """Calling the converter as a function with the settings given or left out."""
    f = write_list(S)
    m = S.mod("aces.convertCLFtoLUT")
    D1, D3, D131 = kinds(S)
    way = S.choice("way", ("default", "positional", "named"))
    with recorded(S) as r, quiet():
        if way == "default":
            m.convertCLFtoLUT(f, "x.spi1d", None)
        elif way == "positional":
            m.convertCLFtoLUT(f, "x.spi1d", "spi", D131, 7, 5, [4, 3, 2], -1.0, 2.0, ["log2", -8.0, 4.0], ["linear", 0.25, 0.75])
        else:
            m.convertCLFtoLUT(clfPath=f, lutPath="x.spi1d", lutFileFormat="spi", lutDataFormat=D131, lutResolution1d=7, lutResolution3d=5, lutResolution1d3d1d=[4, 3, 2], inputMin=-1.0, inputMax=2.0,
                              shaperIn=["log2", -8.0, 4.0], shaperOut=["linear", 0.25, 0.75])
    g = r.calls[0]
    got = [g[k] for k in WRITE[1:]]
    want = ["x.spi1d", D1, 1024, 33, [1024, 33, 2], 0.0, 1.0, ["linear", 0.0, 1.0], ["linear", 0.0, 1.0]] if way == "default" else \
        ["x.spi1d", D131, 7, 5, [4, 3, 2], -1.0, 2.0, ["log2", -8.0, 4.0], ["linear", 0.25, 0.75]]
    S.true(len(r.calls) == 1 and got == want, "settings", repr(got))


SCENARIOS.add("library", library)


def left_out(S, form, ext):
    """Writing through the library with the range and shapers left out is writing 0 to 1 and linear shapers of 0 to 1."""
    c = S.real("c", *((0.125, 0.25) if form == "131" and ext == "clf" else (-1.0, 1.0)))
    D1, D3, D131 = kinds(S)
    pl = some_list(S, c)
    d = S.tmp()
    given = S.choice("given", ("", "range", "in", "out"))
    kw = {"1d": dict(lutResolution1d=3), "3d": dict(lutDataFormat=D3, lutResolution3d=2), "131": dict(lutDataFormat=D131, lutResolution1d3d1d=[3, 2, 4])}[form]
    full = dict(kw, lutDataFormat=kw.get("lutDataFormat", D1), inputMin=0.0, inputMax=1.0, shaperIn=["linear", 0.0, 1.0], shaperOut=["linear", 0.0, 1.0])
    some = dict(kw)
    for k in {"": (), "range": ("inputMin", "inputMax"), "in": ("shaperIn",), "out": ("shaperOut",)}[given]:
        some[k] = full[k]
    read = []
    for name, k in (("a.", some), ("b.", full)):
        f = os.path.join(d, name + ext)
        with quiet():
            registry(S).write(pl, f, **k)
        if not os.path.exists(f):
            S.fail("written", "nothing")
            return
        with quiet():
            read.append(S.clf.ProcessList(f) if ext == "clf" else registry(S).read(f))
    for v in ([0.0, 1.0, 0.5], [0.3, 0.7, 0.9], [-0.5, 1.5, 1.0]):
        S.samev(run1(S, read[0], v), run1(S, read[1], v), "result")


for form_, ext_ in (("1d", "spi1d"), ("1d", "csp"), ("3d", "spi3d"), ("3d", "csp"), ("131", "clf"), ("131", "csp")):
    SCENARIOS.add("left-out-%s-%s" % (form_, ext_), left_out, form=form_, ext=ext_)


def whole_1d(S, ext):
    """A CLF file becomes a 1D LUT file with the resolution and range asked for."""
    c = S.real("c", -1.0, 1.0)
    f = write_list(S, c)
    out = os.path.join(S.tmp(), "a." + ext)
    n = S.choice("n", (2, 3, 5))
    lo, hi = S.choice("range", (("0", "1"), ("-0.5", "1.5"), ("0.25", "2")))
    argv = ["-c", f, "-l", out, "--lutResolution1d", n, "--inputMinValue", lo, "--inputMaxValue", hi]
    if S.choice("explicit", (False, True)):
        argv.append("--generate1d")
    run_main(S, "convertCLFtoLUT", argv)
    if not os.path.exists(out):
        S.fail("written", "nothing")
        return
    with quiet():
        pl = registry(S).read(out)
    lo, hi = float(lo), float(hi)
    for k in range(n):
        v = [lo + (hi - lo) * k / (n - 1.0)] * 3
        S.closev(run1(S, pl, v), image_of(c, v), "entry", scale=2.0, tol=1e-5, ctol=1e-4)
    for v in (lo - 1.0, hi + 1.0):
        e = [max(lo, min(hi, v))] * 3
        S.closev(run1(S, pl, [v] * 3), image_of(c, e), "beyond", scale=2.0, tol=1e-5, ctol=1e-4)


SCENARIOS.add("whole-1d-spi1d", whole_1d, ext="spi1d")
SCENARIOS.add("whole-1d-csp", whole_1d, ext="csp")


def whole_3d(S, ext):
    c = S.real("c", -1.0, 1.0)
    f = write_list(S, c)
    out = os.path.join(S.tmp(), "a." + ext)
    n = S.choice("n", (2, 3))
    argv = ["-c", f, "-l", out, "--lutResolution3d", n, "--generate3d"]
    run_main(S, "convertCLFtoLUT", argv)
    if not os.path.exists(out):
        S.fail("written", "nothing")
        return
    with quiet():
        pl = registry(S).read(out)
    for r in range(n):
        for g in range(n):
            for b in range(n):
                v = [r / (n - 1.0), g / (n - 1.0), b / (n - 1.0)]
                S.closev(run1(S, pl, v), image_of(c, v), "entry", scale=2.0, tol=1e-5, ctol=1e-4)


SCENARIOS.add("whole-3d-spi3d", whole_3d, ext="spi3d")
SCENARIOS.add("whole-3d-csp", whole_3d, ext="csp")


def whole_131(S, ext):
    """1D/3D/1D forms with shapers reproduce an affine list within their range."""
    c = S.real("c", -1.0, 1.0)
    f = write_list(S, c)
    out = os.path.join(S.tmp(), "a." + ext)
    a, b, d = S.choice("resolution", ((2, 2, 2), (5, 3, 2), (3, 2, 4)))
    lo, hi = S.choice("shaper", (("0", "1"), ("-0.5", "2")))
    argv = ["-c", f, "-l", out, "--generate1d3d1d", "--lutResolution1d3d1d", a, b, d, "--shaperIn", "linear", lo, hi, "--shaperOut", "linear", "-4", "8"]
    run_main(S, "convertCLFtoLUT", argv)
    if not os.path.exists(out):
        S.fail("written", "nothing")
        return
    with quiet():
        pl = S.clf.ProcessList(out) if ext == "clf" else registry(S).read(out)
    lo, hi = float(lo), float(hi)
    for k in range(b):
        v = [lo + (hi - lo) * t / (b - 1.0) for t in (k, b - 1 - k, k)]
        S.closev(run1(S, pl, v), image_of(c, v), "entry", scale=4.0, tol=2e-5, ctol=2e-4)


SCENARIOS.add("whole-131-clf", whole_131, ext="clf")
SCENARIOS.add("whole-131-csp", whole_131, ext="csp")


def whole_ctl(S):
    """The CTL file is what the registry writes with the same settings."""
    f = write_list(S, 0.375)
    d = S.tmp()
    three = S.choice("three", (False, True))
    D1, D3, _ = kinds(S)
    run_main(S, "convertCLFtoLUT", ["-c", f, "-l", os.path.join(d, "a.ctl"), "--lutResolution1d", 3, "--lutResolution3d", 2, "--inputMaxValue", "2"] + (["--generate3d"] if three else []))
    with quiet():
        registry(S).write(some_list(S, 0.375), os.path.join(d, "b.ctl"), D3 if three else D1, 3, 2, [1024, 33, 2], 0.0, 2.0)
    a, b = [open(os.path.join(d, n)).read() for n in ("a.ctl", "b.ctl")]
    S.true(a == b and len(a) > 50, "same file")


SCENARIOS.add("whole-ctl", whole_ctl)


def not_written(S):
    """Nothing happens without input or output; unknown formats are reported."""
    f = write_list(S)
    d = S.tmp()
    out = os.path.join(d, "a.spi1d")
    what = S.choice("what", ("input", "output", "format", "form", "extension"))
    argv = {"input": ["-l", out], "output": ["-c", f], "format": ["-c", f, "-l", os.path.join(d, "a.xyz")], "form": ["-c", f, "-l", out, "--generate3d", "--lutResolution3d", "2"],
            "extension": ["-c", f, "-l", os.path.join(d, "a")]}[what]
    said = run_main(S, "convertCLFtoLUT", argv)
    S.true(os.listdir(d) == [], "nothing written", repr(os.listdir(d)))
    S.true(said.strip() != "", "reported")


SCENARIOS.add("not-written", not_written)


def read_options(S):
    """Inverse and its kind reach the reader, the answer the output file."""
    d = S.tmp()
    out = os.path.join(d, "out.clf")
    long = S.choice("long", (False, True))
    inv, im, hd = S.choice("inverse", (False, True)), S.choice("index", (False, True)), S.choice("half", (False, True))
    argv = ["--lut", "in.spi1d", "--clf", out] if long else ["-l", "in.spi1d", "-c", out]
    extra = [n for (n, on) in (("--inverse", inv), ("--inversesUseIndexMaps", im), ("--inversesUseHalfDomain", hd)) if on]
    argv = argv + extra if S.choice("place", ("after", "before")) == "after" else extra + argv
    c = S.real("c", -1.0, 1.0)
    nothing = S.choice("answer", ("list", "none")) == "none"
    with recorded(S, None if nothing else some_list(S, c)) as r:
        run_main(S, "convertLUTtoCLF", argv)
    S.true(len(r.calls) == 1, "one conversion")
    g = r.calls[0]
    S.true((g["lutPath"], bool(g["inverse"])) == ("in.spi1d", inv), "input", repr(g))
    S.true((bool(g["inversesUseIndexMaps"]), bool(g["inversesUseHalfDomain"])) == (im, hd), "kind of inverse", repr(g))
    S.true(not g["returnProcessNodes"] and g["interpolation"] == "linear", "rest")
    S.true(os.listdir(d) == ([] if nothing else ["out.clf"]), "written")
    if not nothing:
        x = [0.25, 0.5, -0.75]
        S.closev(run1(S, S.clf.ProcessList(out), x), image_of(c, x), "result", scale=2.0)


SCENARIOS.add("read-options", read_options)


def whole_read(S, ext, inverse):
    """LUT files become CLF files that compute the same, or its inverse."""
    e = [S.real("e0", -0.25, 0.25)]
    for k in (1, 2):
        e.append(e[-1] + S.real("d%d" % k, 0.125, 1.0))
    if ext == "spi1d":
        f = put(S, "Version 1\nFrom 0 1\nLength 3\nComponents 1\n{\n %s\n %s\n %s\n}\n" % tuple(e), "a.spi1d")
    else:
        rows = "".join("%s %s %s\n" % (v, v, v) for v in e)
        f = put(S, "CSPLUTV100\n1D\n\nBEGIN METADATA\nEND METADATA\n\n" + "2\n0.0 1.0\n0.0 1.0\n" * 3 + "\n3\n" + rows, "a.csp")
    out = os.path.join(S.tmp(), "out.clf")
    run_main(S, "convertLUTtoCLF", ["-l", f, "-c", out] + (["--inverse", "--inversesUseIndexMaps"] if inverse else []))
    if not os.path.exists(out):
        S.fail("written", "nothing")
        return
    pl = S.clf.ProcessList(out)
    pts = ((0.0, e[0]), (0.25, 0.5 * (e[0] + e[1])), (0.5, e[1]), (1.0, e[2]))
    for (x, v) in pts:
        if inverse:
            got = run1(S, pl, [v] * 3)
            for c in range(3):
                S.close(got[c], x, "undone", tol=1e-6, ctol=1e-3)
        else:
            S.closev(run1(S, pl, [x] * 3), [v] * 3, "result", scale=2.0, ctol=2e-4)


SCENARIOS.add("whole-read-spi1d", whole_read, ext="spi1d", inverse=False)
SCENARIOS.add("whole-read-spi1d-inverse", whole_read, ext="spi1d", inverse=True)
SCENARIOS.add("whole-read-csp", whole_read, ext="csp", inverse=False)


def not_read(S):
    """Nothing is written without input or output or for formats that are not read."""
    d = S.tmp()
    f = put(S, "Version 1\nFrom 0 1\nLength 2\nComponents 1\n{\n 0\n 1\n}\n", "a.spi1d")
    out = os.path.join(d, "out.clf")
    what = S.choice("what", ("input", "output", "format", "inverse"))
    g = put(S, "SPILUT 1.0\n3 3\n2 2 2\n" + "".join("%d %d %d 0 0 0\n" % (k >> 2, k >> 1 & 1, k & 1) for k in range(8)), "a.spi3d" if what == "inverse" else "a.xyz")
    argv = {"input": ["-c", out], "output": ["-l", f], "format": ["-l", g, "-c", out], "inverse": ["-l", g, "-c", out, "--inverse"]}[what]
    run_main(S, "convertLUTtoCLF", argv)
    S.true(os.listdir(d) == [], "nothing written")


SCENARIOS.add("not-read", not_read)


def again(S):
    """Settings of one conversion do not reach the next."""
    f = write_list(S)
    D1, D3, D131 = kinds(S)
    k = S.choice("first", ("1d", "3d", "131", "131"))
    argv = {"1d": ["--generate1d", "--lutResolution1d", "7", "--inputMinValue", "-1", "--inputMaxValue", "3"], "3d": ["--generate3d", "--lutResolution3d", "5"],
            "131": ["--generate1d3d1d", "--lutResolution1d3d1d", "4", "3", "2", "--shaperIn", "log2", "-8", "4", "--shaperOut", "linear", "0.25", "0.75"]}[k]
    with recorded(S) as r:
        run_main(S, "convertCLFtoLUT", ["-c", f, "-l", "x.csp"] + argv)
        run_main(S, "convertCLFtoLUT", ["-c", f, "-l", "y.csp"])
        run_main(S, "convertCLFtoLUT", ["-c", f, "-l", "z.csp", "--generate1d3d1d"])
        run_main(S, "convertCLFtoLUT", ["-c", f, "-l", "x.csp"] + argv)
    S.true(len(r.calls) == 4, "conversions")

    for c in r.calls:
        for n in ("shaperIn", "shaperOut"):
            c[n] = [c[n][0] or "linear"] + list(c[n][1:])        # None is linear
    rest = [1024, 33, [1024, 33, 2], 0.0, 1.0, ["linear", 0.0, 1.0], ["linear", 0.0, 1.0]]
    S.true([r.calls[1][n] for n in WRITE[1:]] == ["y.csp", D1] + rest, "second", repr(r.calls[1]))
    got = [r.calls[2][n] for n in WRITE[1:]]
    S.true(got[:2] == ["z.csp", D131] and got[2:] == rest, "third", repr(r.calls[2]))
    S.true([r.calls[0][n] for n in WRITE[1:]] == [r.calls[3][n] for n in WRITE[1:]], "first again")


SCENARIOS.add("again-options", again)


def rewritten(S, ext):
    """Files are converted as they are now."""
    d = S.tmp()
    f, g = os.path.join(d, "in.clf"), os.path.join(d, "a." + ext)
    for k in range(2):
        c = S.real("c%d" % k, -1.0, 1.0)
        some_list(S, c).writeFile(f)
        form = ["--generate3d", "--lutResolution3d", "2"] if ext.endswith("3d") else ["--lutResolution1d", "3"]
        run_main(S, "convertCLFtoLUT", ["-c", f, "-l", g] + form)
        with quiet():
            pl = registry(S).read(g)
        x = [0.0, 1.0, 0.0]
        S.closev(run1(S, pl, x), image_of(c, x), "result %d" % k, scale=2.0, tol=1e-5, ctol=1e-4)
        out = os.path.join(d, "back.clf")
        run_main(S, "convertLUTtoCLF", ["-l", g, "-c", out])
        S.closev(run1(S, S.clf.ProcessList(out), x), image_of(c, x), "back %d" % k, scale=2.0, tol=1e-5, ctol=1e-4)


for e_ in ("spi1d", "spi3d", "csp"):
    SCENARIOS.add("again-" + e_, rewritten, ext=e_)
