"""C28 Image filtering"""
import contextlib
import io
import os
import sys

from props.common import *
from props.luts import put

SCENARIOS = Registry()
BOUNDS = "images of up to 3x3 pixels with every pixel symbolic, of up to 1100x2, 40x40 and 1x500 with a few symbolic pixels, with one to five channels, also of one depth through a list of another, all pixel values within -2..2 or all codes symbolic; lists of a matrix, a range or both at every bit depth; one process or several, " \
         "jobs finishing in three orders; every option of the command" \
         "; two images, lists, depths or commands one after another"
OUTSIDE = "OpenImageIO itself, which a stand-in replaces, and real worker processes: jobs run one after another on pickled copies of their arguments"

M = [0.5, 0.25, -0.125, 0.75, 1.5, -0.5, 0.0625, 0.375, 2.0]
OFF = [0.125, -0.25, 0.5]
BASE = {"8i": "UINT8", "10i": "UINT16", "12i": "UINT16", "16i": "UINT16", "16f": "HALF", "32f": "FLOAT"}
SHIFT = {"10i": 6, "12i": 4}


def fresh(S, version=20000):
    import OpenImageIO as oiio
    from engine import post
    oiio.reset(version)
    post.Pool.ORDER = "forward"
    return oiio


def image(S, oiio, path, w, h, ch, values, basetype="FLOAT", attribs=()):
    np = S.np
    dtype = {"FLOAT": np.float32, "UINT8": np.uint8, "UINT16": np.uint16, "HALF": np.uint16}[basetype]
    t = getattr(oiio, basetype)
    oiio.IMAGES[path] = oiio.Image(t, w, h, ch, {t: np.array(list(values), dtype=dtype)}, attribs)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def matrix(S, coefs=None, **k):
    m = S.clf.Matrix("32f", "32f")
    m.setMatrix([3, 3], list(M if coefs is None else coefs))
    return m


def scale_list(S, a, b):
    return plist(S, S.clf.Range(a, b))


def expect(px):
    """The matrix, then the range 0..1."""
    out = []
    for p in px:
        v = [sum(M[3 * r + c] * p[c] for c in range(3)) for r in range(3)]
        out.append(v + list(p[3:]))
    return out


def mode(S, parallel):
    from engine import post
    if parallel:
        post.Pool.ORDER = S.choice("order", ("forward", "backward", "rotated"))
        return S.choice("workers", (2, 3, 8))
    return S.choice("workers", (1, 0))


def filtering(S, w, h, ch, parallel):
    """Every pixel once, at its place."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    px = pixels(S, ch, w * h)
    image(S, oiio, "in.exr", w, h, ch, flat(px))
    pl = plist(S, matrix(S)) if ch >= 3 else plist(S, rng(S))
    verbose = S.choice("verbose", (False, True))
    n = mode(S, parallel)
    with quiet():
        F.filterImageWithCLF("in.exr", "out.exr", pl, verbose, multithreaded=n)
    want = expect(px) if ch >= 3 else [[S.clamp(0.5 * v + 0.25, 0.25, 0.75) for v in p] for p in px]
    check(S, oiio, "out.exr", "FLOAT", w, h, ch, want)
    S.closev([v for v in flat(px)], list(oiio.IMAGES["in.exr"].data[oiio.FLOAT]), "input kept", ctol=1e-7)


def rng(S):
    r = S.clf.Range("32f", "32f")
    r.setMinInValue(0.0)
    r.setMaxInValue(1.0)
    r.setMinOutValue(0.25)
    r.setMaxOutValue(0.75)
    return r


def check(S, oiio, path, basetype, w, h, ch, want=None):
    if list(oiio.WRITTEN) != [path]:
        S.fail("written", "%s" % sorted(oiio.WRITTEN))
        return None
    o = oiio.WRITTEN[path]
    s = o.spec
    S.true((s.width, s.height, s.nchannels) == (w, h, ch), "size", "%sx%s, %s channels" % (s.width, s.height, s.nchannels))
    S.true(tuple(s.channelnames) == tuple(oiio.IMAGES["in.exr"].channelnames) if "in.exr" in oiio.IMAGES else True, "channel names")
    S.true(o.type == getattr(oiio, basetype) and s.format.basetype == o.type, "type", "%s" % o.type)
    S.true(oiio.OPEN[0] == 0, "input closed")
    got = list(o.pixels)
    if len(got) != w * h * ch:
        S.fail("length", "%d values" % len(got))
        return None
    if want is not None:
        S.closev(got, flat(want), "pixels", ctol=1e-5)
    return got


for (w_, h_, c_) in ((1, 1, 3), (3, 1, 3), (1, 3, 3), (2, 2, 4), (3, 2, 3), (2, 3, 5), (3, 3, 3), (2, 2, 1), (3, 2, 2)):
    for p_ in (False, True):
        SCENARIOS.add("filtering-%dx%dx%d-%s" % (w_, h_, c_, "parallel" if p_ else "serial"), filtering, w=w_, h=h_, ch=c_, parallel=p_)


def tall(S, parallel):
    """More rows than progress steps."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    h = 103
    x = S.real("x", -2.0, 2.0)
    vals = [x if k in (0, 50, 102) else k * 0.0125 for k in range(h)]
    image(S, oiio, "in.exr", 1, h, 1, vals)
    with quiet():
        m = mode(S, parallel)
        F.filterImageWithCLF("in.exr", "out.exr", plist(S, wide(S)), multithreaded=m)
    check(S, oiio, "out.exr", "FLOAT", 1, h, 1, [[0.5 * v + 0.25] for v in vals])


def wide(S):
    r = S.clf.Range("32f", "32f")
    r.setMinInValue(-8.0)
    r.setMaxInValue(8.0)
    r.setMinOutValue(-3.75)
    r.setMaxOutValue(4.25)
    return r


SCENARIOS.add("tall-serial", tall, parallel=False)
SCENARIOS.add("tall-parallel", tall, parallel=True)


def rows(S, kind, w, h, ch):
    """A row filter changes its row only and gives each pixel the list's result, converted from and to the image's depths."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    px = pixels(S, ch, w * h)
    row = S.choice("row", tuple(range(h)))
    conv = S.choice("conv", ("none", "in", "out", "both"))
    np = S.np
    src = np.array(flat(px), dtype=np.float32)
    dst = np.zeros(w * h * ch, dtype=np.float32)
    ri = S.clf.Range("32f", "10i") if conv in ("in", "both") else None
    ro = S.clf.Range("32f", "10i") if conv in ("out", "both") else None
    with quiet():
        if kind == "parallel":
            got = F.filterRow_parallel(row, w, h, ch, src[row * w * ch:(row + 1) * w * ch], ri, plist(S, matrix(S)), ro, dst, False)
        else:
            f = F.filterRow_pixel if kind == "pixel" else F.filterRow_stride
            f(row, w, h, ch, src, ri, plist(S, matrix(S)), ro, dst, S.choice("verbose", (False, True)))
            got = list(dst)[row * w * ch:(row + 1) * w * ch]
    a, b = (1023.0 if ri else 1.0), (1023.0 if ro else 1.0)
    want = []
    for p in px[row * w:(row + 1) * w]:
        q = expect([[v * a for v in p]])[0]
        want.append([v * b for v in q])
    S.closev(list(got), flat(want), "row", scale=a * b, ctol=1e-5)
    if kind != "parallel":
        rest = list(dst)[:row * w * ch] + list(dst)[(row + 1) * w * ch:]
        S.samev(rest, [0.0] * len(rest), "other rows")
    S.closev(list(src), flat(px), "source kept", ctol=1e-7)


for k_ in ("pixel", "stride", "parallel"):
    for (w_, h_, c_) in ((2, 3, 3), (2, 2, 4), (1, 2, 3)):
        SCENARIOS.add("rows-%s-%dx%dx%d" % (k_, w_, h_, c_), rows, kind=k_, w=w_, h=h_, ch=c_)


def depths(S, source, every=False):
    """The image's codes reach the list at the list's input depth, its results the output at the output depth."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    a = S.choice("listIn", DEPTHS)
    b = S.choice("listOut", DEPTHS if every else (a, DEPTHS[(DEPTHS.index(a) + 2) % 6]))
    out = S.choice("out", DEPTHS + (None,))
    w, h, ch = 2, 1, 1
    sh = SHIFT.get(source, 0)
    if source == "16f":
        v = S.choice("halves", ((0x3800, 0x3c00), (0x0000, 0x2e66), (0xb400, 0x3e00)))
        import struct
        norm = [struct.unpack("<e", struct.pack("<H", x))[0] for x in v]
    elif source == "32f":
        v = [S.real("v", -0.5, 1.5), 0.375]
        norm = v
    else:
        codes = [S.int("v", 0, int(SIZE[source])), int(SIZE[source]) - 3]
        v = [c * (1 << sh) for c in codes]
        norm = [c / SIZE[source] for c in codes]
    image(S, oiio, "in.exr", w, h, ch, v, BASE[source], [("oiio:BitsPerSample", 5, int(source[:-1]))] if sh else [])
    n = 1 if every else S.choice("workers", (1, 2))
    with quiet():
        F.filterImageWithCLF("in.exr", "out.exr", scale_list(S, a, b), outBitDepth=out, multithreaded=n)
    d = source if out is None else out
    got = check(S, oiio, "out.exr", BASE[d], w, h, ch)
    if got is None or d == "16f":
        return
    if d == "32f":
        S.closev(got, norm, "float", ctol=1e-4 if source != "16f" else 1e-3)
        return
    top = SIZE[d]
    for k in range(2):
        g = got[k] / float(1 << SHIFT.get(d, 0))
        e = S.clamp(norm[k] * top, 0.0, top)
        S.true(S.And(g - e <= 0.501, e - g <= 0.501), "code %d" % k)


for d_ in DEPTHS:
    SCENARIOS.add("depths-" + d_, depths, source=d_)
    SCENARIOS.add("every-depth-" + d_, depths, tier="thorough", source=d_, every=True)


def kept(S, parallel):
    """The list's depths are the image's: codes come back as they were."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    d = S.choice("depth", INTD)
    sh = SHIFT.get(d, 0)
    codes = [S.int("v%d" % k, 0, int(SIZE[d])) if k in (1, 5) else int(SIZE[d]) * k // 4 for k in range(6)]
    image(S, oiio, "in.exr", 2, 1, 3, [c * (1 << sh) for c in codes], BASE[d], [("oiio:BitsPerSample", 5, int(d[:-1]))] if sh else [])
    m = S.clf.Matrix(d, d)
    m.setMatrix([3, 3], [1.0, 0, 0, 0, 1.0, 0, 0, 0, 1.0])
    n = mode(S, parallel)
    with quiet():
        F.filterImageWithCLF("in.exr", "out.exr", plist(S, m), multithreaded=n)
    got = check(S, oiio, "out.exr", BASE[d], 2, 1, 3)
    if got is not None:
        S.samev(got, [c * (1 << sh) for c in codes], "codes")


SCENARIOS.add("kept-serial", kept, parallel=False)
SCENARIOS.add("kept-parallel", kept, parallel=True)


def missing(S):
    """Nothing is written without an input; failing outputs are reported and do not raise."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    what = S.choice("what", ("input", "create", "open", "write", "raise"))
    if what != "input":
        image(S, oiio, "in.exr", 1, 1, 3, [0.1, 0.2, 0.3])
        oiio.FAIL.add(what)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        F.filterImageWithCLF("in.exr", "out.exr", plist(S, matrix(S)), multithreaded=S.choice("workers", (1, 2)))
    S.true(not oiio.WRITTEN, "nothing written")
    S.true("could not" in out.getvalue(), "reported")
    S.true(oiio.OPEN[0] == 0, "input closed")


SCENARIOS.add("missing", missing)


def failing(S):
    """A list that raises in a worker leaves no output that looks filtered."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    image(S, oiio, "in.exr", 2, 2, 3, [0.1] * 12)
    pl = plist(S, S.clf.LUT1D("32f", "32f"))            # no array set
    try:
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            F.filterImageWithCLF("in.exr", "out.exr", pl, multithreaded=S.choice("workers", (1, 2)))
    except Exception:
        pass
    S.true(not oiio.WRITTEN, "nothing written")


SCENARIOS.add("failing", failing)


def run_main(S, argv):
    F = S.mod("aces.filterImageWithCLF")
    old = sys.argv
    sys.argv = ["filterImageWithCLF.py"] + argv
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            F.main()
    finally:
        sys.argv = old
    return out.getvalue()


def command(S):
    """The command applies its CLF file with its options."""
    oiio = fresh(S)
    px = pixels(S, 3, 2)
    image(S, oiio, "in.exr", 2, 1, 3, flat(px), attribs=[("compression", 9, "piz"), ("Artist", 9, "x")])
    f = os.path.join(S.tmp(), "a.clf")
    plist(S, matrix(S)).writeFile(f)
    long = S.choice("long", (False, True))
    out = S.choice("depth", (None, "32f", "10i", "8i"))
    comp = S.choice("compression", (None, "zip"))
    quality = S.choice("quality", (None, "0", "75"))
    threads = S.choice("threads", (None, "0", "2", "16"))
    argv = ["--input", "in.exr", "--output", "out.exr", "--clf", f] if long else ["-i", "in.exr", "-o", "out.exr", "-c", f]
    if long:
        argv.append("-v")
    if out:
        argv += ["--outputBitDepth", out]
    if comp:
        argv += ["--compression", comp]
    if quality:
        argv += ["--quality", quality]
    if threads:
        argv += ["-m", threads]
    run_main(S, argv)
    d = out or "32f"
    want = expect(px)
    got = check(S, oiio, "out.exr", BASE[d], 2, 1, 3, want if d == "32f" else None)
    if got is None:
        return
    if d != "32f":
        for k, e in enumerate(flat(want)):
            e = S.clamp(e * SIZE[d], 0.0, SIZE[d])
            g = got[k] / float(1 << SHIFT.get(d, 0))
            S.true(S.And(g - e <= 0.501, e - g <= 0.501), "code %d" % k)
    s = oiio.WRITTEN["out.exr"].spec
    S.true(s.get("compression") == (comp or "piz"), "compression")
    S.true(s.get("CompressionQuality") == (75 if quality == "75" else None), "quality")
    S.true(s.get("Artist") == "x", "metadata")


SCENARIOS.add("command", command)


def incomplete(S):
    """Nothing is written when an option is missing or names no bit depth."""
    oiio = fresh(S)
    image(S, oiio, "in.exr", 1, 1, 3, [0.1, 0.2, 0.3])
    f = os.path.join(S.tmp(), "a.clf")
    plist(S, matrix(S)).writeFile(f)
    left = S.choice("left", ("-i", "-o", "-c", "depth"))
    argv = []
    for (o, v) in (("-i", "in.exr"), ("-o", "out.exr"), ("-c", f)):
        if o != left:
            argv += [o, v]
    if left == "depth":
        argv += ["--outputBitDepth", S.choice("depth", ("9i", "float", "32F", "10"))]
    out = run_main(S, argv)
    S.true(not oiio.WRITTEN, "nothing written")
    if left == "depth":
        S.true("not a valid" in out, "reported")


SCENARIOS.add("incomplete", incomplete)


def big(S, w, h, ch, at, parallel):
    """Larger images: a few symbolic pixels."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    px = [[((k * 7 + c * 5) % 64) / 48.0 - 0.25 for c in range(ch)] for k in range(w * h)]
    for k in at:
        px[k] = S.reals("x%d_" % k, ch, -2.0, 2.0)
    image(S, oiio, "in.exr", w, h, ch, flat(px))
    n = mode(S, parallel)
    with quiet():
        F.filterImageWithCLF("in.exr", "out.exr", plist(S, matrix(S)), False, multithreaded=n)
    got = check(S, oiio, "out.exr", "FLOAT", w, h, ch)
    want = expect(px)
    bad = 0
    for k in range(w * h):
        if k in at:
            S.closev(got[k * ch:(k + 1) * ch], want[k], "pixel", ctol=1e-5)
        else:
            bad += any(abs(float(a) - b) > 1e-5 for a, b in zip(got[k * ch:(k + 1) * ch], want[k]))
    S.true(bad == 0, "pixels", "%d differ" % bad)


for (w_, h_, c_, at_) in ((7, 5, 3, (8, 34)), (5, 7, 4, (6, 33)), (2, 40, 3, (78, 41)), (40, 2, 4, (41, 79)), (130, 2, 3, (129, 130)), (17, 33, 3, (560,)), (40, 40, 3, (1599, 801)), (1, 101, 3, (100,)), (1, 210, 3, (205,)), (1100, 2, 3, (1099, 2199)), (600, 1, 4, (599,)), (1, 500, 3, (499,))):
    for p_ in (False, True):
        SCENARIOS.add("big-%dx%dx%d-%s" % (w_, h_, c_, "parallel" if p_ else "serial"), big, w=w_, h=h_, ch=c_, at=at_, parallel=p_, conf={"weight": 4})


def converted(S, source, inner, out, w, h, ch, at, parallel):
    """Larger images of one depth through a list of another: one symbolic pixel."""
    import struct
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    sh = SHIFT.get(source, 0)
    total = w * h * ch
    if source == "16f":
        v = [0x3000 + (k * 37) % 0xc00 for k in range(total)]
        norm = [struct.unpack("<e", struct.pack("<H", x))[0] for x in v]
    elif source == "32f":
        norm = [((k * 7) % 64) / 64.0 for k in range(total)]
        for c in range(ch):
            norm[at * ch + c] = S.real("v%d" % c, 0.0, 1.0)
        v = norm
    else:
        codes = [(k * 37) % (int(SIZE[source]) + 1) for k in range(total)]
        for c in range(ch):
            codes[at * ch + c] = S.int("v%d" % c, 0, int(SIZE[source]))
        v = [c * (1 << sh) for c in codes]
        norm = [c / SIZE[source] for c in codes]
    image(S, oiio, "in.exr", w, h, ch, v, BASE[source], [("oiio:BitsPerSample", 5, int(source[:-1]))] if sh else [])
    a, b = inner
    n = mode(S, parallel)
    m = S.clf.Matrix(a, b)
    k = SIZE[b] / SIZE[a]
    m.setMatrix([3, 3], [0.0, k, 0.0, 0.5 * k, 0.0, 0.25 * k, 0.0, 0.0, k])
    with quiet():
        F.filterImageWithCLF("in.exr", "out.exr", plist(S, m), outBitDepth=out, multithreaded=n)
    got = check(S, oiio, "out.exr", BASE[out], w, h, ch)
    if got is None:
        return
    bad = 0
    for q in range(w * h):
        p = norm[q * ch:(q + 1) * ch]
        want = [p[1], 0.5 * p[0] + 0.25 * p[2], p[2]] + list(p[3:])
        for c in range(ch):
            g, e = got[q * ch + c], want[c]
            if out == "32f":
                if q == at:
                    S.close(g, e, "value", ctol=1e-4)
                else:
                    bad += abs(float(g) - e) > 1e-4
            else:
                g = g / float(1 << SHIFT.get(out, 0))
                e = e * SIZE[out]
                if q == at:
                    S.true(S.And(g - e <= 0.501, e - g <= 0.501), "code")
                else:
                    bad += abs(float(g) - e) > 0.501
    S.true(bad == 0, "values", "%d differ" % bad)


for k_, (s_, i_, o_, w_, h_, c_, at_) in enumerate((("8i", ("16f", "16f"), "16i", 300, 1, 3, 299), ("16i", ("10i", "12i"), "8i", 40, 20, 3, 777), ("10i", ("32f", "10i"), "12i", 5, 130, 3, 640),
                                                    ("16f", ("8i", "32f"), "10i", 270, 2, 3, 0), ("32f", ("12i", "8i"), "32f", 600, 1, 3, 555), ("12i", ("16i", "16f"), "32f", 1, 290, 3, 288))):
    for p_ in (False, True):
        SCENARIOS.add("converted-%s-%s" % (s_, "parallel" if p_ else "serial"), converted, source=s_, inner=i_, out=o_, w=w_, h=h_, ch=c_, at=at_, parallel=p_, conf={"weight": 3})


def again(S, what):
    """A second image, list, depth or file in the same session is filtered as in a new one."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    first, second = S.choice("workers", ((1, 1), (2, 2), (1, 2), (3, 2)))
    # the first image
    w, h, ch = S.choice("size", ((2, 1, 3), (1, 3, 4)))
    px = pixels(S, ch, w * h)
    image(S, oiio, "in.exr", w, h, ch, flat(px))
    coefs = [0.25 * c + 0.125 for c in M]
    m = matrix(S, coefs)
    pl = plist(S, m)
    f = os.path.join(S.tmp(), "a.clf")
    with quiet():
        if what == "command":
            pl.writeFile(f)
            run_main(S, ["-i", "in.exr", "-o", "out.exr", "-c", f, "--outputBitDepth", "16i", "--compression", "zip", "--quality", "50", "-m", str(first)])
        elif what == "depth":
            F.filterImageWithCLF("in.exr", "out.exr", pl, outBitDepth="10i", multithreaded=first)
        else:
            F.filterImageWithCLF("in.exr", "out.exr", pl, multithreaded=first)
    S.true(list(oiio.WRITTEN) == ["out.exr"], "first written")
    # the second
    oiio.WRITTEN.clear()
    w2, h2, ch2 = (w, h, ch) if what in ("list", "matrix") else S.choice("second", ((2, 1, 3), (2, 2, 4), (1, 1, 3)))
    if what not in ("list", "matrix"):
        px = pixels(S, ch2, w2 * h2, name="y")
        image(S, oiio, "in.exr", w2, h2, ch2, flat(px))
    with quiet():
        if what == "command":
            plist(S, matrix(S)).writeFile(f)
            run_main(S, ["-i", "in.exr", "-o", "out.exr", "-c", f, "-m", str(second)])
        else:
            if what == "list":
                pl = plist(S, matrix(S))
            else:
                m.setMatrix([3, 3], list(M))
            F.filterImageWithCLF("in.exr", "out.exr", pl, multithreaded=second)
    check(S, oiio, "out.exr", "FLOAT", w2, h2, ch2, expect(px))
    if list(oiio.WRITTEN) == ["out.exr"]:
        s = oiio.WRITTEN["out.exr"].spec
        S.true(s.get("compression") is None and s.get("CompressionQuality") is None, "options of the first")


for w_ in ("image", "list", "matrix", "depth", "command"):
    SCENARIOS.add("again-" + w_, again, what=w_)


def named_twice(S):
    """The same list filters two images one after another, and one image at two depths."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    a, b = S.choice("depths", (("8i", "10i"), ("16i", "8i"), ("12i", "10i"), ("10i", "12i")))
    n = S.choice("workers", (1, 2))
    for k, d in enumerate((a, b)):
        sh = SHIFT.get(d, 0)
        codes = [S.int("v%d%d" % (k, j), 0, int(SIZE[d])) if j in (0, 4) else int(SIZE[d]) * j // 5 for j in range(6)]
        oiio.WRITTEN.clear()
        image(S, oiio, "in.exr", 1, 2, 3, [c * (1 << sh) for c in codes], BASE[d], [("oiio:BitsPerSample", 5, int(d[:-1]))] if sh else [])
        pl = plist(S, S.clf.Range(d, d, "r", "r", "noClamp"))
        with quiet():
            F.filterImageWithCLF("in.exr", "out.exr", pl, multithreaded=n)
        got = check(S, oiio, "out.exr", BASE[d], 1, 2, 3)
        if got is None:
            return
        S.samev(got, [c * (1 << sh) for c in codes], "codes %d" % k)


SCENARIOS.add("again-depths", named_twice)
