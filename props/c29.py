"""C29 Image pixels"""
import contextlib
import io
import struct

from props.c28 import BASE, SHIFT, fresh, image, matrix, quiet
from props.common import *

SCENARIOS = Registry()
BOUNDS = "all pixel codes of each integer depth, all half and single bit patterns, all float pixel values within -70000..70000 and the special ones; images of up to eight values, both packings of halves, " \
         "every depth override, any bits-per-sample attribute from 8 to 16" \
         "; up to three images of different depths in a row"
OUTSIDE = "OpenImageIO itself, which a stand-in replaces; odd numbers of half values in the packing of OpenImageIO before 1.8"

OIIO_BITS = {"UINT8": "8i", "UINT16": "16i", "HALF": "16f", "FLOAT": "32f"}


def top(d):
    return int(SIZE[d])


def read_integers(S, base, n):
    """The codes as stored, at the depth the file or the caller names."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    stored = [S.int("v%d" % k, 0, top(OIIO_BITS[base])) for k in range(n)]
    attr = S.choice("bits", (None, 8, 10, 12, 14, 16)) if base == "UINT16" else S.choice("bits", (None, 8, 10))
    how = S.choice("how", ("default", "auto", None))
    image(S, oiio, "in", n, 1, 1, stored, base, [("x", 1, 7)] + ([("oiio:BitsPerSample", 5, attr)] if attr else []))
    with quiet():
        got = F.readPixelArray("in") if how == "default" else F.readPixelArray("in", how)
    px, d, w, h, ch, meta, names = got
    want = OIIO_BITS[base]
    if how is not None and base == "UINT16" and attr in (10, 12):
        want = "%di" % attr
    S.true(d == want, "depth", "%s" % d)
    S.true((w, h, ch) == (n, 1, 1), "size")
    S.true([m.name for m in meta][0] == "x" and tuple(names) == ("R",), "metadata")
    sh = SHIFT.get(want, 0)
    for k in range(n):
        S.same(px[k], S.floor(stored[k] / float(1 << sh)), "code[%d]" % k)
    S.true(oiio.OPEN[0] == 0, "closed")


SCENARIOS.add("read-8", read_integers, base="UINT8", n=3)
SCENARIOS.add("read-16", read_integers, base="UINT16", n=3)


def override(S):
    """A depth given by the caller decides how the file is read."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    d = S.choice("depth", DEPTHS)
    base = BASE[d]
    attr = S.choice("bits", (None, 8, 10, 12, 16))
    np = S.np
    t = getattr(oiio, base)
    if d in INTD:
        v = [S.int("v%d" % k, 0, 255 if d == "8i" else 65535) for k in range(2)]
    elif d == "16f":
        v = [S.bits("v%d" % k, 16) for k in range(2)]
    else:
        v = S.reals("v", 2)
    a = np.array(v, dtype={"8i": np.uint8, "32f": np.float32}.get(d, np.uint16))
    # stored at another type: only the type asked for can be read
    stored = S.choice("stored", ("UINT8", "UINT16", "HALF", "FLOAT"))
    oiio.IMAGES["in"] = oiio.Image(getattr(oiio, stored), 2, 1, 1, {t: a}, [("oiio:BitsPerSample", 5, attr)] if attr else [])
    with quiet():
        px, got, w, h, ch, _, _ = F.readPixelArray("in", d)
    S.true(got == d and (w, h, ch) == (2, 1, 1), "depth")
    sh = SHIFT.get(d, 0)
    for k in range(2):
        if d in INTD:
            S.same(px[k], S.floor(v[k] / float(1 << sh)), "code[%d]" % k)
        elif d == "32f":
            S.close(px[k], v[k], "value[%d]" % k, ctol=1e-6)


SCENARIOS.add("override", override)


def written(S, d, values, w, h, ch, meta=(), version=20000, **k):
    import OpenImageIO as oiio
    F = S.mod("aces.filterImageWithCLF")
    with quiet():
        F.writePixelArray("out", values, d, w, h, ch, [oiio.Attr(*m) for m in meta], "RGB"[:ch], **k)
    if list(oiio.WRITTEN) != ["out"]:
        S.fail("written", "nothing")
        return None
    o = oiio.WRITTEN["out"]
    S.true(o.type == getattr(oiio, BASE[d]) and o.spec.format.basetype == o.type, "type")
    S.true((o.spec.width, o.spec.height, o.spec.nchannels) == (w, h, ch) and o.spec.channelnames == "RGB"[:ch], "spec")
    return o


def write_integers(S, d):
    """Clamped to the codes of the depth and rounded to the nearest."""
    fresh(S)
    v = [S.anyfloat("v", -1000.0, 70000.0), S.real("w", -1.0, top(d) + 1.0)]
    np = S.np
    o = written(S, d, np.array(v, dtype=np.float32), 2, 1, 1)
    if o is None:
        return
    got = list(o.pixels)
    S.true(len(got) == 2, "length")
    u = 1 << SHIFT.get(d, 0)
    for k in range(2):
        g = got[k] / float(u)
        S.true(g == S.floor(g), "whole code[%d]" % k)
        S.true(S.And(g >= 0, g <= top(d)), "range[%d]" % k)
        if k == 0 and not isinstance(v[0], float) or v[k] == v[k] and abs(v[k]) != float("inf"):
            e = S.clamp(v[k], 0.0, float(top(d)))
            S.true(S.And(g - e <= 0.5 + 0.01, e - g <= 0.5 + 0.01), "nearest[%d]" % k)
        else:
            S.true(v[k] != v[k] or g == (top(d) if v[k] > 0 else 0), "infinite[%d]" % k)
    S.true(o.spec.get("oiio:BitsPerSample") == int(d[:-1]), "bits per sample")


for d_ in INTD:
    SCENARIOS.add("write-" + d_, write_integers, d=d_)


def there_and_back(S, d):
    """What was read is written as it was; integers of fewer bits keep their codes."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    sh = SHIFT.get(d, 0)
    codes = [S.int("v%d" % k, 0, top(d)) for k in range(2)]
    image(S, oiio, "in", 2, 1, 1, [c * (1 << sh) for c in codes], BASE[d], [("oiio:BitsPerSample", 5, int(d[:-1])), ("a", 9, "b")])
    with quiet():
        px, got, w, h, ch, meta, names = F.readPixelArray("in")
        S.true(got == d, "depth")
        F.writePixelArray("out", S.np.array(px, dtype=S.np.float32), got, w, h, ch, meta, names)
    o = oiio.WRITTEN.get("out")
    if o is None:
        S.fail("written", "nothing")
        return
    S.samev(list(o.pixels), [c * (1 << sh) for c in codes], "codes")
    S.true(o.spec.get("oiio:BitsPerSample") == int(d[:-1]) and o.spec.get("a") == "b", "metadata")
    S.true(o.spec.channelnames == ("R",), "names")


for d_ in INTD:
    SCENARIOS.add("there-and-back-" + d_, there_and_back, d=d_)


def halves(S, old):
    """Half pixels keep their bits through reading and writing."""
    oiio = fresh(S, 10700 if old else S.choice("version", (10800, 20000)))
    F = S.mod("aces.filterImageWithCLF")
    np = S.np
    bits = [S.bits("b%d" % k, 16) for k in range(2)]
    raw = np.array(bits, dtype=np.uint16)
    stored = np.frombuffer(np.getbuffer(raw), dtype=np.float32) if old else raw
    oiio.IMAGES["in"] = oiio.Image(oiio.HALF, 2, 1, 1, {oiio.HALF: stored})
    how = S.choice("how", ("auto", "16f", None))
    with quiet():
        px, d, w, h, ch, meta, names = F.readPixelArray("in", how)
        S.true(d == "16f" and (w, h, ch) == (2, 1, 1), "depth")
        S.true(len(px) == 2, "count")
        back = np.frombuffer(np.getbuffer(np.float16(px)), dtype=np.uint16)
        for k in range(2):
            S.eq(back[k], raw[k], "read bits %d" % k)
        F.writePixelArray("out", px, d, w, h, ch, meta, names)
    o = oiio.WRITTEN.get("out")
    if o is None:
        S.fail("written", "nothing")
        return
    S.true(o.type == oiio.HALF, "type")
    got = np.frombuffer(np.getbuffer(o.pixels), dtype=np.uint16) if old else o.pixels
    S.true(len(got) == 2, "written count")
    for k in range(2):
        S.eq(got[k], raw[k], "written bits %d" % k)


SCENARIOS.add("halves", halves, old=False)
SCENARIOS.add("halves-old", halves, old=True)


def singles_as_halves(S):
    """Float results are rounded to half when a half image is written."""
    fresh(S)
    np = S.np
    b = S.choice("bits", tuple(struct.unpack("<e", struct.pack("<H", x))[0] for x in (0x3c00, 0x0001, 0x7bff, 0xbbff, 0x8000, 0x3555)))
    x = S.choice("off", (0.0, 0.0001220703125, 1e6, -1e6))
    v = b + x
    o = written(S, "16f", np.array([v, 0.5], dtype=np.float32), 2, 1, 1)
    if o is None:
        return
    try:
        want = struct.unpack("<H", struct.pack("<e", v))[0]
    except OverflowError:
        want = 0x7c00 if v > 0 else 0xfc00
    f = struct.unpack("<e", struct.pack("<H", int(o.pixels[0])))[0]
    S.true(int(o.pixels[0]) == want or f == struct.unpack("<e", struct.pack("<H", want))[0], "rounded", "%x %x" % (int(o.pixels[0]), want))
    S.true(int(o.pixels[1]) == 0x3800, "second")
    S.true(o.spec.get("oiio:BitsPerSample") is None, "no bits attribute")


SCENARIOS.add("singles-as-halves", singles_as_halves)


def singles(S):
    """Float pixels keep their bits."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    np = S.np
    v = [S.fbits("v%d" % k, 32) for k in range(2)]
    a = np.array(v, dtype=np.float32)
    oiio.IMAGES["in"] = oiio.Image(oiio.FLOAT, 1, 2, 1, {oiio.FLOAT: a})
    how = S.choice("how", ("auto", "32f", None))
    with quiet():
        px, d, w, h, ch, meta, names = F.readPixelArray("in", how)
        S.true(d == "32f" and (w, h, ch) == (1, 2, 1), "depth")
        F.writePixelArray("out", px, d, w, h, ch, meta, names)
    o = oiio.WRITTEN.get("out")
    if o is None:
        S.fail("written", "nothing")
        return
    for k in range(2):
        S.samebits(px[k], a[k], 32, "read %d" % k)
        S.samebits(o.pixels[k], a[k], 32, "written %d" % k)
    S.true(o.type == oiio.FLOAT and o.spec.get("oiio:BitsPerSample") is None, "type")


SCENARIOS.add("singles", singles)


def helpers(S):
    """The single-value packers."""
    fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    np = S.np
    bits = [S.bits("b%d" % k, 16) for k in range(2)]
    raw = np.array(bits, dtype=np.uint16)
    h = np.frombuffer(np.getbuffer(raw), dtype=np.float16)
    p = F.halfsToFloat(h[0], h[1])
    q = F.floatToHalfs(p)
    S.true(len(q) == 2, "two")
    for k in range(2):
        S.samebits(q[k], h[k], 16, "half %d" % k)


SCENARIOS.add("helpers", helpers)


def metadata(S):
    """Attributes are passed on, the bits per sample and compression set as asked for."""
    fresh(S)
    d = S.choice("depth", DEPTHS)
    had = S.choice("had", (None, 8, 10, 16))
    comp = S.choice("compression", (None, "lzw", ""))
    q = S.choice("quality", (-1, 0, 1, 100))
    meta = [("a", 9, "x")] + ([("oiio:BitsPerSample", 5, had)] if had else []) + [("compression", 9, "none"), ("b", (1, 2), (3.0, 4.0)), ("none", 5, 0), ("empty", 9, ""), ("zero", 11, 0.0), ("off", 5, False)]
    np = S.np
    v = np.array([0.25, 0.5, 0.75, 1.0], dtype=np.float32)
    o = written(S, d, v, 2, 2, 1, meta, compression=comp, compressionQuality=q)
    if o is None:
        return
    s = o.spec
    S.true(s.get("a") == "x" and s.get("b") == (3.0, 4.0), "passed on")
    S.true([s.get(k, "lost") for k in ("none", "empty", "zero", "off")] == [0, "", 0.0, False], "empty values passed on")
    types = dict((x.name, x.type) for x in s.extra_attribs)
    S.true(types["a"] == 9 and types["b"] == (1, 2), "types")
    S.true(s.get("compression") == (comp or "none"), "compression")
    S.true(s.get("CompressionQuality") == (q if q > 0 else None), "quality")
    want = {"8i": 8, "10i": 10, "12i": 12, "16i": 16, "16f": 16, "32f": 32}[d] if had or d in INTD else None
    S.true(s.get("oiio:BitsPerSample") == want, "bits per sample")
    S.true(o.mode == 0, "created")


SCENARIOS.add("metadata", metadata)


def absent(S):
    """A file that can not be opened gives no pixels."""
    fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    with quiet():
        got = F.readPixelArray("nothing", S.choice("how", ("auto", "10i", None)))
    S.true(got[0] is None and got[2:5] == (0, 0, 0), "nothing")


SCENARIOS.add("absent", absent)


def again(S):
    """Reading and writing images of other depths in between changes nothing."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    a, b = S.choice("depths", tuple((p, q) for p in DEPTHS for q in DEPTHS if p != q))
    meta = [oiio.Attr("a", 9, "x"), oiio.Attr("oiio:BitsPerSample", 5, 8)]
    v = S.np.array([0.0, 1.0, 2.0, 3.0], dtype=S.np.float32)
    with quiet():
        for d in (a, b, a):
            oiio.WRITTEN.clear()
            F.writePixelArray("out", v, d, 2, 2, 1, meta, ("R",))
            o = oiio.WRITTEN["out"]
            S.true(o.type == getattr(oiio, BASE[d]), "type")
            S.true(o.spec.get("oiio:BitsPerSample") == {"8i": 8, "10i": 10, "12i": 12, "16i": 16, "16f": 16, "32f": 32}[d], "bits per sample", repr(o.spec.get("oiio:BitsPerSample")))
            if d in INTD:
                S.samev(list(o.pixels), [k * (1 << SHIFT.get(d, 0)) for k in (0, 1, 2, 3)], "codes")
    S.true([(m.name, m.type, m.value) for m in meta] == [("a", 9, "x"), ("oiio:BitsPerSample", 5, 8)], "metadata kept")
    S.samev(list(v), [0.0, 1.0, 2.0, 3.0], "values kept")


SCENARIOS.add("again-write", again)


def reread(S):
    """The file is read as it is now."""
    oiio = fresh(S)
    F = S.mod("aces.filterImageWithCLF")
    for k in range(3):
        d = S.choice("depth%d" % k, ("8i", "10i", "16i"))
        n = S.choice("n%d" % k, (1, 2))
        sh = SHIFT.get(d, 0)
        codes = [S.int("v%d%d" % (k, j), 0, top(d)) for j in range(n)]
        image(S, oiio, "in", 1, n, 1, [c * (1 << sh) for c in codes], BASE[d], [("oiio:BitsPerSample", 5, int(d[:-1]))] if sh else [])
        with quiet():
            px, got, w, h, ch, meta, names = F.readPixelArray("in")
        S.true((got, w, h, ch) == (d, 1, n, 1) and len(meta) == (1 if sh else 0), "form", "%s" % got)
        S.samev(list(px), codes, "codes %d" % k)


SCENARIOS.add("again-read", reread)
