"""C17 Float encodings"""
import os
import struct
import xml.etree.ElementTree as ET

from props.common import *

SCENARIOS = Registry()
BOUNDS = "every 16, 32 and 64 bit pattern that is no NaN (infinities, denormals and both zeros included) in every encoding of its width; every single-precision value in the half encodings and every " \
         "double in the single-precision ones (rounded to nearest even); arrays of 2 to 12 entries with 1 to 4 of them symbolic, and of up to 4098 (14739 thorough) with 1 or 2 symbolic near the end; matrices, 1D and 3D LUTs; raw halfs; written by the library or by " \
         "another program; to elements and to files, plain and compressed" \
         "; up to four nodes of different encodings in one list; encodings changed after use"
OUTSIDE = "NaN patterns other than that a NaN stays a NaN; the decimal encoding (C16)"

ENC = {"integer16bit": (16, 10), "integer32bit": (32, 10), "integer64bit": (64, 10), "hex16bit": (16, 16), "hex32bit": (32, 16), "hex64bit": (64, 16)}
NAN = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}
FILL = (0.5, -2.0, 1.0, 0.0, 65504.0, -0.125, 6.0 / 65536, 3.0, 0.25, -1.0, 2.0, 4.0)


def number(S, code, w):
    """The code is not that of a NaN."""
    sign = 1 << (w - 1)
    S.assume(S.Or(code <= NAN[w], S.And(code >= sign, code <= sign + NAN[w])))


def code_of(x, w):
    return struct.unpack({16: "<H", 32: "<I", 64: "<Q"}[w], struct.pack({16: "<e", 32: "<f", 64: "<d"}[w], x))[0]


def inverse(S, w, first):
    """The conversions between codes, texts and values are inverse to each other."""
    C = S.mod("aces.clf.Common")
    f, g, h, i = {16: (C.uint16ToHalf, C.halfToUInt16, C.halfToHex, C.hexToHalf), 32: (C.uint32ToFloat32, C.float32ToUInt32, C.float32ToHex, C.hexToFloat32),
                  64: (C.uint64ToDouble, C.doubleToUInt64, C.doubleToHex, C.hexToDouble)}[w]
    if first == "code":
        b = S.bits("b", w)
        number(S, b, w)
        S.true(g(f(b)) == b, "code to value to code")
        text = h(f(b))
        S.true(S.codenum(text, 16) == b, "hexadecimal digits")
        S.samebits(i(text), f(b), w, "hexadecimal back")
    elif first == "value":
        v = S.fbits("b", w)
        S.samebits(f(g(v)), v, w, "value to code to value")
        S.samebits(i(h(v)), v, w, "value to text to value")
    else:
        for x in (0.0, -0.0, 1.0, -2.0, 0.5, 65504.0, 6.103515625e-05, 5.960464477539063e-08, float("inf"), float("-inf")):
            c = code_of(x, w)
            S.true(int(g(x)) == c, "code", repr(x))
            S.true(h(x) == ("%%0%dx" % (w // 4)) % c, "hexadecimal text", h(x))
            S.samebits(f(c), x, w, "value of the code")
            for t in (h(x), h(x).upper()):
                S.samebits(i(t), x, w, "value of the text")


for w in (16, 32, 64):
    for first in ("code", "value", "known"):
        SCENARIOS.add("convert-%s-%d" % (first, w), inverse, w=w, first=first)


def rounded(S, src, w):
    """Values of more precision are rounded to the nearest of the encoding."""
    C = S.mod("aces.clf.Common")
    v = S.fbits("b", src)
    if w == 16:
        S.samebits(C.uint16ToHalf(C.halfToUInt16(v)), v, 16, "rounded to half")
        S.samebits(C.hexToHalf(C.halfToHex(v)), v, 16, "rounded to half, text")
    else:
        S.samebits(C.uint32ToFloat32(C.float32ToUInt32(v)), v, 32, "rounded to single")


SCENARIOS.add("rounded-32-16", rounded, src=32, w=16)
SCENARIOS.add("rounded-64-16", rounded, src=64, w=16)
SCENARIOS.add("rounded-64-32", rounded, src=64, w=32)


def values_of(S, w, total, count, at):
    at = at % total
    vals = [FILL[k % len(FILL)] for k in range(total)]
    for k in range(count):
        vals[(at + k * 5) % total] = S.fbits("b%d" % k, w)
    return vals


def node_of(S, what, vals, enc):
    if what == "matrix":
        n = S.clf.Matrix("16f", "16f", "i", "n")
        n.setMatrix([3, len(vals) // 3], vals, enc)
    elif what == "lut1d":
        n = S.clf.LUT1D("16f", "16f", "i", "n")
        n.setArray(1, vals, enc)
    elif what == "lut1d3":
        n = S.clf.LUT1D("16f", "32f", "i", "n")
        n.setArray(3, vals, enc)
    else:
        n = S.clf.LUT3D("16f", "16f", "i", "n")
        size = round((len(vals) // 3) ** (1 / 3.0))
        n.setArray([int(size)] * 3 if len(vals) == 3 * size ** 3 else [2, 2, len(vals) // 12], vals, enc)
    return n


def words(S, root, kind):
    a = root.find(kind).find("Array")
    return a.get("floatEncoding"), a.text.split()


def kind_of(what):
    return {"matrix": "Matrix", "lut1d": "LUT1D", "lut1d3": "LUT1D", "lut3d": "LUT3D"}[what]


def arr_of(node):
    if node.getNodeType() == "Matrix":
        return list(node._array.getValues()) if hasattr(node, "_array") else None
    return list(node.getLUTValues())


def file_trip(S, enc, what, total, count, zipped, src, back=False):
    w, base = ENC[enc]
    C = S.mod("aces.clf.Common")
    vals = values_of(S, src, total, count, -7 if back else 1)
    pl = plist(S, node_of(S, what, list(vals), enc))
    f = os.path.join(S.tmp(), "a.clf")
    if zipped:
        pl.writeFile(f, writeGzip=True)
    else:
        pl.writeFile(f)
        e, t = words(S, ET.parse(f).getroot(), kind_of(what))
        S.true(e == enc, "encoding is written")
        S.true(len(t) == total, "count")
        to = {16: C.halfToUInt16, 32: C.float32ToUInt32, 64: C.doubleToUInt64}[w]
        for k in range(total):
            c = S.codenum(t[k], base)
            v = to(vals[k])
            if isinstance(vals[k], float):
                S.true(c == code_of(vals[k], w), "text of a constant", t[k])
            else:
                S.true(S.Or(c == v, vals[k] != vals[k]), "text of a value")
    again = S.clf.ProcessList(f)
    n = again[0]
    got = arr_of(n)
    S.true(len(got) == total, "count read")
    for k in range(total):
        S.samebits(got[k], vals[k], w, "value read")
    # and once more
    g = os.path.join(S.tmp(), "b.clf")
    again.writeFile(g)
    again = arr_of(S.clf.ProcessList(g)[0])
    for k in range(total):
        S.samebits(again[k], vals[k], w, "value read again")
    S.true(words(S, ET.parse(g).getroot(), kind_of(what))[0] == enc, "encoding is kept")


for k, enc in enumerate(sorted(ENC)):
    w = ENC[enc][0]
    for j, (what, total) in enumerate((("matrix", 9), ("lut1d", 4), ("lut1d3", 6), ("lut3d", 12))):
        SCENARIOS.add("file-%s-%s" % (enc, what), file_trip, enc=enc, what=what, total=total, count=2, zipped=(j + k) % 3 == 0, src=w)
    if w == 16:
        SCENARIOS.add("file-%s-single" % enc, file_trip, enc=enc, what="lut1d", total=2, count=1, zipped=False, src=32)
SCENARIOS.add("file-more", file_trip, tier="thorough", enc="hex32bit", what="matrix", total=12, count=8, zipped=False, src=32)


def foreign(S, enc, what, total):
    """Documents written by another program: any codes."""
    w, base = ENC[enc]
    codes = [code_of(FILL[k % len(FILL)], w) for k in range(total)]
    at = S.choice("at", (0, total - 1))
    b = S.bits("b", w)
    number(S, b, w)
    C = S.mod("aces.clf.Common")
    if base == 16:
        fmt = S.choice("case", ("%%0%dx", "%%0%dX")) % (w // 4)
        texts = [fmt % c for c in codes]
        texts[at] = {16: C.halfToHex, 32: C.float32ToHex, 64: C.doubleToHex}[w]({16: C.uint16ToHalf, 32: C.uint32ToFloat32, 64: C.uint64ToDouble}[w](b))
    else:
        texts = [str(c) for c in codes]
        texts[at] = str(b)
    dim = {"Matrix": "3 3", "LUT1D": "%d 1" % total}[what]
    doc = ('<ProcessList id="a"><%s inBitDepth="16f" outBitDepth="16f"><Array dim="%s" floatEncoding="%s">\n%s\n</Array></%s></ProcessList>' % (what, dim, enc, "\n ".join(texts), what))
    f = os.path.join(S.tmp(), "a.clf")
    with open(f, "w") as fp:
        fp.write(doc)
    got = arr_of(S.clf.ProcessList(f, True)[0])
    to = {16: C.halfToUInt16, 32: C.float32ToUInt32, 64: C.doubleToUInt64}[w]
    for k in range(total):
        S.true(to(got[k]) == (b if k == at else codes[k]), "code of the value read")


for enc in sorted(ENC):
    SCENARIOS.add("foreign-%s-matrix" % enc, foreign, enc=enc, what="Matrix", total=9)
    SCENARIOS.add("foreign-%s-lut" % enc, foreign, enc=enc, what="LUT1D", total=5)


def raw(S, total, columns, half_domain, enc, back=False):
    """Raw half codes."""
    vals = values_of(S, 16, total, 2, -7 if back else 1)
    n = S.clf.LUT1D("16f", "16f", "i", "n", "linear", True, half_domain)
    if enc:
        n.setArray(columns, list(vals), enc)
    else:
        n.setArray(columns, list(vals))
    f = os.path.join(S.tmp(), "a.clf")
    plist(S, n).writeFile(f)
    root = ET.parse(f).getroot()
    S.true(root.find("LUT1D").get("rawHalfs") in ("True", "true"), "marked as raw halfs")
    e, t = words(S, root, "LUT1D")
    C = S.mod("aces.clf.Common")
    for k in range(total):
        c = S.codenum(t[k])
        if isinstance(vals[k], float):
            S.true(c == code_of(vals[k], 16), "text of a constant", t[k])
        else:
            S.true(S.Or(c == C.halfToUInt16(vals[k]), vals[k] != vals[k]), "text of a value")
    pl = S.clf.ProcessList(f, S.choice("strict", (True, False)))
    got = arr_of(pl[0])
    for k in range(total):
        S.samebits(got[k], vals[k], 16, "value read")
    g = os.path.join(S.tmp(), "b.clf")
    pl.writeFile(g)
    e2, t2 = words(S, ET.parse(g).getroot(), "LUT1D")
    S.true(len(t2) == total, "count")
    for k in range(total):
        S.true(S.Or(S.codenum(t2[k]) == S.codenum(t[k]), vals[k] != vals[k]), "second document")


SCENARIOS.add("raw-1", raw, total=5, columns=1, half_domain=False, enc=None)
SCENARIOS.add("raw-3", raw, total=6, columns=3, half_domain=False, enc=None)
SCENARIOS.add("raw-domain", raw, total=4, columns=1, half_domain=True, enc=None)
for enc in sorted(ENC):
    if enc != "integer16bit":
        # the codes are raw halfs whatever encoding is asked for
        SCENARIOS.add("raw-" + enc, raw, total=4, columns=1, half_domain=False, enc=enc)
SCENARIOS.add("raw-integer16", raw, total=4, columns=1, half_domain=False, enc="integer16bit")


def raw_foreign(S, spelling, used):
    codes = [code_of(x, 16) for x in (0.0, 0.5, 1.0)]
    b = S.bits("b", 16)
    S.assume(b <= 0x7bff)
    texts = [str(c) for c in codes]
    texts[1] = str(b)
    doc = ('<ProcessList id="a"><LUT1D inBitDepth="16f" outBitDepth="16f"%s><Array dim="3 1">%s</Array></LUT1D></ProcessList>' % (spelling, " ".join(texts)))
    f = os.path.join(S.tmp(), "a.clf")
    with open(f, "w") as fp:
        fp.write(doc)
    n = S.clf.ProcessList(f)[0]
    got = arr_of(n)
    C = S.mod("aces.clf.Common")
    if used:
        S.true(C.halfToUInt16(got[1]) == b, "code of the value read")
        S.samebits(got[2], 1.0, 16, "one")
    else:
        S.true(got[2] == 15360.0, "plain number")


SCENARIOS.add("raw-true", raw_foreign, spelling=' rawHalfs="true"', used=True)
SCENARIOS.add("raw-True", raw_foreign, spelling=' rawHalfs="True"', used=True)
SCENARIOS.add("raw-false", raw_foreign, spelling=' rawHalfs="false"', used=False)
SCENARIOS.add("raw-absent", raw_foreign, spelling='', used=False)


# Long arrays, the arbitrary entries near the end
for enc, what, total in (("hex16bit", "lut1d3", 3072), ("integer16bit", "lut1d", 1024), ("hex32bit", "lut3d", 2187), ("integer32bit", "lut1d3", 768), ("integer64bit", "lut3d", 375), ("hex64bit", "lut1d", 513), ("integer16bit", "lut3d", 14739)):
    SCENARIOS.add("long-%s-%s-%d" % (enc, what, total), file_trip, enc=enc, what=what, total=total, count=2, zipped=False, src=ENC[enc][0], back=True, tier="thorough" if total > 10000 else "quick")
SCENARIOS.add("long-single-3072", file_trip, enc="hex16bit", what="lut1d3", total=3072, count=1, zipped=True, src=32, back=True)
for enc in sorted(ENC):
    SCENARIOS.add("long-foreign-%s" % enc, foreign, enc=enc, what="LUT1D", total=1025)
SCENARIOS.add("long-raw", raw, total=4098, columns=3, half_domain=False, enc=None, back=True)


def mixed(S, encs, nested):
    """Nodes of different encodings in one list keep theirs."""
    vals = []
    made = []
    for k, enc in enumerate(encs):
        w = ENC[enc][0] if enc else 64
        v = [FILL[(j + k) % len(FILL)] for j in range(9 if k % 2 else 4)]
        if enc:
            v[2] = S.fbits("b%d" % k, w)
        vals.append((w, v))
        made.append(node_of(S, "matrix" if k % 2 else "lut1d", list(v), enc) if enc else node_plain(S, k % 2, v))
    if nested:
        g = S.clf.Group("16f", "16f", "g", "g")
        for n in made[1:]:
            g.addProcess(n)
        pl = plist(S, made[0], g)
    else:
        pl = plist(S, *made)
    f, h = os.path.join(S.tmp(), "a.clf"), os.path.join(S.tmp(), "b.clf")
    pl.writeFile(f)
    back = S.clf.ProcessList(f)
    back.writeFile(h)
    for l in (back, S.clf.ProcessList(h), S.clf.ProcessList(f)):
        nodes_ = [l[0]] + list(l[1].getProcesses()) if nested else list(l)
        S.true(len(nodes_) == len(encs), "nodes")
        for n, (w, v), enc in zip(nodes_, vals, encs):
            got = arr_of(n)
            S.true(len(got) == len(v), "count")
            for j, (a, b) in enumerate(zip(got, v)):
                if enc is None or j != 2:
                    S.close(a, b, "constant", scale=1.0, ctol=1e-9)
                else:
                    S.samebits(a, b, w, "value read")
    found = [(e.get("floatEncoding"), "".join((e.text or "").split())) for e in ET.parse(h).getroot().iter("Array")]
    S.true([e for e, _ in found] == [e or "string" for e in encs] or [e for e, _ in found] == list(encs), "encodings", repr([e for e, _ in found]))


def node_plain(S, m, v):
    if m:
        n = S.clf.Matrix("16f", "16f", "i", "n")
        n.setMatrix([3, 3], list(v))
    else:
        n = S.clf.LUT1D("16f", "16f", "i", "n")
        n.setArray(1, list(v))
    return n


for k, e_ in enumerate((("hex16bit", "hex32bit", "hex64bit"), ("integer64bit", None, "integer16bit"), (None, "hex16bit", "integer32bit"), ("integer32bit", "hex32bit", None), ("hex64bit", "integer64bit", "hex64bit"),
                        ("integer16bit", "hex16bit", None, "hex32bit"))):
    SCENARIOS.add("mixed-" + "-".join(e or "plain" for e in e_), mixed, encs=e_, nested=k % 2 == 1)


def set_again(S, first, second):
    """Values set with another encoding are written with it."""
    w = ENC[second][0]
    n = S.clf.Matrix("16f", "16f", "i", "n")
    one = list(FILL[:9])
    n.setMatrix([3, 3], one, first)
    n.process([0.5, 0.25, 0.125], stride=3)
    n.write(ET.Element("x"))
    two = list(FILL[3:12])
    two[4] = S.fbits("b", w)
    n.setMatrix([3, 3], list(two), second)
    f = os.path.join(S.tmp(), "a.clf")
    plist(S, n).writeFile(f)
    e, t = words(S, ET.parse(f).getroot(), "Matrix")
    S.true(e == second and len(t) == 9, "encoding", repr(e))
    for a, b in zip(arr_of(S.clf.ProcessList(f)[0]), two):
        S.samebits(a, b, w, "value read")


for a_, b_ in (("hex16bit", "hex32bit"), ("hex32bit", "integer16bit"), ("integer64bit", "hex64bit"), ("hex64bit", "integer32bit"), ("integer16bit", "integer64bit"), ("hex32bit", "hex16bit")):
    SCENARIOS.add("set-again-%s-%s" % (a_, b_), set_again, first=a_, second=b_)
