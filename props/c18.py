"""C18 Strict reading and feature sets"""
import os
import xml.etree.ElementTree as ET

from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "every feature set of four bits (symbolic); an extension element of every kind, unknown elements of several names, dynamic parameters and groups, as the first, interior or last of up to four elements, " \
         "at the top level or in groups up to three deep; with and without namespaces; strict and not; plain and compressed; every float encoding; symbolic pixels"
OUTSIDE = "the documents a reference names (they are read without strictness); float encodings met while reading (they are not gated); unknown elements inside nodes (always skipped)"

AUTODESK, DUIKER = 1, 2
EXT = {"ExposureContrast": AUTODESK, "Gamma": AUTODESK, "Log": AUTODESK, "Reference": AUTODESK}
BODY = {
    "ExposureContrast": '<ExposureContrast id="x" inBitDepth="16f" outBitDepth="16f" style="linear"><ECParams exposure="1.0" contrast="1.0" pivot="0.5"/></ExposureContrast>',
    "Gamma": '<Gamma id="x" inBitDepth="16f" outBitDepth="16f" style="basicFwd"><GammaParams gamma="2.0"/></Gamma>',
    "Log": '<Log id="x" inBitDepth="16f" outBitDepth="16f" style="antiLog2"/>',
    "Reference": '<Reference id="x" inBitDepth="16f" outBitDepth="16f" path="missing.clf"/>',
    "Range": '<Range id="x" inBitDepth="16f" outBitDepth="16f"><minInValue>0.0</minInValue><minOutValue>0.25</minOutValue></Range>',
    "Matrix": '<Matrix id="x" inBitDepth="16f" outBitDepth="16f"><Array dim="3 3">2.0 0.0 0.0 0.0 2.0 0.0 0.0 0.0 2.0</Array></Matrix>',
    "ASC_CDL": '<ASC_CDL id="x" inBitDepth="16f" outBitDepth="16f" style="Fwd"><SOPNode><Slope>0.5 0.5 0.5</Slope></SOPNode></ASC_CDL>',
    "LUT1D": '<LUT1D id="x" inBitDepth="16f" outBitDepth="16f"><Array dim="2 1">0.0 2.0</Array></LUT1D>',
    "LUT3D": '<LUT3D id="x" inBitDepth="16f" outBitDepth="16f"><Array dim="2 2 2 3">%s</Array></LUT3D>' % " ".join("%d %d %d" % (r, g, b) for r in (0, 1) for g in (0, 1) for b in (0, 1)),
    "Dynamic": '<Range id="x" inBitDepth="16f" outBitDepth="16f"><DynamicParameter param="EXPOSURE"/><minInValue>0.0</minInValue><minOutValue>0.25</minOutValue></Range>',
    "Info": '<Info><AppRelease>x</AppRelease></Info>',
    "Description": '<Description>x</Description>',
}
PLAIN = '<Matrix id="%s" inBitDepth="16f" outBitDepth="16f"><Array dim="3 3">1.0 0.0 0.5 0.0 1.0 0.0 0.0 0.0 1.0</Array></Matrix>'
NAMESPACES = ("", ' xmlns="urn:AMPAS:CLF:v1.2"', ' xmlns="http://www.smpte-ra.org/clf" xmlns:x="urn:x" compCLFversion="1.2"')
UNKNOWN = ("Unknown", "Lut1D", "matrix", "Gamma2", "Function")


def document(body, before, after, depth, ns=""):
    inner = PLAIN % "a" * before + body + PLAIN % "b" * after
    for k in range(depth):
        inner = '<Group id="g%d" inBitDepth="16f" outBitDepth="16f">%s</Group>' % (k, inner)
        inner = PLAIN % "c" + inner if k % 2 else inner
    return '<?xml version="1.0"?><ProcessList id="list"%s>%s</ProcessList>' % (ns, inner)


def write(S, text, name="a.clf", zipped=False):
    f = os.path.join(S.tmp(), name)
    if zipped:
        import gzip
        fp = gzip.open(f, "wb")
    else:
        fp = open(f, "wb")
    fp.write(text.encode("ascii"))
    fp.close()
    return f


def with_features(S, bits, fn):
    old = S.clf.getFeatureCompatibility()
    try:
        S.clf.setFeatureCompatibility(bits)
        return fn()
    finally:
        S.clf.setFeatureCompatibility(old)


def kinds_of(container):
    out = []
    for n in container:
        out.append(n.getNodeType())
        if n.getNodeType() == "Group":
            out.append(kinds_of(n.getProcesses()))
    return out


def needs(kind, depth):
    n = EXT.get(kind, 0) | (AUTODESK if kind == "Dynamic" else 0)
    return n | (DUIKER if depth else 0)


def errors(S):
    E = S.mod("aces.clf.Errors")
    return E


def extension(S, kind, depth, zipped, ns=""):
    """Strict reading raises exactly when a needed feature set is off."""
    before, after = S.choice("around", ((0, 0), (1, 0), (0, 1), (1, 2)))
    f = write(S, document(BODY[kind], before, after, depth, ns), zipped=zipped)
    bits = S.bits("features", 4)
    if zipped:
        S.assume((bits & DUIKER) != 0)
    need = needs(kind, depth)
    off = (bits & need) != need

    def strict():
        try:
            return S.clf.ProcessList(f, strict=True)
        except errors(S).UnsupportedExtensionError:
            return None
    got = with_features(S, bits, strict)
    S.true(off if got is None else S.Not(off), "strict reading", "read" if got is not None else "rejected")
    loose = with_features(S, bits, lambda: S.clf.ProcessList(f))
    every = S.clf.ProcessList(f, strict=True)
    S.true(kinds_of(loose) == kinds_of(every), "everything is kept")
    if got is not None:
        S.true(kinds_of(got) == kinds_of(every), "everything is read")
    if kind == "Dynamic":
        n = every
        for _ in range(depth):
            n = [m for m in n if m.getNodeType() == "Group"][0].getProcesses()
        S.true(n[before].getDynamicParam("EXPOSURE"), "dynamic parameter")
    x = [[S.real("x%d" % c, 0.0, 1.0) for c in range(3)]]
    S.closev(flat(run_list(S, loose, x)), flat(run_list(S, every, x)), "result", scale=4.0)


ALLKINDS = sorted(BODY)
for k, kind in enumerate(ALLKINDS):
    for depth in (0, 1, 2):
        SCENARIOS.add("kind-%s-%d" % (kind, depth), extension, kind=kind, depth=depth, zipped=(k + depth) % 5 == 0, ns=NAMESPACES[(k + depth) % 3])
    SCENARIOS.add("kind-%s-zipped" % kind, extension, tier="thorough", kind=kind, depth=1, zipped=True)
    SCENARIOS.add("kind-%s-deep" % kind, extension, tier="thorough", kind=kind, depth=3, zipped=False)


def unknown(S, depth, zipped):
    """Unknown elements are rejected by strict reading and skipped otherwise, and nothing else is."""
    tag = S.choice("tag", UNKNOWN)
    before, after = S.choice("around", ((0, 1), (1, 0), (1, 2)))
    ns = S.choice("namespace", NAMESPACES)
    f = write(S, document('<%s inBitDepth="16f" outBitDepth="16f"><Array dim="1 1">1.0</Array></%s>' % (tag, tag), before, after, depth, ns), zipped=zipped)
    bits = S.bits("features", 4)
    if zipped:
        S.assume((bits & DUIKER) != 0)
    E = errors(S)

    def strict():
        try:
            S.clf.ProcessList(f, strict=True)
        except (E.UnknownProcessNodeError, E.UnsupportedExtensionError):
            return True
        return False
    S.true(with_features(S, bits, strict), "strict reading rejects " + tag)

    def known():
        try:
            S.clf.ProcessList(f, strict=True)
        except E.UnknownProcessNodeError:
            return True
        return False
    S.true(known(), "strict reading with all features rejects " + tag)
    loose = with_features(S, bits, lambda: S.clf.ProcessList(f))
    rest = S.clf.ProcessList(write(S, document("", before, after, depth, ns)), strict=True)
    S.true(kinds_of(loose) == kinds_of(rest), "the rest is read", repr(kinds_of(loose)))
    x = [[S.real("x%d" % c, -1.0, 1.0) for c in range(3)]]
    S.closev(flat(run_list(S, loose, x)), flat(run_list(S, rest, x)), "result", scale=4.0)


for depth in (0, 1, 2):
    SCENARIOS.add("unknown-%d" % depth, unknown, depth=depth, zipped=False)
SCENARIOS.add("unknown-zipped", unknown, depth=1, zipped=True)
SCENARIOS.add("unknown-3", unknown, tier="thorough", depth=3, zipped=False)


def two(S):
    """Two extensions, one of each set, in either order."""
    k = S.choice("first", ("Gamma", "ExposureContrast"))
    group = '<Group id="g" inBitDepth="16f" outBitDepth="16f">%s</Group>' % BODY[S.choice("inner", ("Range", "Log", "Dynamic"))]
    order = S.choice("order", (0, 1))
    body = BODY[k] + group if order else group + BODY[k]
    f = write(S, document(body, S.choice("before", (0, 1)), 1, 0))
    bits = S.bits("features", 4)

    def strict():
        try:
            S.clf.ProcessList(f, strict=True)
        except errors(S).UnsupportedExtensionError:
            return True
        return False
    S.true((with_features(S, bits, strict)) == ((bits & 3) != 3), "strict reading")


SCENARIOS.add("two", two)


def strictness(S):
    """Strictness belongs to one reading."""
    f = write(S, document(BODY["Gamma"], 1, 1, S.choice("depth", (0, 1))))
    g = write(S, document("<Unknown/>", 1, 1, S.choice("depth2", (0, 1))))
    E = errors(S)
    S.raises(lambda: S.clf.ProcessList(g, True), "strict", E.UnknownProcessNodeError)
    pl = S.clf.ProcessList(g)
    S.true(len(pl) > 0, "not strict after strict")
    S.raises(lambda: S.clf.ProcessList(g, True), "strict after not strict", E.UnknownProcessNodeError)
    q = S.clf.ProcessList()
    q.readFile(f)
    q2 = S.clf.ProcessList()
    S.raises(lambda: q2.readFile(g, True), "readFile strict", E.UnknownProcessNodeError)
    q3 = S.clf.ProcessList()
    S.raises(lambda: q3.read(ET.parse(g).getroot(), True), "read strict", E.UnknownProcessNodeError)
    q4 = S.clf.ProcessList()
    q4.read(ET.parse(g).getroot())


SCENARIOS.add("strictness", strictness)


def write_zip(S):
    """Compressed writing needs its feature set and leaves an existing file alone otherwise."""
    bits = S.bits("features", 4)
    pl = plist(S, nodes.make(S, "matrix3x3"))
    d = S.tmp()
    f = os.path.join(d, "a.clf")
    exists = S.choice("exists", (False, True))
    if exists:
        with open(f, "w") as fp:
            fp.write("old")
    E = errors(S)

    def go():
        try:
            pl.writeFile(f, writeGzip=True)
        except E.UnsupportedExtensionError:
            return False
        return True
    done = with_features(S, bits, go)
    S.true(done == ((bits & DUIKER) != 0), "compressed writing")
    if done:
        with open(f, "rb") as fp:
            S.true(fp.read(2) == b"\x1f\x8b", "is compressed")
        S.true(len(S.clf.ProcessList(f)) == 1, "reads back")
    elif exists:
        with open(f) as fp:
            S.true(fp.read() == "old", "left alone")
    else:
        S.true(not os.path.exists(f), "nothing written")
    g = os.path.join(d, "b.clf")
    with_features(S, bits, lambda: pl.writeFile(g))
    S.true(len(S.clf.ProcessList(g, True)) == 1, "plain writing")


SCENARIOS.add("write-zip", write_zip)


def encodings(S, what):
    """Writing float encodings needs their feature set."""
    bits = S.bits("features", 4)
    enc = S.choice("encoding", ("string", "integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"))
    E = errors(S)
    if what == "matrix":
        n = S.clf.Matrix("16f", "16f", "", "")
        n.setMatrix([3, 3], [0.5] * 9, enc)
    elif what == "lut1d":
        n = S.clf.LUT1D("16f", "16f", "", "")
        n.setArray(1, [0.5] * 4, enc)
    else:
        n = S.clf.LUT3D("16f", "16f", "", "")
        n.setArray([2, 2, 2], [0.5] * 24, enc)
    pl = plist(S, n)

    def go():
        try:
            return pl.write()
        except E.UnsupportedExtensionError:
            return None
    doc = with_features(S, bits, go)
    S.true((doc is not None) == S.Or(enc == "string", (bits & DUIKER) != 0), "writing " + enc)
    if doc is not None:
        a = doc.getroot()[0].find("Array")
        S.true(a.get("floatEncoding") == (None if enc == "string" else enc), "encoding written")

    def setit():
        m = S.mod("aces.clf.Array").Array([3, 3], [0.5] * 9)
        try:
            m.setFloatEncoding(enc)
        except E.UnsupportedExtensionError:
            S.true(m.getFloatEncoding() == "string", "encoding stays")
            return False
        S.true(m.getFloatEncoding() == enc, "encoding set")
        return True
    S.true(with_features(S, bits, setit) == ((bits & DUIKER) != 0), "setting " + enc)


for w in ("matrix", "lut1d", "lut3d"):
    SCENARIOS.add("encodings-" + w, encodings, what=w)


def cdl_styles(S):
    """The other spellings of the CDL styles need their feature set and mean the same."""
    pairs = (("v1.2_Fwd", "Fwd"), ("v1.2_Rev", "Rev"), ("noClampFwd", "FwdNoClamp"), ("noClampRev", "RevNoClamp"))
    a, b = S.choice("style", pairs)
    bits = S.bits("features", 4)
    n, m = nodes.make(S, "cdl-" + b), nodes.make(S, "cdl-" + b)
    n.setAttribute("style", a)
    px = [[0.3, 0.5, -0.2]]
    px[0][S.choice("channel", (0, 1, 2))] = S.real("x", -1.0, 2.0)
    E = errors(S)

    def go():
        try:
            return run_node(S, n, px)
        except E.UnsupportedExtensionError:
            return None
    out = with_features(S, bits, go)
    S.true((out is not None) == ((bits & AUTODESK) != 0), "processing with " + a)
    if out is not None:
        S.closev(flat(out), flat(run_node(S, m, px)), "result", scale=16.0)
    S.closev(flat(with_features(S, bits, lambda: run_node(S, m, px))), flat(run_node(S, m, px)), "plain style", scale=16.0)


SCENARIOS.add("cdl-styles", cdl_styles)
