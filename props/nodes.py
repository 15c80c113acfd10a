"""One node of every kind, with concrete parameters that make all channels differ."""
from props.common import SIZE

LUTVAL = (0.0, 0.125, 0.25, 0.5, 0.6875, 0.875, 1.0, 0.75)


def matrix(S, i, o, dims):
    n = S.clf.Matrix(i, o, "id", "name")
    vals = [0.5, 0.125, -0.25, 0.0625, 0.25, 0.75, 0.125, -0.5, -0.125, 0.375, 1.0, 0.25, 0.0625, 0.3125, 0.1875, 0.875, 0.4375, 0.5625, 0.9375, 0.6875]
    n.setMatrix(list(dims), vals[:dims[0] * dims[1]])
    return n


def rng(S, i, o, style, which):
    n = S.clf.Range(i, o, "id", "name", style)
    a, b = SIZE[i], SIZE[o]
    if "m" in which:
        n.setMinInValue(a * 0.125)
        n.setMinOutValue(b * 0.25)
    if "M" in which:
        n.setMaxInValue(a * 0.75)
        n.setMaxOutValue(b * 0.875)
    return n


def cdl(S, i, o, style, cls="ASCCDL"):
    n = getattr(S.clf, cls)(i, o, "id", "name", style)
    n.setSlope(1.25, 0.75, 1.5)
    n.setOffset(0.125, -0.0625, 0.25)
    n.setPower(2.0, 1.5, 0.75)
    n.setSaturation(1.25)
    return n


def indexmaps(S, n, i, count, sizes):
    a = SIZE[i]
    maps = []
    for c in range(3):
        hi = float(sizes[c] - 1)
        maps.append([[0.0, a * (0.25 + 0.0625 * c), a], [0.0, hi / 2.0 if hi % 2 == 0 else 1.0, hi]])
    if count == 1:
        n.setIndexMaps(maps[0])
    else:
        n.setIndexMaps(*maps)
    return n


def lut1d(S, i, o, size, columns, maps=0, interpolation="linear"):
    n = S.clf.LUT1D(i, o, "id", "name", interpolation)
    b = SIZE[o]
    n.setArray(columns, [b * LUTVAL[(k * 3 + c * 2 + k * k) % 8] for k in range(size) for c in range(columns)])
    if maps:
        indexmaps(S, n, i, maps, [size] * 3)
    return n


def half(S, i, o, columns=1):
    n = S.clf.LUT1D(i, o, "id", "name", "linear", halfDomain=True)
    n.setArray(columns, [((k * 37 + c * 11) % 256) / 256.0 * SIZE[o] for k in range(65536) for c in range(columns)])
    return n


def lut3d(S, i, o, sizes, interpolation, maps=0):
    n = S.clf.LUT3D(i, o, "id", "name", interpolation)
    b = SIZE[o]
    total = sizes[0] * sizes[1] * sizes[2]
    n.setArray(list(sizes), [b * LUTVAL[(k * 5 + c * 3 + k // 3) % 8] for k in range(total) for c in range(3)])
    if maps:
        indexmaps(S, n, i, maps, sizes)
    return n


def gamma(S, i, o, style):
    n = S.clf.Gamma(i, o, "id", "name", style)
    if style.startswith("basic"):
        n.setGamma(2.0, 0.0, "R")
        n.setGamma(1.5, 0.0, "G")
        n.setGamma(3.0, 0.0, "B")
    else:
        n.setGamma(2.4, 0.055, "R")
        n.setGamma(2.2, 0.099, "G")
        n.setGamma(3.0, 0.16, "B")
    return n


def log(S, i, o, style):
    n = S.clf.Log(i, o, "id", "name", style)
    if style in ("linToLog", "logToLin"):
        n.setLogParams(0.6, 685.0, 95.0, 1.0, 0.0, "R")
        n.setLogParams(0.5, 700.0, 90.0, 1.5, 0.0625, "G")
        n.setLogParams(0.7, 650.0, 64.0, 1.25, -0.125, "B")
    return n


def ec(S, i, o, style):
    n = S.clf.ExposureContrast(i, o, "id", "name", style)
    n.setExposureContrastPivot(0.5, 1.5, 0.18)
    return n


def group(S, i, o, nested):
    g = S.clf.Group(i, o, "id", "name")
    g.addProcess(matrix(S, i, "16f", (3, 4)))
    if nested:
        h = S.clf.Group("16f", o, "id2", "inner")
        h.addProcess(cdl(S, "16f", "16f", "FwdNoClamp"))
        h.addProcess(matrix(S, "16f", o, (3, 3)))
        g.addProcess(h)
    else:
        g.addProcess(rng(S, "16f", o, "noClamp", "mM"))
    return g


KINDS = {}
for d in ((3, 3), (3, 4), (4, 4), (4, 5)):
    KINDS["matrix%dx%d" % d] = (matrix, dict(dims=d))
for st, w in (("", "mM"), ("clamp", "mM"), ("noClamp", "mM"), ("clamp", "m"), ("clamp", "M"), ("noClamp", "m"), ("noClamp", "M"), ("noClamp", "")):
    KINDS["range-%s-%s" % (st or "default", w or "none")] = (rng, dict(style=st, which=w))
for st in ("Fwd", "Rev", "FwdNoClamp", "RevNoClamp"):
    KINDS["cdl-" + st] = (cdl, dict(style=st))
KINDS["lut1d-1"] = (lut1d, dict(size=5, columns=1))
KINDS["lut1d-3"] = (lut1d, dict(size=4, columns=3))
KINDS["lut1d-1-cubic"] = (lut1d, dict(size=3, columns=1, interpolation="cubic"))
KINDS["lut1d-1-map"] = (lut1d, dict(size=5, columns=1, maps=1))
KINDS["lut1d-3-maps"] = (lut1d, dict(size=5, columns=3, maps=3))
KINDS["lut1d-half"] = (half, dict())
KINDS["lut3d-tri"] = (lut3d, dict(sizes=(2, 3, 2), interpolation="trilinear"))
KINDS["lut3d-tet"] = (lut3d, dict(sizes=(3, 2, 2), interpolation="tetrahedral"))
KINDS["lut3d-tri-map"] = (lut3d, dict(sizes=(3, 3, 3), interpolation="trilinear", maps=1))
KINDS["lut3d-tet-maps"] = (lut3d, dict(sizes=(2, 3, 3), interpolation="tetrahedral", maps=3))
for st in ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"):
    KINDS["gamma-" + st] = (gamma, dict(style=st))
for st in ("log10", "log2", "antiLog10", "antiLog2", "linToLog", "logToLin"):
    KINDS["log-" + st] = (log, dict(style=st))
for st in ("linear", "video", "log"):
    KINDS["ec-" + st] = (ec, dict(style=st))
KINDS["group"] = (group, dict(nested=False))
KINDS["group-nested"] = (group, dict(nested=True))


def make(S, kind, i="16f", o="16f"):
    f, kw = KINDS[kind]
    return f(S, i, o, **kw)


def channels(kind):
    """Fewest channels per pixel."""
    return 4 if kind.startswith("matrix4") else 3


def is_range(kind):
    return kind.startswith("range") or kind == "group"
