"""C24 Inverses of 1D LUTs"""
import math
import struct

from props.luts import *

SCENARIOS = Registry()
BOUNDS = "LUTs of 2 to 4 entries with all entries symbolic (increasing, flat stretches included) and of 5 to 7 entries with one or two symbolic entries, one or three channels of different ranges, input ranges " \
         "from a choice of six; symbolic values within the outputs of the LUT and beyond; half-domain inverses at 14 codes and symbolic values between them and their successors; " \
         "index map and resampled inverses of fixed curves of 33 to 1100 entries with one symbolic entry and symbolic values around it, exact at the positions of resampled inverses of up to 2100 entries; outputs of 1e5 to 1e-9" \
         "; inverses asked for after others of the same size"
OUTSIDE = "decreasing and constant LUTs; half-domain inverses beyond the LUT's outputs (they extrapolate)"

RANGES = ((0.0, 1.0), (-0.125, 1.125), (0.0, 2.0), (0.25, 1.0), (-1.0, 1.0), (-2.0, -1.0))


def entries(S, n, name="e", lo=0.0, how="all"):
    """An increasing curve; how: which entries are symbolic, or 'flat' stretches."""
    steps = [0.25, 0.5, 0.125, 1.0, 0.25, 0.75]
    out = [S.real(name + "0", lo - 0.25, lo + 0.25) if how in ("all", "flat", "first") else lo + 0.125]
    flat = S.choice(name + "flat", tuple(range(n - 1)) if n > 2 else (-1,)) if how == "flat" else -1
    for k in range(1, n):
        if k - 1 == flat:
            d = 0.0
        elif how in ("all", "flat") or how == k:
            d = S.real("%sd%d" % (name, k), 0.0625, 2.0)
        else:
            d = steps[(k + n) % 6]
        out.append(out[-1] + d)
    return out


def forward(S, x, lo, hi, e):
    return lerp(S, x, lo, hi, e)


def spi(S, es, lo, hi):
    n, comps = len(es[0]), len(es)
    lines = [" ".join(str(e[k]) for e in es) for k in range(n)]
    return put(S, "\n".join(["Version 1", "From %s %s" % (lo, hi), "Length %d" % n, "Components %d" % comps, "{"] + lines + ["}", ""]), "a.spi1d")


def curves(S, n, comps, how, few=False):
    if comps == 1:
        return [entries(S, n, how=how)]
    c = n % 3 if few else S.choice("curve", (0, 1, 2))
    lows = (0.0, -0.5, 0.5)
    return [entries(S, n, "e%d" % k, lows[k], how if k == c else None) for k in range(3)], c


def build(S, kind, n, comps, how):
    few = kind == "half" or kind != "index" and n > 2 or comps == 3
    lo, hi = S.choice("range", (RANGES[4],) if few and n > 3 else (RANGES[0], RANGES[4]) if few else RANGES)
    if comps == 1:
        es, c = curves(S, n, 1, how), 1 if few else S.choice("channel", (0, 1, 2))
    else:
        es, c = curves(S, n, 3, how, few and kind != "index" and n > 2)
    direct = S.choice("direct", (False, True)) if comps == 1 and n == 3 and kind != "half" else False
    if direct:
        f = {"index": "IndexMap", "resampled": "Resampled", "half": "HalfDomain"}[kind]
        m = S.mod("aces.lutFormats.Sampling")
        nds = getattr(m, "generateLUT1DInverse" + f)([n, comps], [es[k][i] for i in range(n) for k in range(comps)], lo, hi)
        pl = S.clf.ProcessList()
        for x in nds:
            pl.addProcess(x)
    else:
        pl = registry(S).read(spi(S, es, lo, hi), inverse=True, inversesUseIndexMaps=kind == "index", inversesUseHalfDomain=kind == "half")
    return pl, es, c, lo, hi


def bounds(S, es):
    a, b = es[0][0], es[0][-1]
    for x in es[1:]:
        a, b = S.min(a, x[0]), S.max(b, x[-1])
    return a, b


def index(S, n, comps, how):
    pl, es, c, lo, hi = build(S, "index", n, comps, how)
    e = es[c % comps]
    y = S.real("y", -1.0, 16.0)
    S.assume(y >= e[0])
    S.assume(y <= e[-1])
    px = [es[k % comps][n // 2] for k in range(3)]
    px[c] = y
    out = run1(S, pl, px)
    for k in range(3):
        S.close(forward(S, out[k], lo, hi, es[k % comps]), px[k], "undone" if k == c else "other", scale=8.0, ctol=2e-4)
        S.true(S.And(out[k] >= lo - 1e-5, out[k] <= hi + 1e-5), "range")


def index_ends(S, n):
    """Entries give their positions, values beyond the LUT's outputs the ends."""
    pl, es, c, lo, hi = build(S, "index", n, 1, "all")
    e = es[0]
    for k in range(n):
        px = [e[0]] * 3
        px[c] = e[k]
        out = run1(S, pl, px)
        S.close(out[c], position(k, n, lo, hi), "entry", scale=1.0, ctol=2e-4)
        S.close(out[(c + 1) % 3], lo, "first", scale=1.0, ctol=2e-4)
    px = [e[0] - 1.0, e[-1] + 1.0, e[0] - 100.0]
    out = run1(S, pl, px)
    S.closev(out, [lo, hi, lo], "beyond", scale=1.0, ctol=2e-4)


def resampled(S, n, comps, how, ks):
    """Between two positions of the inverse the result lies between the preimages of both."""
    pl, es, c, lo, hi = build(S, "resampled", n, comps, how)
    e = es[c % comps]
    a, b = bounds(S, es)
    m = 2 * n - 1
    k = S.choice("k", ks)
    ya, yb = a + k / float(m) * (b - a), a + (k + 1) / float(m) * (b - a)
    t = S.real("t", 0.0, 1.0)
    y = ya + t * (yb - ya)
    S.assume(y >= e[0])
    S.assume(y <= e[-1])
    px = [y] * 3 if comps == 1 else [x[n // 2] for x in es]
    px[c] = y
    out = run1(S, pl, px)
    z = forward(S, out[c], lo, hi, e)
    S.true(S.And(z >= ya - 1e-4, z <= yb + 1e-4), "undone")
    S.true(S.And(out[c] >= lo - 1e-5, out[c] <= hi + 1e-5), "range")


def resampled_at(S, n, comps, how):
    """Exact at its own positions, clamped beyond."""
    pl, es, c, lo, hi = build(S, "resampled", n, comps, how)
    e = es[c % comps]
    a, b = bounds(S, es)
    k = S.choice("k", tuple(range(2 * n)))
    y = a + k / (2 * n - 1.0) * (b - a)
    px = [a] * 3
    px[c] = y
    out = run1(S, pl, px)
    if y < e[0]:
        y = e[0]
    if y > e[-1]:
        y = e[-1]
    S.close(forward(S, out[c], lo, hi, e), y, "undone", scale=8.0, ctol=5e-4)
    px[c] = b + 1.0
    out = run1(S, pl, px)
    S.close(out[c], hi, "above", scale=1.0, ctol=2e-4)
    S.close(out[(c + 1) % 3], lo, "below", scale=1.0, ctol=2e-4)


for kind, fn in (("index", index),):
    SCENARIOS.add("index-2", fn, n=2, comps=1, how="all")
    SCENARIOS.add("index-3", fn, n=3, comps=1, how="all")
    SCENARIOS.add("index-4", fn, n=4, comps=1, how="all")
    SCENARIOS.add("index-flat", fn, n=4, comps=1, how="flat")
    SCENARIOS.add("index-rgb", fn, n=3, comps=3, how="all")
    SCENARIOS.add("index-rgb-flat", fn, n=4, comps=3, how="flat")
SCENARIOS.add("index-ends", index_ends, n=3)
SCENARIOS.add("index-ends-5", index_ends, n=5)
SCENARIOS.add("resampled-2", resampled, n=2, comps=1, how="all", ks=(0, 1, 2))
for k in range(5):
    SCENARIOS.add("resampled-3-%d" % k, resampled, n=3, comps=1, how="all", ks=(k,))
SCENARIOS.add("resampled-flat", resampled, n=3, comps=1, how="flat", ks=(0, 2, 4))
SCENARIOS.add("resampled-flat-4", resampled, n=4, comps=1, how="flat", ks=(1, 3, 5), tier="thorough")
for n, how in ((2, 1), (2, "first"), (3, 1), (4, 2)):
    SCENARIOS.add("resampled-rgb-%d-%s" % (n, how), resampled, n=n, comps=3, how=how, ks=(0, n - 1, 2 * n - 2))
    SCENARIOS.add("resampled-rgb-at-%d-%s" % (n, how), resampled_at, n=n, comps=3, how=how)
SCENARIOS.add("resampled-5", resampled, n=5, comps=1, how=2, ks=(3, 4, 7))
SCENARIOS.add("resampled-at-3", resampled_at, n=3, comps=1, how="all")
SCENARIOS.add("resampled-at-4", resampled_at, n=4, comps=1, how="all", tier="thorough")
SCENARIOS.add("resampled-at-6", resampled_at, n=6, comps=1, how=3)


CODES = (0x3800, 0x3801, 0x3555, 0x3BFF, 0x3C00, 0x3400, 0x2E66, 0x3A00, 0x0000, 0x0001, 0x0400, 0xB000, 0x4000, 0x4100)


def half_value(code):
    return struct.unpack("<e", struct.pack("<H", code))[0]


def half(S, n, comps, how, codes):
    """At each half the preimage; between two, a value between the preimages of both."""
    code = S.choice("code", codes)
    h0, h1 = sorted((half_value(code), half_value(code + 1)))
    S.narrow("aces.lutFormats.Sampling", 65536, [code, code + 1, 0x3800, 0x3801])
    pl, es, c, lo, hi = build(S, "half", n, comps, how)
    e = es[c % comps]
    y = S.real("y", h0, h1)
    S.assume(y >= e[0])
    S.assume(y <= e[-1])
    px = [0.5 if comps == 3 else y] * 3
    px[c] = y
    out = run1(S, pl, px)
    z = forward(S, out[c], lo, hi, e)
    S.true(S.And(z >= h0 - 1e-4, z <= h1 + 1e-4), "undone")
    S.true(S.And(out[c] >= lo - 1e-3, out[c] <= hi + 1e-3), "range")
    for k in range(3):
        o = es[k % comps]
        if k != c and comps == 3 and o[0] <= 0.5 and o[-1] >= 0.5:
            S.close(forward(S, out[k], lo, hi, o), 0.5, "other", scale=1.0, ctol=2e-3)


SCENARIOS.add("half-2", half, n=2, comps=1, how="all", codes=CODES, conf={"weight": 6, "quick_s": 150})
SCENARIOS.add("half-3", half, n=3, comps=1, how="all", codes=(0x3800, 0x3C00, 0x0000))
SCENARIOS.add("half-3b", half, n=3, comps=1, how="all", codes=(0xB000, 0x3801, 0x4000), tier="thorough")
for k, how in enumerate((1, 2, "first")):
    SCENARIOS.add("half-3-%s" % how, half, n=3, comps=1, how=how, codes=CODES[k::3])
    SCENARIOS.add("half-5-%s" % how, half, n=5, comps=1, how=how, codes=CODES[(k + 1) % 3::3], tier="thorough" if k else "quick")
SCENARIOS.add("half-flat", half, n=4, comps=1, how="flat", codes=(0x3800, 0x3C00))
SCENARIOS.add("half-rgb-2", half, n=2, comps=3, how=1, codes=(0x3800, 0x3555, 0x3400, 0x4000))
SCENARIOS.add("half-rgb-4", half, n=4, comps=3, how=2, codes=(0x3801, 0x3C00, 0x3A00, 0x4100))


def ramp(n, c=0):
    """A strictly increasing curve of many entries."""
    return [c * 0.0625 + (k + (0.125 if k % 3 == 1 else 0.0)) / (n - 1.0) * (1.0 + 0.25 * c) + 0.25 * (k / (n - 1.0)) ** 2 for k in range(n)]


def large(S, kind, n, comps, at, c, span=(0.0, 1.0)):
    """Fixed curves of many entries, one entry anywhere between its neighbours; a value around it."""
    lo, hi = span
    es = [ramp(n, k) for k in range(comps)]
    e = es[c % comps]
    at = at % n
    left = e[at - 1] if at else e[0] - 0.25
    right = e[at + 1] if at < n - 1 else e[-1] + 0.25
    t = S.real("t", 0.125, 0.875)
    e[at] = left + t * (right - left)
    f = spi(S, es, lo, hi)
    pl = registry(S).read(f, inverse=True, inversesUseIndexMaps=kind == "index", inversesUseHalfDomain=False)
    px = [es[k % comps][n // 2 if n // 2 != at else n // 2 + 2] for k in range(3)]
    first, last = max(at - 1, 0), min(at + 1, n - 1)
    y = S.real("y", -1.0, 3.0)
    S.assume(y >= e[first])
    S.assume(y <= e[last])
    px[c] = y
    out = run1(S, pl, px)
    x0, x1 = position(first, n, lo, hi), position(last, n, lo, hi)
    tol = 1e-4 * (hi - lo)
    if kind == "index":
        S.true(S.And(out[c] >= x0 - tol, out[c] <= x1 + tol), "range")
        # the forward curve there, times its length so that the tolerance means positions
        w = (x1 - x0) / (last - first)
        if at == first or y > e[at]:
            k = at
        else:
            k = at - 1
        # in positions, divided by the slope of the curve
        S.close((out[c] - position(k, n, lo, hi)) / w * (e[k + 1] - e[k]) * n, (y - e[k]) * n, "undone", scale=1.0, ctol=2e-3)
    else:
        a, b = bounds(S, es)
        step = (b - a) / (2.0 * n - 1.0)
        z = forward_at(S, out[c], lo, hi, e, max(first - 4, 0), min(last + 4, n - 1))
        S.true(S.And(z >= y - step * 1.02 - 1e-4, z <= y + step * 1.02 + 1e-4), "undone")
    for k in range(3):
        if k != c:
            o = es[k % comps]
            i = o.index(px[k])
            if kind == "index":
                S.close(out[k], position(i, n, lo, hi), "other", scale=1.0, ctol=2e-4)
            else:
                z = forward_at(S, out[k], lo, hi, o, max(i - 5, 0), min(i + 5, n - 1))
                S.true(S.And(z >= px[k] - step * 1.02 - 1e-4, z <= px[k] + step * 1.02 + 1e-4), "other undone")


def forward_at(S, x, lo, hi, e, first, last):
    """The curve around the entries first..last."""
    n = len(e)
    t = (x - lo) / (hi - lo) * (n - 1.0)
    S.true(S.And(t >= first - 0.01, t <= last + 0.01), "place")
    for k in range(first, last):
        if t <= k + 1.0:
            return e[k] + (t - k) * (e[k + 1] - e[k])
    return e[last]


for kind in ("index", "resampled"):
    for n, comps, at, c, span in ((33, 1, 20, 1, (0.0, 1.0)), (65, 3, 63, 2, (0.0, 1.0)), (256, 1, -1, 0, (-0.125, 1.125)), (257, 3, 130, 1, (0.0, 2.0)), (1024, 1, 1000, 2, (0.0, 1.0)), (1100, 3, 0, 0, (0.0, 1.0))):
        if kind == "resampled" and at in (0, -1):
            at = n // 3
        SCENARIOS.add("large-%s-%d-%d" % (kind, n, comps), large, kind=kind, n=n, comps=comps, at=at, c=c, span=span, tier="thorough" if kind == "resampled" and n > 1024 else "quick")


def large_at(S, n, comps, at, c, span):
    """Exact at the positions of the inverse around the arbitrary entry."""
    lo, hi = span
    es = [ramp(n, k) for k in range(comps)]
    e = es[c % comps]
    a, b = bounds(S, es)
    left, right = e[at - 1], e[at + 1]
    t = S.real("t", 0.125, 0.875)
    e[at] = left + t * (right - left)
    pl = registry(S).read(spi(S, es, lo, hi), inverse=True, inversesUseIndexMaps=False, inversesUseHalfDomain=False)
    m = 2 * n - 1.0
    first = int(math.ceil((left - a) / (b - a) * m))
    w = (hi - lo) / (n - 1.0)
    for i in range(first, first + 8):
        y = a + i / m * (b - a)
        if y > right:
            break
        px = [es[k % comps][0] for k in range(3)]
        px[c] = y
        out = run1(S, pl, px)
        k = at if y > e[at] else at - 1
        S.close((out[c] - position(k, n, lo, hi)) / w * (e[k + 1] - e[k]) * n, (y - e[k]) * n, "undone", scale=1.0, ctol=2e-3)


for n, comps, at, c, span in ((33, 1, 20, 1, (0.0, 1.0)), (257, 3, 130, 1, (0.0, 2.0)), (600, 1, 555, 2, (-0.125, 1.125)), (1024, 1, 1000, 0, (0.0, 1.0)), (1100, 3, 40, 0, (0.0, 1.0)), (2100, 1, 2048, 1, (0.0, 1.0))):
    SCENARIOS.add("large-at-%d-%d" % (n, comps), large_at, n=n, comps=comps, at=at, c=c, span=span)


def magnitudes(S, n, unit, kind):
    """Curves of very large or very small outputs."""
    e = [unit * x for x in entries(S, n, how="all" if n == 2 else 1)]
    pl = registry(S).read(spi(S, [e], 0.0, 1.0), inverse=True, inversesUseIndexMaps=kind == "index", inversesUseHalfDomain=False)
    k = S.choice("k", tuple(range(2 * n)))
    y = e[0] + k / (2 * n - 1.0) * (e[-1] - e[0])
    out = run1(S, pl, [e[0], y, e[-1]])
    S.close(forward(S, out[1], 0.0, 1.0, e) / unit, y / unit, "undone", scale=8.0, ctol=5e-4)
    S.closev([out[0], out[2]], [0.0, 1.0], "ends", scale=1.0, ctol=5e-4)


for unit in (1e5, 1e-3, 1e-6, 1e-9):
    for kind in ("index", "resampled"):
        for n in (2, 3, 5):
            SCENARIOS.add("magnitudes-%g-%s-%d" % (unit, kind, n), magnitudes, n=n, unit=unit, kind=kind)


def again(S, kind, n):
    """Two LUTs with the same ends and range: each has its own inverse."""
    m = S.mod("aces.lutFormats.Sampling")
    f = getattr(m, "generateLUT1DInverse" + {"index": "IndexMap", "resampled": "Resampled", "half": "HalfDomain"}[kind])
    which = S.choice("entry", tuple(range(1, n - 1)))
    made = []
    any_ = S.choice("any", (0, 1))
    for k in range(2):
        e = [q / (n - 1.0) for q in range(n)]
        if k != any_:
            e[which] += 0.1875 / n
        else:
            e[which] = S.real("e", e[which - 1] + 0.0625 / n, e[which + 1] - 0.0625 / n)
        made.append((e, f([n, 1], list(e), 0.0, 1.0)))
    for e, nds in made:
        pl = plist(S, *nds)
        for q in range(n):
            out = run1(S, pl, [e[q]] * 3)
            if kind == "index":
                S.closev(out, [q / (n - 1.0)] * 3, "entry", scale=1.0, ctol=2e-4)
        if kind == "resampled":
            for j in (0, 1, n - 1, n, n + 1):
                y = j / (2 * n - 1.0)
                out = run1(S, pl, [y] * 3)
                S.close(forward(S, out[j % 3], 0.0, 1.0, e), y, "undone", scale=8.0, ctol=5e-4)


for n in (3, 4):
    SCENARIOS.add("again-index-%d" % n, again, kind="index", n=n)
    SCENARIOS.add("again-resampled-%d" % n, again, kind="resampled", n=n)
