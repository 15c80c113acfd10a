"""C15 Index maps"""
import struct

from props.common import *

SCENARIOS = Registry()
BOUNDS = "maps of 2 to 6 points, and of 7 to 64 with one or two symbolic points, inputs and indices symbolic in [-4,4] and [0,64] (inputs at least 1/1000 apart); any value in [-8,8]; with the cache: fixed inputs at halves, symbolic indices, values in " \
         "short intervals around the points and at selected halves; NaN and infinities; steps (two points at one input); up to three lookups in a row; every order of changing points and switching the cache"
OUTSIDE = "with the cache: inputs that are no halves (the cache interpolates between halves) and values beyond the half range"


def half_value(code):
    return struct.unpack("<e", struct.pack("<H", code))[0]


def points(S, n, lo=-4.0, hi=4.0, name="p"):
    xs = S.reals(name, n, lo, hi)
    for k in range(n - 1):
        S.assume(xs[k] + 1e-3 <= xs[k + 1])
    return xs


def pwl(S, x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            return ys[k] + (x - xs[k]) / (xs[k + 1] - xs[k]) * (ys[k + 1] - ys[k])
    return ys[-1]


def make(S, *a, **k):
    return S.mod("aces.clf.IndexMap").IndexMap(*a, **k)


def value(S, n):
    xs = points(S, n)
    ys = S.reals("q", n, 0.0, 64.0)
    m = make(S, n, [list(xs), list(ys)])
    x = S.real("x", -8.0, 8.0)
    S.close(m.process(x), pwl(S, x, xs, ys), "value", scale=64.0, ctol=5e-3)
    S.close(m.process(x), pwl(S, x, xs, ys), "again", scale=64.0, ctol=5e-3)


for n in (2, 3, 4, 5):
    SCENARIOS.add("value-%d" % n, value, n=n)
SCENARIOS.add("value-6", value, n=6, tier="thorough")


def sequence(S, n):
    """What was looked up before does not matter."""
    xs = points(S, n)
    ys = S.reals("q", n, 0.0, 64.0)
    m = make(S, n, [list(xs), list(ys)])
    x, y = S.real("x", -8.0, 8.0), S.real("y", -8.0, 8.0)
    S.close(m.process(x), pwl(S, x, xs, ys), "first", scale=64.0, ctol=5e-3)
    S.close(m.process(y), pwl(S, y, xs, ys), "second", scale=64.0, ctol=5e-3)
    S.close(m.process(x), pwl(S, x, xs, ys), "third", scale=64.0, ctol=5e-3)


for n in (2, 3, 4):
    SCENARIOS.add("sequence-%d" % n, sequence, n=n)


def steps(S, at):
    """Two points at the same input: a step."""
    xs = [-1.0, 0.5, 2.0]
    xs.insert(at, xs[at])
    ys = S.reals("q", 4, 0.0, 64.0)
    m = make(S, 4, [list(xs), list(ys)])
    x = S.real("x", -8.0, 8.0)
    r = m.process(x)
    if x == xs[at]:
        S.true(S.Or(r == ys[at], r == ys[at + 1]), "at the step")
    elif x < xs[at]:
        S.close(r, pwl(S, x, xs[:at + 1], ys[:at + 1]), "below the step", scale=64.0, ctol=5e-3)
    else:
        S.close(r, pwl(S, x, xs[at + 1:], ys[at + 1:]), "above the step", scale=64.0, ctol=5e-3)


for k in range(3):
    SCENARIOS.add("steps-%d" % k, steps, at=k)


def knots(S, n):
    xs = points(S, n)
    ys = S.reals("q", n, 0.0, 64.0)
    m = make(S, n, [list(xs), list(ys)])
    for k in range(n):
        S.close(m.process(xs[k]), ys[k], "point", scale=64.0)


for n in (2, 3, 5):
    SCENARIOS.add("points-%d" % n, knots, n=n)


def monotone(S, n):
    xs = points(S, n)
    ys = S.reals("q", n, 0.0, 64.0)
    for k in range(n - 1):
        S.assume(ys[k] <= ys[k + 1])
    m = make(S, n, [list(xs), list(ys)])
    x, y = S.real("x", -8.0, 8.0), S.real("y", -8.0, 8.0)
    S.assume(x <= y)
    a, b = m.process(x), m.process(y)
    S.true(a <= b + 1e-4, "monotone")
    S.true(S.And(a >= ys[0] - 1e-4, b <= ys[n - 1] + 1e-4), "within the indices")


for n in (2, 3):
    SCENARIOS.add("monotone-%d" % n, monotone, n=n)

XS = (-1.0, 0.25, 0.5, 2.0)


def cached(S, lo, hi, how):
    """The cache gives the same."""
    ys = S.reals("q", 4, 0.0, 64.0)
    if how == "constructor":
        m = make(S, 4, [list(XS), list(ys)], useCachedProcess=True)
    elif how == "switch":
        m = make(S, 4, [list(XS), list(ys)])
        S.close(m.process(0.0), pwl(S, 0.0, XS, ys), "before", scale=64.0)
        m.setuseCachedProcess(True)
    elif how == "set":
        m = make(S, 2, [[0.0, 1.0], [0.0, 63.0]], useCachedProcess=True)
        S.close(m.process(0.5), 31.5, "before", scale=64.0)
        m.setDimension(4)
        m.setValues([list(XS), list(ys)])
    elif how == "off-set-on":
        m = make(S, 2, [[0.0, 1.0], [0.0, 63.0]], useCachedProcess=True)
        m.setuseCachedProcess(False)
        m.setValues([list(XS), list(ys)])
        S.close(m.process(0.0), pwl(S, 0.0, XS, ys), "uncached", scale=64.0)
        m.setuseCachedProcess(True)
    else:
        m = make(S, useCachedProcess=True)
        m.setDimension(4)
        m.setValues([list(XS), list(ys)])
    S.true(m.getUseCachedProcessue(), "cache is on")
    x = S.real("x", lo, hi)
    S.close(m.process(x), pwl(S, x, XS, ys), "value", scale=64.0, ctol=1e-3)
    for h in (-1.0, -3.0, 0.0, 0.25, 0.375, 1.5, 2.0, 100.0, 65504.0, -65504.0):
        S.close(m.process(h), pwl(S, h, XS, ys), "half", scale=64.0, ctol=1e-3)
    m.setuseCachedProcess(False)
    S.close(m.process(x), pwl(S, x, XS, ys), "without", scale=64.0, ctol=1e-3)


HOW = ("constructor", "switch", "set", "off-set-on", "empty")
for k, (lo, hi) in enumerate(((0.4999, 0.5003), (1.9995, 2.001), (-1.0005, -0.9999), (0.24995, 0.2501), (1000.0, 1000.4), (-0.12498, -0.1249))):
    SCENARIOS.add("cached-%g" % lo, cached, lo=lo, hi=hi, how=HOW[k % 5], conf={"weight": 5, "quick_s": 150})
for k, (lo, hi) in enumerate(((0.49, 0.52), (1.9, 2.1), (-1.1, -0.9), (0.24, 0.26), (1e-5, 2e-5))):
    SCENARIOS.add("cached-wide-%g" % lo, cached, tier="thorough", lo=lo, hi=hi, how=HOW[(k + 2) % 5])


def changed(S):
    """Points set anew are used."""
    m = make(S, 2, [[0.0, 1.0], [0.0, 4.0]])
    x = S.real("x", -2.0, 3.0)
    S.close(m.process(x), S.clamp(4.0 * x, 0.0, 4.0), "first", scale=4.0)
    a = S.real("a", 1.0, 3.0)
    m.setValues([[0.0, a], [1.0, 2.0]])
    S.close(m.process(x), 1.0 + S.clamp(x / a, 0.0, 1.0), "second", scale=4.0, ctol=1e-4)
    S.eq(m.getDimension(), 2, "dimension")
    S.eq(list(m.getValues()[1]), [1.0, 2.0], "values")


SCENARIOS.add("changed", changed)


def specials(S):
    m = make(S, 3, [[0.0, 0.5, 1.0], [0.0, 1.0, 4.0]])
    r = m.process(float("nan"))
    S.true(r != r, "NaN")
    S.eq(m.process(float("inf")), float("inf"), "infinity")
    S.eq(m.process(float("-inf")), float("-inf"), "minus infinity")


SCENARIOS.add("specials", specials)


def reread(S, n, cache):
    """Maps read from a document."""
    xs = points(S, n)
    ys = [S.int("q%d" % k, 0, 1000) for k in range(n)]
    etree = S.mod("xml.etree.ElementTree")
    e = etree.Element("IndexMap")
    e.set("dim", "%d" % n)
    e.text = " ".join("%s@%s" % (a, b) for a, b in zip(xs, ys))
    m = make(S, 2, [[0.0, 1.0], [0.0, 63.0]], useCachedProcess=cache)
    m.process(0.5)
    m.read(e)
    m.setuseCachedProcess(False)
    S.eq(m.getDimension(), n, "dimension")
    S.closev(m.getValues()[0], xs, "inputs", scale=4.0)
    S.closev(m.getValues()[1], [1.0 * v for v in ys], "indices", scale=64.0)
    x = S.real("x", -8.0, 8.0)
    S.close(m.process(x), pwl(S, x, xs, ys), "value", scale=1000.0, ctol=5e-3)


for n in (2, 3):
    SCENARIOS.add("read-%d" % n, reread, n=n, cache=False)


def reread_cached(S):
    etree = S.mod("xml.etree.ElementTree")
    e = etree.Element("IndexMap")
    e.set("dim", "2")
    e.text = "0.5@1 1.0@3"
    m = make(S, 2, [[0.0, 1.0], [0.0, 63.0]], useCachedProcess=True)
    m.process(0.5)
    m.read(e)
    x = S.real("x", 0.4999, 0.5004)
    S.close(m.process(x), pwl(S, x, [0.5, 1.0], [1.0, 3.0]), "value", scale=4.0)


SCENARIOS.add("read-cached", reread_cached)


def long(S, n, at, scale):
    """Long maps with two symbolic neighbouring points."""
    xs = [scale * (k * k + 3.0 * k) / (n * n) for k in range(n)]
    ys = [(k * 37 % 101) * 1.0 for k in range(n)]
    for k in at:
        ys[k] = S.real("q%d" % k, 0.0, 4095.0)
    k = at[0]
    xs[k] = S.real("p", 0.75 * xs[k - 1] + 0.25 * xs[k], 0.25 * xs[k] + 0.75 * xs[k + 1])
    m = make(S, n, [list(xs), list(ys)])
    x = S.real("x", xs[k - 1], xs[k + 1])
    S.close(m.process(x), pwl(S, x, xs[k - 1:k + 2], ys[k - 1:k + 2]), "near", scale=4096.0, ctol=5e-3)
    for q in range(n):
        if abs(q - k) > 1:
            S.close(m.process(xs[q]), ys[q], "point", scale=4096.0)
        if q + 1 < n and q not in (k - 1, k):
            S.close(m.process(0.25 * xs[q] + 0.75 * xs[q + 1]), 0.25 * ys[q] + 0.75 * ys[q + 1], "between", scale=4096.0)
    y = S.real("y", -4.0 * scale, 8.0 * scale) if n <= 10 else S.real("y", 0.9 * xs[n - 3], 8.0 * scale)
    S.close(m.process(y), pwl(S, y, xs, ys), "anywhere", scale=4096.0, ctol=5e-3)
    S.close(m.process(-scale), ys[0], "below", scale=4096.0)


for n, at in ((7, (3,)), (8, (6, 2)), (10, (5,)), (16, (11, 3)), (17, (15,)), (20, (9, 10)), (33, (28,)), (64, (40, 62))):
    for sc in (1.0, 1023.0):
        SCENARIOS.add("long-%d-%g" % (n, sc), long, n=n, at=at, scale=sc)


def wide(S, scale):
    """Inputs of any size."""
    xs = [scale * v for v in points(S, 3)]
    ys = S.reals("q", 3, 0.0, 65535.0)
    m = make(S, 3, [list(xs), list(ys)])
    x = scale * S.real("x", -8.0, 8.0)
    S.close(m.process(x), pwl(S, x, xs, ys), "value", scale=65536.0, ctol=1e-2)


for sc in (1e-3, 255.0, 65535.0, 1e8):
    SCENARIOS.add("wide-%g" % sc, wide, scale=sc)


def longcache(S, n, at, lo, hi):
    """Long maps with the cache."""
    xs = [0.25 * k - 1.0 for k in range(n)]
    ys = [(k * 37 % 101) * 1.0 for k in range(n)]
    ys[at] = S.real("q", 0.0, 1000.0)
    m = make(S, n, [list(xs), list(ys)], useCachedProcess=True)
    for q in (0, 1, at - 1, at, at + 1, n - 2, n - 1):
        S.close(m.process(xs[q]), ys[q], "point", scale=1024.0, ctol=1e-3)
    x = S.real("x", lo, hi)
    S.close(m.process(x), pwl(S, x, xs, ys), "value", scale=1024.0, ctol=1e-3)


SCENARIOS.add("longcache-12", longcache, n=12, at=6, lo=0.4999, hi=0.5003, conf={"weight": 6})
SCENARIOS.add("longcache-40", longcache, n=40, at=30, lo=6.499, hi=6.502, conf={"weight": 6})
