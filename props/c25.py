"""C25 Baking lists to LUTs"""
import math

from props.luts import *

SCENARIOS = Registry()
BOUNDS = "any list (its answers are arbitrary); 1D samples of 2 to 9 (65) entries, 3D samples of 2 to 4 points per axis with the sizes of the axes differing, input ranges from a choice of seven and symbolic ones; " \
         "1D/3D/1D data and CLF files with linear, log2 and no shapers at either end, shapers of 2 to 6 entries and lattices of 2 or 3 points per axis, processed at the lattice points and, with linear shapers, " \
         "at symbolic points between them; " \
         "1D samples of up to 5000 entries, cubes of up to 17x17x17 and 2x3x33, and shapers of up to 4096 entries, the list's answers arbitrary at three to five positions" \
         "; lists changed and baked again; shapers asked for after others"
OUTSIDE = "the error of a log2 shaper between its sample positions; outputs the output shaper does not cover (they are clamped)"

RANGES = ((0.0, 1.0), (-0.125, 1.125), (0.0, 2.0), (0.25, 1.0), (-1.0, 1.0), (0.0625, 16.0), (-2.0, -1.0))


def sampling(S):
    return S.mod("aces.lutFormats.Sampling")


def sample1d(S, n):
    lo, hi = S.choice("range", RANGES)
    p = Probe(S)
    got = sampling(S).sample1D(p, n, lo, hi)
    S.true(len(got) == 3 * n, "length")
    for k in range(n):
        q = position(k, n, lo, hi)
        w = p.at(q, q, q)
        if w is None:
            S.fail("sampled", "not at %r" % q)
            return
        S.closev(got[3 * k:3 * k + 3], w, "entry", scale=2.0)


for n in (2, 3, 4, 9):
    SCENARIOS.add("sample1d-%d" % n, sample1d, n=n)
SCENARIOS.add("sample1d-65", sample1d, tier="thorough", n=65)


class Keeper:
    """A list that gives back its input, channel by channel scaled."""

    def __init__(self, S):
        self.S = S
        self.asked = []

    def process(self, values, stride=0, verbose=False):
        v = [x for x in values]
        self.asked.append(v)
        return self.S.np.array([v[0] * 0.5, v[1] * 2.0, v[2] + 0.25], dtype=self.S.np.float32)


def any_range(S, n):
    """The positions for any range."""
    lo = S.real("lo", -8.0, 8.0)
    hi = lo + S.real("width", 0.125, 16.0)
    kind = S.choice("kind", ("1D", "3D"))
    p = Keeper(S)
    if kind == "1D":
        got = sampling(S).sample1D(p, n, lo, hi)
        for k in range(n):
            q = lo + k / (n - 1.0) * (hi - lo)
            S.closev(got[3 * k:3 * k + 3], [q * 0.5, q * 2.0, q + 0.25], "entry", scale=32.0, ctol=1e-5)
    else:
        got = sampling(S).sample3D(p, [n, 2, 3], lo, hi)
        for r in range(n):
            for g in range(2):
                for b in range(3):
                    q = [lo + k / (m - 1.0) * (hi - lo) for k, m in ((r, n), (g, 2), (b, 3))]
                    S.closev(got[r][g][b], [q[0] * 0.5, q[1] * 2.0, q[2] + 0.25], "entry", scale=32.0, ctol=1e-5)


for n in (2, 3, 5):
    SCENARIOS.add("any-range-%d" % n, any_range, n=n)


def sample3d(S, sizes):
    lo, hi = S.choice("range", RANGES)
    p = Probe(S)
    got = sampling(S).sample3D(p, list(sizes), lo, hi)
    S.true(len(got) == sizes[0] and all(len(x) == sizes[1] and all(len(y) == sizes[2] for y in x) for x in got), "sizes")
    for r in range(sizes[0]):
        for g in range(sizes[1]):
            for b in range(sizes[2]):
                w = p.at(*[position(k, n, lo, hi) for k, n in zip((r, g, b), sizes)])
                if w is None:
                    S.fail("sampled", "not at %r" % ((r, g, b),))
                    return
                S.closev(got[r][g][b], w, "entry", scale=2.0)


for s in ((2, 2, 2), (2, 3, 2), (3, 2, 4), (4, 2, 3), (2, 2, 5)):
    SCENARIOS.add("sample3d-%d%d%d" % s, sample3d, sizes=s)


# ------------------------------------------------------------- shapers
def shaper_functions(how, lo, hi):
    if how == "log2":
        return (lambda t: 2.0 ** (lo + t * (hi - lo))), (lambda v: (math.log(v, 2) - lo) / (hi - lo)), 2.0 ** lo, 2.0 ** hi
    if how == "linear":
        return (lambda t: lo + t * (hi - lo)), (lambda v: (v - lo) / (hi - lo)), lo, hi
    return (lambda t: t), (lambda v: v), 0.0, 1.0


def shaper(S, how):
    """Both directions, and back."""
    lo, hi = S.choice("range", ((0.0, 1.0), (-4.0, 4.0), (-2.0, 3.0), (1.0, 3.0), (-3.0, -1.0), (-2.5, 1.75)))
    fwd, inv, a, b = sampling(S).createShaper(how, lo, hi)
    f, g, wa, wb = shaper_functions(how, lo, hi)
    S.close(a, wa, "lowest", scale=1.0)
    S.close(b, wb, "highest", scale=1.0)
    if how is None:
        S.true(len(list(fwd)) == 0 and len(list(inv)) == 0, "nothing to do")
    for t in (0.0, 0.25, 0.5, 0.625, 1.0):
        x = f(t)
        S.closev(run1(S, inv, [t] * 3), [x] * 3, "inverse", scale=8.0, ctol=1e-4)
        S.closev(run1(S, fwd, [x] * 3), [t] * 3, "forward", scale=1.0, ctol=1e-4)
    if how == "linear":
        t = S.real("t", 0.0, 1.0)
        v = [0.25, 0.5, 0.75]
        v[S.choice("channel", (0, 1, 2))] = t
        x = run1(S, inv, v)
        for c in range(3):
            S.close(x[c], lo + v[c] * (hi - lo), "inverse", scale=8.0, ctol=1e-4)
        S.closev(run1(S, fwd, x), v, "back", scale=1.0, ctol=1e-4)
        S.closev(run1(S, fwd, [lo - 1.0, hi + 1.0, lo]), [0.0, 1.0, 0.0], "beyond", scale=1.0, ctol=1e-4)


for how in ("linear", "log2", None):
    SCENARIOS.add("shaper-%s" % how, shaper, how=how)


def any_shaper(S):
    """A linear shaper of any range."""
    lo = S.real("lo", -8.0, 8.0)
    hi = lo + S.real("width", 0.25, 8.0)
    fwd, inv, a, b = sampling(S).createShaper("linear", lo, hi)
    S.close(a, lo, "lowest", scale=1.0)
    S.close(b, hi, "highest", scale=1.0)
    S.closev(run1(S, inv, [0.0, 0.5, 1.0]), [lo, (lo + hi) * 0.5, hi], "inverse", scale=8.0, ctol=1e-4)
    S.closev(run1(S, fwd, [lo, (lo + hi) * 0.5, hi]), [0.0, 0.5, 1.0], "forward", scale=8.0, ctol=1e-4)


SCENARIOS.add("shaper-any", any_shaper)


def any_log(S):
    """A log2 shaper of any range."""
    lo = S.real("lo", -8.0, 8.0)
    hi = lo + S.real("width", 0.25, 8.0)
    fwd, inv, a, b = sampling(S).createShaper("log2", lo, hi)
    S.close(a, S.pow(2.0, lo), "lowest", scale=1.0)
    S.close(b, S.pow(2.0, hi), "highest", scale=1.0)
    S.closev(run1(S, inv, [0.0, 1.0, 0.5]), [S.pow(2.0, lo), S.pow(2.0, hi), S.pow(2.0, (lo + hi) * 0.5)], "inverse", scale=64.0, ctol=1e-4)


SCENARIOS.add("shaper-any-log2", any_log)

LINEAR = ((0.0, 1.0), (-0.25, 2.0), (0.0, 16.0), (0.5, 1.0))


def probe_for(S, out, olo, ohi, nout, vary):
    if out == "log2":
        return Probe(S, vary=-1, fixed=[2.0 ** position(k, nout, olo, ohi) for k in range(nout)])
    a, b = (olo, ohi) if out else (-1.0, 2.0)
    pad = 0.0 if vary is None else (b - a) / 64.0
    return Probe(S, a + pad, b - pad, vary=vary, fixed=[a + t * (b - a) for t in (0.5, 0.125, 0.75, 0.9375, 0.25)])


def asked(p, q):
    for (v, o) in p.calls:
        if all(abs(float(x) - y) <= 1e-4 * max(0.01, abs(y)) for x, y in zip(v, q)):
            return o
    return None


def ranges_of(S, how, what, logs):
    return S.choice(what, LINEAR[:3]) if how == "linear" else S.choice(what, logs) if how == "log2" else (0.0, 1.0)


LOGS = ((0.0, 2.0), (-4.0, 4.0), (-3.5, 1.25))


def sampled131(S, how, out, n1, sizes, nout):
    """The three parts."""
    lo, hi = ranges_of(S, how, "in", LOGS)
    olo, ohi = ranges_of(S, out, "out", LOGS)
    p = probe_for(S, out, olo, ohi, nout, None)
    got = sampling(S).sample1D3D1D(p, [n1, list(sizes), nout], [how, lo, hi], [out, olo, ohi])
    samples_in, a, b, cube, samples_out, oa, ob = got
    f, g, wa, wb = shaper_functions(how, lo, hi)
    of, og, woa, wob = shaper_functions(out, olo, ohi)
    S.closev([a, b, oa, ob], [wa, wb, woa, wob], "ranges", scale=1.0)
    if how is None:
        S.true(samples_in is None, "no input samples")
    else:
        S.true(len(samples_in) == 3 * n1, "input samples")
        for k in range(n1):
            S.closev(samples_in[3 * k:3 * k + 3], [g(position(k, n1, wa, wb))] * 3, "input sample", scale=1.0, ctol=1e-4)
    if out is None:
        S.true(samples_out is None, "no output samples")
    else:
        S.true(len(samples_out) == 3 * nout, "output samples")
        for k in range(nout):
            S.closev(samples_out[3 * k:3 * k + 3], [of(position(k, nout))] * 3, "output sample", scale=1.0, ctol=1e-3)
    S.true(len(cube) == sizes[0] and all(len(x) == sizes[1] and all(len(y) == sizes[2] for y in x) for x in cube), "sizes")
    for r in range(sizes[0]):
        for gr in range(sizes[1]):
            for bl in range(sizes[2]):
                w = asked(p, [f(position(k, n)) for k, n in zip((r, gr, bl), sizes)])
                if w is None:
                    S.fail("sampled", "not at %r" % ((r, gr, bl),))
                    return
                for c in range(3):
                    want = (w[c] - olo) / (ohi - olo) if out == "linear" else og(float(w[c])) if out == "log2" else w[c]
                    S.close(cube[r][gr][bl][c], want, "entry", scale=1.0, ctol=1e-4)


for k, (how, out) in enumerate([(a, b) for a in (None, "linear", "log2") for b in (None, "linear", "log2")]):
    SCENARIOS.add("sample131-%s-%s" % (how, out), sampled131, how=how, out=out, n1=(2, 3, 5)[k % 3], sizes=((2, 2, 2), (2, 3, 2), (2, 2, 3))[k // 3], nout=(3, 2, 4)[k % 3])


def baked(S, how, out, n1, n3, nout, conf=None):
    """A CLF file with all three parts gives what the list gives at the lattice points."""
    lo, hi = ranges_of(S, how, "in", ((-0.5, 1.5),) if out == "linear" else ((0.0, 2.0), (-0.5, 1.5)))
    olo, ohi = (-0.25, 2.0) if out == "linear" and how else ranges_of(S, out, "out", ((-2.0, 2.0), (0.25, 3.5)))
    p = probe_for(S, out, olo, ohi, nout, None if out is None else S.choice("vary", (1, n3 ** 3 - 2)))
    f = put(S, "", S.choice("name", ("a.clf", "b.CLF")))
    registry(S).write(p, f, "1D_3D_1D", lutResolution1d3d1d=[n1, n3, nout], shaperIn=[how, lo, hi], shaperOut=[out, olo, ohi])
    pl = S.clf.ProcessList(f)
    t, inv, a, b = shaper_functions(how, lo, hi)
    es = {}
    for r in range(n3):
        for g in range(n3):
            for bl in range(n3):
                q = [t(position(k, n3)) for k in (r, g, bl)]
                w = asked(p, q)
                if w is None:
                    S.fail("sampled", "not at %r" % (q,))
                    return
                es[(r, g, bl)] = w
                S.closev(run1(S, pl, q), w, "lattice point", scale=1.0, tol=1e-6, ctol=1e-3)
    m = n3 - 1
    S.closev(run1(S, pl, [a - 1.0, b + 1.0, a]), es[(0, m, 0)], "beyond", scale=1.0, tol=1e-6, ctol=1e-3)
    if how != "log2" and out is None:
        # between the points along an axis
        axis = S.choice("axis", (0, 1, 2))
        u = S.real("u", 0.0, 1.0)
        at = [m, 0, m]
        at[axis] = 0
        top = list(at)
        top[axis] = 1
        q = [t(position(k, n3)) for k in at]
        q[axis] = t(u / m)
        x = run1(S, pl, q)
        for c in range(3):
            S.close(x[c], es[tuple(at)][c] + u * (es[tuple(top)][c] - es[tuple(at)][c]), "between", scale=1.0, tol=1e-6, ctol=1e-3)


SCENARIOS.add("baked-none-none", baked, how=None, out=None, n1=2, n3=2, nout=2)
SCENARIOS.add("baked-none-none-3", baked, how=None, out=None, n1=2, n3=3, nout=2)
SCENARIOS.add("baked-linear-none", baked, how="linear", out=None, n1=2, n3=2, nout=2)
SCENARIOS.add("baked-linear-none-3", baked, how="linear", out=None, n1=5, n3=3, nout=2)
SCENARIOS.add("baked-log2-none", baked, how="log2", out=None, n1=4, n3=3, nout=2)
SCENARIOS.add("baked-none-linear", baked, how=None, out="linear", n1=2, n3=2, nout=2)
SCENARIOS.add("baked-linear-linear", baked, how="linear", out="linear", n1=3, n3=2, nout=3)
SCENARIOS.add("baked-linear-log2", baked, how="linear", out="log2", n1=3, n3=2, nout=5)
SCENARIOS.add("baked-log2-log2", baked, how="log2", out="log2", n1=7, n3=3, nout=4)
SCENARIOS.add("baked-log2-linear", baked, how="log2", out="linear", n1=4, n3=2, nout=4)


# ------------------------------------------------------------- large data
def long1d(S, n, span):
    lo, hi = span
    marks = (0, 1, n // 2 - 1, n - 2, n - 1)
    p = Known(S, [[position(k, n, lo, hi)] * 3 for k in marks])
    got = sampling(S).sample1D(p, n, lo, hi)
    S.true(len(got) == 3 * n, "length")
    bad = 0
    for k in range(n):
        w = p.at(*[position(k, n, lo, hi)] * 3)
        if k in marks:
            S.closev(got[3 * k:3 * k + 3], w, "entry", scale=2.0)
        else:
            bad += any(abs(float(a) - b) > 2e-5 * max(1.0, hi) for a, b in zip(got[3 * k:3 * k + 3], w))
    S.true(bad == 0, "entries", "%d differ" % bad)


for n, span in ((65, (0.0, 1.0)), (1024, (-0.125, 1.125)), (1025, (0.0, 1.0)), (4096, (0.0, 2.0)), (5000, (-1.0, 1.0))):
    SCENARIOS.add("long1d-%d" % n, long1d, n=n, span=span)


def cube(S, sizes, span):
    lo, hi = span
    marks = [(0, 0, 1), (sizes[0] - 1, sizes[1] - 1, sizes[2] - 2), (sizes[0] - 1, 1, 0), (1, sizes[1] - 1, 0), (sizes[0] // 2, 0, sizes[2] // 2)]
    at = lambda i: [position(k, n, lo, hi) for k, n in zip(i, sizes)]
    p = Known(S, [at(i) for i in marks])
    got = sampling(S).sample3D(p, list(sizes), lo, hi)
    S.true(len(got) == sizes[0] and all(len(x) == sizes[1] and all(len(y) == sizes[2] for y in x) for x in got), "sizes")
    bad = 0
    for r in range(sizes[0]):
        for g in range(sizes[1]):
            for b in range(sizes[2]):
                w = p.at(*at((r, g, b)))
                if (r, g, b) in marks:
                    S.closev(got[r][g][b], w, "entry", scale=2.0)
                else:
                    bad += any(abs(float(x) - y) > 2e-5 * max(1.0, hi) for x, y in zip(got[r][g][b], w))
    S.true(bad == 0, "entries", "%d differ" % bad)


for s, span in (((17, 17, 17), (0.0, 1.0)), ((9, 17, 5), (-0.5, 1.5)), ((2, 3, 33), (0.0, 2.0)), ((33, 2, 2), (0.0, 1.0)), ((3, 34, 2), (-1.0, 1.0))):
    SCENARIOS.add("cube-%d-%d-%d" % s, cube, sizes=s, span=span)


def long131(S, how, out, n1, sizes, nout):
    lo, hi = (-4.0, 4.0) if how == "log2" else (-0.25, 2.0)
    olo, ohi = (-0.5, 2.5) if out == "linear" else (-12.0, 2.0)
    t, g, wa, wb = shaper_functions(how, lo, hi)
    of, og, woa, wob = shaper_functions(out, olo, ohi)
    marks = [(0, 0, 1), (sizes[0] - 1, sizes[1] - 1, sizes[2] - 2), (sizes[0] - 2, 1, 0)]
    at = lambda i: [t(position(k, n)) for k, n in zip(i, sizes)]
    p = Close(S, [at(i) for i in marks] if out == "linear" else [], olo + 0.25, ohi - 0.25)
    if out == "log2":
        p.value = lambda v, c: 0.25 + 0.125 * abs(v) + 0.03125 * c
    samples_in, a, b, lattice, samples_out, oa, ob = sampling(S).sample1D3D1D(p, [n1, list(sizes), nout], [how, lo, hi], [out, olo, ohi])
    S.closev([a, b, oa, ob], [wa, wb, woa, wob], "ranges", scale=1.0)
    S.true(len(samples_in) == 3 * n1 and len(samples_out) == 3 * nout, "lengths")
    bad = 0
    for k in range(n1):
        bad += any(abs(float(x) - g(position(k, n1, wa, wb))) > 1e-4 for x in samples_in[3 * k:3 * k + 3])
    S.true(bad == 0, "input samples", "%d differ" % bad)
    bad = 0
    for k in range(nout):
        w = of(position(k, nout))
        bad += any(abs(float(x) - w) > 1e-4 * max(1.0, abs(w)) for x in samples_out[3 * k:3 * k + 3])
    S.true(bad == 0, "output samples", "%d differ" % bad)
    bad = 0
    for r in range(sizes[0]):
        for gr in range(sizes[1]):
            for bl in range(sizes[2]):
                w = p.at(*at((r, gr, bl)))
                got = lattice[r][gr][bl]
                if out == "linear" and (r, gr, bl) in marks:
                    S.closev(got, [(x - olo) / (ohi - olo) for x in w], "entry", scale=1.0, ctol=1e-4)
                else:
                    bad += any(abs(float(x) - S_clamp(og(float(y)))) > 2e-4 for x, y in zip(got, w))
    S.true(bad == 0, "entries", "%d differ" % bad)


def S_clamp(x):
    return min(1.0, max(0.0, x))


class Close(Known):
    """Inputs up to single precision."""

    def at(self, *v):
        for t, o in self.targets:
            if all(abs(float(x) - y) <= 1e-4 * max(0.01, abs(y)) for x, y in zip(v, t)):
                return o
        s = sum(v) * 0.0625 if self.value == Known.value else 0.0
        return [self.value(x, c) + s for c, x in enumerate(v)]


for how, out, n1, sizes, nout in (("linear", "linear", 1024, (2, 9, 3), 1025), ("log2", "linear", 2000, (5, 2, 3), 33), ("linear", "log2", 1100, (3, 3, 17), 4096), ("log2", "log2", 33, (17, 2, 3), 1500)):
    SCENARIOS.add("long131-%s-%s" % (how, out), long131, how=how, out=out, n1=n1, sizes=sizes, nout=nout)


def history(S, what):
    """Samples are those of the list as it is."""
    m = sampling(S)
    r = S.clf.Range("16f", "16f", "r", "r", "noClamp")
    r.setMinInValue(0.0)
    v = S.reals("v", 2, -1.0, 1.0)
    pl = plist(S, r)
    lists = [pl, pl]
    if S.choice("another", (False, True)):
        o = S.clf.Range("16f", "16f", "r", "r", "noClamp")
        o.setMinInValue(0.0)
        o.setMinOutValue(v[1])
        lists[1] = plist(S, o)
    for k, l in enumerate(lists):
        if l is pl:
            r.setMinOutValue(v[k])
        if what == "1D":
            got = list(m.sample1D(l, 3, 0.0, 1.0))
            for q in range(3):
                S.closev(got[3 * q:3 * q + 3], [q / 2.0 + v[k]] * 3, "entry", scale=2.0)
        else:
            got = m.sample3D(l, [2, 2, 2], 0.0, 1.0)
            for a in range(2):
                for b in range(2):
                    for c in range(2):
                        S.closev(got[a][b][c], [a + v[k], b + v[k], c + v[k]], "entry", scale=2.0)


for w in ("1D", "3D"):
    SCENARIOS.add("history-" + w, history, what=w)


def shapers_again(S):
    """A shaper does not depend on those made before."""
    first = S.choice("first", (("linear", 0.0, 1.0), ("log2", -4.0, 4.0), ("linear", -1.0, 3.0)))
    second = S.choice("second", (("linear", -1.0, 3.0), ("linear", 0.0, 2.0), ("log2", -4.0, 3.0), ("log2", -2.0, 4.0)))
    t = S.real("t", 0.0, 1.0)
    made = [(how, lo, hi, sampling(S).createShaper(how, lo, hi)) for how, lo, hi in (first, second)]
    for how, lo, hi, (fwd, inv, a, b) in made:
        f, g, wa, wb = shaper_functions(how, lo, hi)
        S.close(a, wa, "lowest", scale=1.0)
        S.close(b, wb, "highest", scale=1.0)
        for u in (0.0, 0.25, 1.0) + ((t,) if how == "linear" else ()):
            x = f(u)
            S.closev(run1(S, inv, [u] * 3), [x] * 3, "inverse", scale=8.0, ctol=1e-4)
            S.closev(run1(S, fwd, [x] * 3), [u] * 3, "forward", scale=1.0, ctol=1e-4)


SCENARIOS.add("shapers-again", shapers_again)


def writer131(S):
    """The writer itself takes a size per axis."""
    sizes = S.choice("sizes", ((2, 3, 2), (4, 2, 3), (2, 2, 5), (3, 4, 2)))
    e = {(r, g, b): S.reals("e%d%d%d_" % (r, g, b), 3, -1.0, 1.0) for r in range(sizes[0]) for g in range(sizes[1]) for b in range(sizes[2])}
    data = [[[list(e[(r, g, b)]) for b in range(sizes[2])] for g in range(sizes[1])] for r in range(sizes[0])]
    f = os.path.join(S.tmp(), "a.clf")
    shaper = [v for k in range(3) for v in [k / 2.0] * 3]
    first = S.choice("shaper", (False, True))
    S.mod("aces.lutFormats.LutCLF").LutFormatCLF.writeCLF1D3D1D(f, shaper if first else None, 3, 0.0, 1.0, data, list(sizes), None, 2, 0.0, 1.0)
    pl = S.clf.ProcessList(f)
    for p, v in sorted(e.items()):
        S.closev(run1(S, pl, [position(p[c], sizes[c]) for c in range(3)]), v, "entry", scale=1.0, ctol=2e-4)


SCENARIOS.add("writer131", writer131)
