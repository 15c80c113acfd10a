"""C09 Gamma"""
from props.common import *

SCENARIOS = Registry()
BOUNDS = "basic curves: gamma symbolic in [1/4,4] per channel; monitor curves: eight (gamma, offset) pairs; pixel values symbolic within four " \
         "times the code range" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "single-precision rounding; NaN and infinite inputs; gamma 1 in monitor curves; monitor-curve parameters other than those listed; monitor-curve round trips within " \
          "1/1000 of the junction of the two pieces"
ASSUMPTIONS = ["a power function is any strictly monotone function with the algebraic laws of powers, pinned numerically at 16 points"]

PAIRS = ((2.4, 0.055), (2.2, 0.099), (3.0, 0.16), (1.5, 0.02), (2.6, 0.3), (1.8, 0.01), (3.5, 0.5), (2, 0.1))


def mon_fwd(S, x, g, o):
    if o == 0.0:
        return S.pow(S.max(0.0, x), g)
    if x <= o / (g - 1.0):
        return (g - 1.0) / o * pow(g * o / ((g - 1.0) * (o + 1.0)), g) * x
    return S.pow((x + o) / (o + 1.0), g)


def mon_rev(S, x, g, o):
    if o == 0.0:
        return S.pow(S.max(0.0, x), 1.0 / g)
    if x <= pow(g * o / ((g - 1.0) * (o + 1.0)), g):
        return pow((g - 1.0) / o, g - 1.0) * pow((1.0 + o) / g, g) * x
    return S.pow(x, 1.0 / g) * (1.0 + o) - o


def basic_fwd(S, x, g, o):
    return S.pow(S.max(0.0, x), g)


def basic_rev(S, x, g, o):
    return S.pow(S.max(0.0, x), 1.0 / g)


F = {"basicFwd": basic_fwd, "basicRev": basic_rev, "moncurveFwd": mon_fwd, "moncurveRev": mon_rev}


def curve(S, style, params, inb, outb):
    """params: list of (gamma, offset, channel); channel None sets all."""
    n = S.clf.Gamma(inb, outb, "id", "name", style)
    g, o = [1.0] * 3, [0.0] * 3
    for k, (gg, oo, c) in enumerate(params):
        if gg == "sym":
            gg = S.real("gamma%d" % k, 0.25, 4.0)
        if oo:
            n.setGamma(gg, oo, c)
        elif c:
            n.setGamma(gg, channel=c)
        else:
            n.setGamma(gg)
        for i in ((0, 1, 2) if c is None else ("RGB".index(c),)):
            g[i], o[i] = gg, oo
    a, b = SIZE[inb], SIZE[outb]
    px = S.reals("x", 3, -4.0 * a, 4.0 * a) + [S.real("alpha", -10.0, 10.0)]
    if style.startswith("mon"):
        for i in range(3):
            if o[i] == 0.0:
                continue
            S.points((o[i] / (g[i] - 1.0) + o[i]) / (1.0 + o[i]), pow(g[i] * o[i] / ((g[i] - 1.0) * (o[i] + 1.0)), g[i]))
    out = run_node(S, n, [px])[0]
    want = [F[style](S, px[i] / a, g[i], o[i]) * b for i in range(3)]
    S.closev(out, want + [px[3]], "value", scale=256.0 * b if style.endswith("Fwd") else 8.0 * b, ctol=2e-5)


for st in ("basicFwd", "basicRev"):
    SCENARIOS.add("all-" + st, curve, style=st, params=[("sym", 0.0, None)], inb="10i", outb="16f")
    SCENARIOS.add("channels-" + st, curve, style=st, params=[("sym", 0.0, "R"), ("sym", 0.0, "G"), ("sym", 0.0, "B")], inb="16f", outb="12i")
    SCENARIOS.add("one-" + st, curve, style=st, params=[("sym", 0.0, "G")], inb="32f", outb="8i")
    SCENARIOS.add("override-" + st, curve, style=st, params=[("sym", 0.0, None), ("sym", 0.0, "B")], inb="16i", outb="16i")
    SCENARIOS.add("none-" + st, curve, style=st, params=[], inb="8i", outb="10i")
    for gi in (2, 3, 1, 4):
        SCENARIOS.add("integer%d-%s" % (gi, st), curve, style=st, params=[(gi, 0.0, None)], inb="16f", outb="16f")
for k, (g, o) in enumerate(PAIRS):
    for st in ("moncurveFwd", "moncurveRev"):
        SCENARIOS.add("%s-%s-%s" % (st, g, o), curve, style=st, params=[(g, o, None)], inb=DEPTHS[k % 6], outb=DEPTHS[(k * 5 + 3) % 6])
for st in ("moncurveFwd", "moncurveRev"):
    SCENARIOS.add("mixed-" + st, curve, style=st, params=[(2.4, 0.055, None), (2.2, 0.099, "R"), (3.0, 0.16, "B")], inb="16f", outb="10i")
    SCENARIOS.add("each-" + st, curve, style=st, params=[(1.8, 0.01, "G"), (2.4, 0.055, "R"), (1.5, 0.02, "B")], inb="12i", outb="32f")
    SCENARIOS.add("one-" + st, curve, style=st, params=[(2.4, 0.055, "G")], inb="32f", outb="8i")
    SCENARIOS.add("no-offset-" + st, curve, style=st, params=[(2.0, 0.0, "R"), (2.4, 0.055, "B"), (2.5, 0.0, "G")], inb="10i", outb="16f")
    SCENARIOS.add("none-" + st, curve, style=st, params=[], inb="8i", outb="10i")


def inverse(S, fwd, rev, g, o):
    a = S.clf.Gamma("16f", "16f", "", "", fwd)
    b = S.clf.Gamma("16f", "16f", "", "", rev)
    basic = fwd.startswith("basic")
    if g == "sym":
        g = S.real("gamma", 0.25, 4.0)
    for n in (a, b):
        n.setGamma(g, o)
    x = S.real("x", 1.0 / 16 if basic else -2.0, 2.0)
    if not basic:
        u0 = (o / (g - 1.0) + o) / (1.0 + o)
        S.points(*[u0 * (1.0 + d) for d in (-1e-4, 0.0, 1e-4)] + [pow(u0, g) * (1.0 + d) for d in (-1e-4, 0.0, 1e-4)])
    first, second = (a, b) if S.choice("order", ("fwd", "rev")) == "fwd" else (b, a)
    if not basic:
        q = o / (g - 1.0) if first is a else pow(u0, g)
        S.assume(S.Or(x < q - 1e-3, x > q + 1e-3))
    out = run_node(S, second, run_node(S, first, [[x, 0.25, 0.5]]))[0]
    S.close(out[0], x, "round trip", scale=2.0, ctol=2e-4)


SCENARIOS.add("inverse-basic", inverse, fwd="basicFwd", rev="basicRev", g="sym", o=0.0)
for g, o in PAIRS:
    SCENARIOS.add("inverse-mon-%s-%s" % (g, o), inverse, fwd="moncurveFwd", rev="moncurveRev", g=g, o=o)


def monotone(S, style, g, o):
    """Curves are monotone, and continuous where the two pieces of a monitor curve meet."""
    n = S.clf.Gamma("16f", "16f", "", "", style)
    n.setGamma(g, o)
    x, y = S.real("x", -1.0, 2.0), S.real("y", -1.0, 2.0)
    S.assume(x < y)
    u0 = (o / (g - 1.0) + o) / (1.0 + o)
    if not style.startswith("basic"):
        S.points(u0, pow(u0, g))
    out = run_node(S, n, [[x, y, 1.0]])[0]
    S.true(out[0] <= out[1] + 1e-5, "monotone")
    S.close(out[2], 1.0, "one stays one")


for st in ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"):
    for g, o in PAIRS[:3]:
        SCENARIOS.add("monotone-%s-%s" % (st, g), monotone, style=st, g=g, o=o)


def everydepth(S, style, mixed):
    """Every pair of bit depths, values far outside the code range."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    chan = S.choice("channel", (0, 1, 2))
    n = S.clf.Gamma(inb, outb, "id", "name", style)
    g, o = ((2.4, 0.055), (2.2, 0.099), (1.5, 0.02)), None
    if style.startswith("basic"):
        g = ((2.0, 0.0), (1.5, 0.0), (0.5, 0.0))
    for c in range(3):
        if g[c][1]:
            n.setGamma(g[c][0], g[c][1], "RGB"[c])
        else:
            n.setGamma(g[c][0], channel="RGB"[c])
    a, b = SIZE[inb], SIZE[outb]
    px = [0.25 * a, 0.5 * a, 0.3125 * a, 0.125]
    px[chan] = S.real("x", -100.0 * a, 100.0 * a)
    if style.startswith("mon"):
        gg, oo = g[chan]
        S.points((oo / (gg - 1.0) + oo) / (1.0 + oo), pow(gg * oo / ((gg - 1.0) * (oo + 1.0)), gg))
    want = [F[style](S, px[i] / a, g[i][0], g[i][1]) * b for i in range(3)]
    S.closev(run_node(S, n, [px])[0], want + [px[3]], "value", scale=(1e5 if style.endswith("Fwd") else 1e4) * b, ctol=2e-5)


for st in ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"):
    SCENARIOS.add("depths-" + st, everydepth, style=st, mixed=True)


def extreme(S, style):
    """Gammas far from one, including those below one and very large ones."""
    g = S.choice("gamma", (0.0625, 0.125, 0.5, 1.0, 1.015625, 5.0, 8.0, 10.0))
    n = S.clf.Gamma("16f", "16f", "id", "name", style)
    n.setGamma(g)
    px = [S.real("x", -4.0, 4.0), 0.25, 0.5, 0.75]
    want = [F[style](S, c, g, 0.0) for c in px[:3]] + [0.75]
    S.closev(run_node(S, n, [px])[0], want, "value", scale=max(8.0, 4.0 ** (g if style.endswith("Fwd") else 1.0 / g)), ctol=2e-5)


for st in ("basicFwd", "basicRev"):
    SCENARIOS.add("extreme-" + st, extreme, style=st)


def many(S, style, stride, count):
    """Long runs of pixels: every one goes through the same curves."""
    n = S.clf.Gamma("16f", "16f", "id", "name", style)
    g = ((2.4, 0.055), (2.2, 0.099), (1.5, 0.02)) if style.startswith("mon") else ((2.0, 0.0), (1.5, 0.0), (0.5, 0.0))
    for c in range(3):
        n.setGamma(g[c][0], g[c][1], "RGB"[c])
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.03125 * ((k * 7 + c * 3) % 32) for c in range(stride)] for k in range(count)]
    pix[at] = S.reals("x", 1, -1.0, 2.0) + pix[at][1:]
    if style.startswith("mon"):
        gg, oo = g[0]
        S.points((oo / (gg - 1.0) + oo) / (1.0 + oo), pow(gg * oo / ((gg - 1.0) * (oo + 1.0)), gg))
    out = run_node(S, n, pix)
    for k in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        S.closev(out[k], [F[style](S, pix[k][c], *g[c]) for c in range(3)] + pix[k][3:], "px%d" % k, scale=16.0, ctol=2e-5)


for st in ("basicFwd", "basicRev", "moncurveFwd", "moncurveRev"):
    SCENARIOS.add("many-" + st, many, style=st, stride=3 + len(st) % 3, count=200)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("gamma")], (1, 2))
