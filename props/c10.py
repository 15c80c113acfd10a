"""C10 Log"""
import math

from props.common import *

SCENARIOS = Registry()
BOUNDS = "gamma in [1/4,2], reference white in [500,1000], reference black in [0,400], highlight in [1/2,2], shadow in [-1/4,1/4]: symbolic, per " \
         "channel; pixel values symbolic within twice the code range" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All; images of values up to 1e30"
OUTSIDE = "single-precision rounding; NaN and infinite inputs; linToLog within 1/10000 of the zero of its argument"
ASSUMPTIONS = ["powers of ten and decimal logarithms are strictly monotone, inverse to each other and obey their laws at 0 and 1"]
TINY = 1.1754943508222875e-38


def log10(S, x):
    return S.log10(S.max(x, TINY))


def log2(S, x):
    return S.log10(S.max(x, TINY)) / math.log10(2.0)


SIMPLE = {"log10": log10, "log2": log2, "antiLog10": lambda S, x: S.pow(10.0, x), "antiLog2": lambda S, x: S.pow(2.0, x)}


def simple(S, style, inb, outb):
    n = S.clf.Log(inb, outb, "id", "name", style)
    a, b = SIZE[inb], SIZE[outb]
    px = S.reals("x", 3, -2.0 * a, 2.0 * a) + [S.real("alpha", -10.0, 10.0)]
    out = run_node(S, n, [px])[0]
    S.closev(out, [SIMPLE[style](S, x / a) * b for x in px[:3]] + [px[3]], "value", scale=40.0 * b)


for st in sorted(SIMPLE):
    for k, (i, o) in enumerate((("16f", "16f"), ("10i", "32f"), ("32f", "12i"), ("8i", "16i"))):
        SCENARIOS.add("%s-%s-%s" % (st, i, o), simple, style=st, inb=i, outb=o)

DEF = (0.6, 685.0, 95.0, 1.0, 0.0)


def lrb(S, p):
    g, w, k, h, s = p
    return S.pow(10.0, S.min(-0.00001, (k - w) * 0.002 / g))


def to_lin(S, x, p):
    g, w, k, h, s = p
    b = lrb(S, p)
    return (S.pow(10.0, (1023.0 * x - w) * 0.002 / g) - b) * ((h - s) / (1.0 - b)) + s


def to_log(S, x, p):
    g, w, k, h, s = p
    b = lrb(S, p)
    e = b + (x - s) / ((h - s) / (1.0 - b))
    S.assume(S.Or(e <= -1e-4, e >= 1e-4))
    return (w + S.log10(S.max(TINY, e)) * g / 0.002) / 1023.0


CINEON = {"logToLin": to_lin, "linToLog": to_log}
RANGES = ((0.25, 2.0), (500.0, 1000.0), (0.0, 400.0), (0.5, 2.0), (-0.25, 0.25))


def cineon(S, style, which, sym, inb, outb):
    """which: channels set, in order; sym: indices of the symbolic parameters."""
    n = S.clf.Log(inb, outb, "id", "name", style)
    per = [DEF] * 3
    for q, c in enumerate(which):
        p = [S.real("p%d_%d" % (q, k), *RANGES[k]) if k in sym else (DEF[k] if k > 2 else DEF[k] * (1.0 + q / 8.0)) for k in range(5)]
        if c is None:
            n.setLogParams(*p)
        else:
            n.setLogParams(*(p + [c]))
        for i in ((0, 1, 2) if c is None else ("RGB".index(c),)):
            per[i] = tuple(p)
    a, b = SIZE[inb], SIZE[outb]
    px = S.reals("x", 3, -0.25 * a, 1.25 * a) + [S.real("alpha", -10.0, 10.0)]
    out = run_node(S, n, [px])[0]
    f = CINEON[style]
    S.closev(out, [f(S, px[i] / a, per[i]) * b for i in range(3)] + [px[3]], "value", scale=40.0 * b)


for st in sorted(CINEON):
    SCENARIOS.add(st + "-defaults", cineon, style=st, which=(), sym=(), inb="10i", outb="16f")
    SCENARIOS.add(st + "-white-black", cineon, style=st, which=(None,), sym=(1, 2), inb="16f", outb="16f")
    SCENARIOS.add(st + "-gamma", cineon, style=st, which=(None,), sym=(0,), inb="16f", outb="12i")
    SCENARIOS.add(st + "-highlight-shadow", cineon, style=st, which=(None,), sym=(3, 4), inb="32f", outb="16i")
    SCENARIOS.add(st + "-all", cineon, style=st, which=(None,), sym=(0, 1, 2, 3, 4), inb="16f", outb="16f", conf={"weight": 4})
    SCENARIOS.add(st + "-R", cineon, style=st, which=("R",), sym=(3, 4, 1), inb="16i", outb="8i")
    SCENARIOS.add(st + "-G", cineon, style=st, which=("G",), sym=(0, 2), inb="16f", outb="16f")
    SCENARIOS.add(st + "-allB", cineon, style=st, which=(None, "B"), sym=(3, 4), inb="12i", outb="10i")
    SCENARIOS.add(st + "-RGB", cineon, style=st, which=("R", "G", "B"), sym=(1,), inb="16f", outb="16f")


def inverse(S, first, second, p):
    a = S.clf.Log("16f", "16f", "", "", first)
    b = S.clf.Log("16f", "16f", "", "", second)
    if p:
        for n in (a, b):
            n.setLogParams(*p)
    if first.startswith("log") and first != "logToLin":
        x = S.real("x", 1e-3, 8.0)
    elif first == "linToLog":
        x = S.real("x", p[4] if p else 0.0, 1.0)
        S.assume(x > (p[4] if p else 0.0))
    else:
        x = S.real("x", 0.05 if first == "logToLin" else -3.0, 1.0)
    out = run_node(S, b, run_node(S, a, [[x, 0.25, 0.5]]))[0]
    S.close(out[0], x, "round trip", scale=8.0, ctol=1e-4)


for x, y in (("log10", "antiLog10"), ("antiLog10", "log10"), ("log2", "antiLog2"), ("antiLog2", "log2")):
    SCENARIOS.add("inverse-%s-%s" % (x, y), inverse, first=x, second=y, p=None)
for k, p in enumerate((None, DEF, (0.5, 700.0, 90.0, 1.5, 0.0625), (1.0, 685.0, 64.0, 1.0, -0.125))):
    SCENARIOS.add("inverse-logToLin-%d" % k, inverse, first="logToLin", second="linToLog", p=p)
    SCENARIOS.add("inverse-linToLog-%d" % k, inverse, first="linToLog", second="logToLin", p=p)


def anchors(S):
    """Reference white maps to the highlight, reference black to the shadow."""
    p = [S.choice("gamma", (0.6, 1.0, 0.45)), S.choice("white", (685.0, 800.0)), S.choice("black", (95.0, 0.0)),
         S.real("highlight", 0.5, 2.0), S.real("shadow", -0.25, 0.25)]
    n = S.clf.Log("10i", "16f", "", "", "logToLin")
    n.setLogParams(*p)
    out = run_node(S, n, [[p[1], p[2], 512.0]])[0]
    S.close(out[0], p[3], "white")
    S.close(out[1], p[4], "black")
    m = S.clf.Log("16f", "10i", "", "", "linToLog")
    m.setLogParams(*p)
    S.points(1.0 - 1e-9, 1.0 + 1e-9)
    out = run_node(S, m, [[p[3], p[4], 0.5]])[0]
    S.close(out[0], p[1], "log white", scale=1023.0, tol=1e-6)
    S.close(out[1], p[2], "log black", scale=1023.0, ctol=2e-4)


SCENARIOS.add("anchors", anchors)


def monotone(S, style):
    n = S.clf.Log("16f", "16f", "", "", style)
    x, y = S.real("x", -0.5, 1.5), S.real("y", -0.5, 1.5)
    S.assume(x < y)
    out = run_node(S, n, [[x, y, 1.0]])[0]
    S.true(out[0] <= out[1] + 1e-4, "monotone")


for st in sorted(SIMPLE) + sorted(CINEON):
    SCENARIOS.add("monotone-" + st, monotone, style=st)


def stride_default(S):
    """Like every node, a Log accepts one pixel without a stride."""
    n = S.clf.Log("16f", "16f", "", "", "antiLog10")
    px = S.reals("x", 3, -1.0, 1.0)
    S.closev(n.process(arr(S, px)), [S.pow(10.0, x) for x in px], "value", scale=10.0)


SCENARIOS.add("stride-default", stride_default)


def everydepth(S, style):
    """Every pair of bit depths."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    chan = S.choice("channel", (0, 1, 2))
    n = S.clf.Log(inb, outb, "id", "name", style)
    per = [DEF] * 3
    if style in CINEON:
        per = [(0.6, 685.0, 95.0, 1.0, 0.0), (0.5, 700.0, 90.0, 1.5, 0.0625), (0.7, 650.0, 64.0, 1.25, -0.125)]
        for c in range(3):
            n.setLogParams(*(per[c] + ("RGB"[c],)))
    a, b = SIZE[inb], SIZE[outb]
    px = [0.25 * a, 0.5 * a, 0.3125 * a, 0.125]
    far = (-4.0, 4.0) if style.startswith("anti") else (-0.25, 1.25) if style == "logToLin" else (-100.0, 100.0)
    px[chan] = S.real("x", far[0] * a, far[1] * a)
    if style in CINEON:
        want = [CINEON[style](S, px[i] / a, per[i]) * b for i in range(3)]
    else:
        want = [SIMPLE[style](S, px[i] / a) * b for i in range(3)]
    S.closev(run_node(S, n, [px])[0], want + [px[3]], "value", scale=(1e4 if style.startswith("anti") else 40.0) * b)


for st in sorted(SIMPLE) + sorted(CINEON):
    SCENARIOS.add("depths-" + st, everydepth, style=st)


def many(S, style, stride, count):
    """Long runs of pixels: every one goes through the same curve."""
    n = S.clf.Log("16f", "16f", "id", "name", style)
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.03125 * ((k * 7 + c * 3) % 32) for c in range(stride)] for k in range(count)]
    pix[at] = S.reals("x", 1, 0.0, 1.0) + pix[at][1:]
    out = run_node(S, n, pix)
    f = (lambda x: CINEON[style](S, x, DEF)) if style in CINEON else (lambda x: SIMPLE[style](S, x))
    for k in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        S.closev(out[k], [f(pix[k][c]) for c in range(3)] + pix[k][3:], "px%d" % k, scale=40.0)


for st in sorted(SIMPLE) + sorted(CINEON):
    SCENARIOS.add("many-" + st, many, style=st, stride=3 + len(st) % 3, count=200)


def repeated(S, style):
    """Each set of parameters is used as given, whatever was set before it; the last one for a channel counts."""
    n = S.clf.Log("16f", "16f", "", "", style)
    sets = [((0.5, 700.0, 90.0, 1.5, 0.0625), None), ((0.7, 650.0, 64.0, 1.25, -0.125), "G"), ((0.45, 600.0, 32.0, 0.75, 0.03125), "R"),
            ((0.6, 685.0, 95.0, 2.0, 0.0), "G")]
    k = S.choice("sets", (1, 2, 3, 4))
    per = [DEF] * 3
    for p, c in sets[:k]:
        n.setLogParams(*(p if c is None else p + (c,)))
        for i in ((0, 1, 2) if c is None else ("RGB".index(c),)):
            per[i] = p
    x = S.real("x", -0.25, 1.25)
    out = run_node(S, n, [[x, x, x]])[0]
    S.closev(out, [CINEON[style](S, x, per[i]) for i in range(3)], "value", scale=40.0)


for st in sorted(CINEON):
    SCENARIOS.add("repeated-" + st, repeated, style=st)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("log")], (1, 2))


def huge(S, style, lo, hi, relative):
    """Values far beyond the code range, as scene-linear and exotic log data have them."""
    i, o = S.choice("depths", (("16f", "32f"), ("32f", "16f"), ("10i", "16f"), ("16f", "12i")))
    a, b = SIZE[i], SIZE[o]
    n = S.clf.Log(i, o, "id", "name", style)
    x = S.real("x", lo * a, hi * a)
    out = run_node(S, n, [[x, 0.5 * a, x, 7.0]])[0]
    want = SIMPLE[style](S, x / a) * b
    for c in (0, 2):
        S.close(out[c], want, "value", scale=want if relative else 40.0 * b, ctol=1e-4)
    S.close(out[3], 7.0, "alpha")


for st in ("antiLog10", "antiLog2"):
    for lo, hi in ((2.0, 6.0), (5.0, 15.0), (15.0, 30.0), (-6.0, -2.0), (-30.0, -6.0)):
        SCENARIOS.add("huge-%s-%g" % (st, lo), huge, style=st, lo=lo, hi=hi, relative=True)
for st in ("log10", "log2"):
    for lo, hi in ((2.0, 70000.0), (70000.0, 1e9), (1e-4, 1e-2), (1e-9, 1e-5)):
        SCENARIOS.add("huge-%s-%g" % (st, lo), huge, style=st, lo=lo, hi=hi, relative=False)
