"""C11 ExposureContrast"""
import math

from props.common import *

SCENARIOS = Registry()
BOUNDS = "exposure in [-3,3], contrast in [1/4,4], pivot in [1/20,2]: symbolic; pixel values symbolic within four times the code range" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "single-precision rounding; NaN and infinite inputs"
ASSUMPTIONS = ["a power function is any strictly monotone function with the algebraic laws of powers"]


def linear(S, x, e, c, p):
    return p * S.pow(S.max(0.0, S.pow(2.0, e) * x / p), c)


def video(S, x, e, c, p):
    k = 1.0 / 1.83
    return S.pow(p, k) * S.pow(S.max(0.0, x * S.pow(S.pow(2.0, e) / p, k)), c)


def log(S, x, e, c, p):
    q = 0.6 / 2.046 * S.log10(p / 0.9) + 685.0 / 1023.0
    return (x + e * 0.6 / 2.046 * math.log10(2.0) - q) * c + q


F = {"linear": linear, "video": video, "log": log}


def value(S, style, which, inb, outb, count=1):
    n = S.clf.ExposureContrast(inb, outb, "id", "name", style)
    e, c, p = 0.0, 1.0, 1.0
    if which:
        e = S.real("exposure", -3.0, 3.0) if "e" in which else 0.5
        c = S.real("contrast", 0.25, 4.0) if "c" in which else 1.5
        p = S.real("pivot", 0.05, 2.0) if "p" in which else 0.18
        n.setExposureContrastPivot(e, c, p)
    a, b = SIZE[inb], SIZE[outb]
    pix = [S.reals("x%d_" % k, 3, -4.0 * a, 4.0 * a) + [S.real("alpha%d" % k, -10.0, 10.0)] for k in range(count)]
    out = run_node(S, n, pix)
    for k in range(count):
        S.closev(out[k], [F[style](S, x / a, e, c, p) * b for x in pix[k][:3]] + [pix[k][3]], "value%d" % k, scale=64.0 * b, ctol=1e-4)


for st in sorted(F):
    for w, i, o in (("e", "16f", "16f"), ("c", "10i", "32f"), ("p", "32f", "12i"), ("ecp", "16f", "16f"), ("", "8i", "16i")):
        SCENARIOS.add("%s-%s" % (st, w or "defaults"), value, style=st, which=w, inb=i, outb=o)
    SCENARIOS.add("%s-two" % st, value, style=st, which="e", inb="16f", outb="10i", count=2)


def identity(S, style):
    """No exposure and unit contrast change nothing (linear and video: on positive values)."""
    n = S.clf.ExposureContrast("16f", "16f", "", "", style)
    p = S.real("pivot", 0.05, 2.0) if style != "video" else S.choice("pivot", (1.0, 0.18, 0.5))
    n.setExposureContrastPivot(0.0, 1.0, p)
    px = S.reals("x", 3, -4.0 if style == "log" else 0.0, 4.0)
    S.closev(run_node(S, n, [px])[0], px, "identity", scale=8.0)


for st in sorted(F):
    SCENARIOS.add("identity-" + st, identity, style=st)


def pivot(S, style):
    """Contrast leaves the pivot where it is."""
    p = S.real("pivot", 0.05, 2.0) if style == "linear" else S.choice("pivot", (1.0, 0.18, 0.5))
    c = S.real("contrast", 0.25, 4.0)
    n = S.clf.ExposureContrast("16f", "16f", "", "", style)
    n.setExposureContrastPivot(0.0, c, p)
    if style == "linear":
        x = p
    elif style == "video":
        x = math.pow(p, 1.0 / 1.83)
    else:
        x = 0.6 / 2.046 * math.log10(p / 0.9) + 685.0 / 1023.0
    S.close(run_node(S, n, [[x, 0.5, 0.25]])[0][0], x, "pivot", scale=2.0, tol=1e-6)


for st in sorted(F):
    SCENARIOS.add("pivot-" + st, pivot, style=st)


def exposure(S):
    """In linear style with unit contrast, exposure multiplies by a power of two; exposures add."""
    e1, e2 = S.choice("e1", (-2.0, -0.5, 1.0)), S.choice("e2", (-1.0, 0.25, 2.0))
    p = S.real("pivot", 0.05, 2.0)
    x = S.real("x", 0.0, 4.0)
    nodes = []
    for e in (e1, e2, e1 + e2):
        n = S.clf.ExposureContrast("16f", "16f", "", "", "linear")
        n.setExposureContrastPivot(e, 1.0, p)
        nodes.append(n)
    px = [[x, 0.5, 0.25]]
    two = run_node(S, nodes[1], run_node(S, nodes[0], px))[0]
    one = run_node(S, nodes[2], px)[0]
    S.close(two[0], one[0], "exposures add", scale=16.0)
    S.close(one[0], x * 2.0 ** (e1 + e2), "power of two", scale=16.0)


SCENARIOS.add("exposure", exposure)


def everydepth(S, style):
    """Every pair of bit depths, values far outside the code range."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    chan = S.choice("channel", (0, 1, 2))
    n = S.clf.ExposureContrast(inb, outb, "id", "name", style)
    e, c, p = 0.5, 1.5, 0.18
    n.setExposureContrastPivot(e, c, p)
    a, b = SIZE[inb], SIZE[outb]
    px = [0.25 * a, 0.5 * a, 0.3125 * a, 0.125]
    px[chan] = S.real("x", -100.0 * a, 100.0 * a)
    S.closev(run_node(S, n, [px])[0], [F[style](S, x / a, e, c, p) * b for x in px[:3]] + [px[3]], "value", scale=1e4 * b, ctol=1e-4)


for st in sorted(F):
    SCENARIOS.add("depths-" + st, everydepth, style=st)


def extreme(S, style, what):
    """Strong exposures, no contrast and much of it, pivots of any size; integers as well as fractions."""
    e, c, p = 0.5, 1.5, 0.18
    if what == "exposure":
        e = S.choice("exposure", (-12, -10.5, -1, 0, 1, 2, 10.5, 12))
    elif what == "contrast":
        c = S.choice("contrast", (0.0625, 1, 2, 3, 8.0))
    else:
        p = S.choice("pivot", (0.001, 0.9, 1, 2, 4, 18.0))
    n = S.clf.ExposureContrast("16f", "16f", "id", "name", style)
    n.setExposureContrastPivot(e, c, p)
    px = [S.real("x", -1.0, 1.0), 0.25, 0.5, 0.75]
    want = [F[style](S, x, e, c, p) for x in px[:3]]
    S.closev(run_node(S, n, [px])[0], want + [px[3]], "value", scale=1e6 if style != "log" else 64.0, ctol=1e-4)


for st in sorted(F):
    for w in ("exposure", "contrast", "pivot"):
        SCENARIOS.add("extreme-%s-%s" % (w, st), extreme, style=st, what=w)


def many(S, style, stride, count):
    """Long runs of pixels: every one is transformed alike."""
    n = S.clf.ExposureContrast("16f", "16f", "id", "name", style)
    e, c, p = 0.5, 1.5, 0.18
    n.setExposureContrastPivot(e, c, p)
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.03125 * ((k * 7 + c * 3) % 32) for c in range(stride)] for k in range(count)]
    pix[at] = S.reals("x", 1, -1.0, 2.0) + pix[at][1:]
    out = run_node(S, n, pix)
    for k in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        S.closev(out[k], [F[style](S, x, e, c, p) for x in pix[k][:3]] + pix[k][3:], "px%d" % k, scale=64.0, ctol=1e-4)


for st in sorted(F):
    SCENARIOS.add("many-" + st, many, style=st, stride=3 + len(st) % 3, count=200)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("ec")], (0, 2))
