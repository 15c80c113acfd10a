"""C08 ASC CDL"""
from props.common import *

SCENARIOS = Registry()
BOUNDS = "slope in [1/4,4], offset in [-1,1], power in [1/4,4], saturation in [0,2] (reverse: [1/4,2]), all symbolic per channel; pixel values " \
         "symbolic within four times the code range; eight style keywords; every subset of parameters given" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "single-precision rounding; NaN and infinite inputs; zero or negative slope and power"
ASSUMPTIONS = ["a power function is any strictly monotone function with the algebraic laws of powers"]

LUMA = (0.2126, 0.7152, 0.0722)


def luma(v):
    return LUMA[0] * v[0] + LUMA[1] * v[1] + LUMA[2] * v[2]


def forward(S, x, p, clamp):
    slope, offset, power, sat = p
    v = []
    for i in range(3):
        t = x[i] * slope[i] + offset[i]
        if clamp:
            v.append(S.pow(S.clamp(t, 0.0, 1.0), power[i]))
        elif t < 0:
            v.append(t)
        else:
            v.append(S.pow(t, power[i]))
    y = luma(v)
    v = [y + sat * (c - y) for c in v]
    return [S.clamp(c, 0.0, 1.0) for c in v] if clamp else v


def reverse(S, x, p, clamp):
    slope, offset, power, sat = p
    if clamp:
        x = [S.clamp(c, 0.0, 1.0) for c in x]
    y = luma(x)
    out = []
    for i in range(3):
        t = y + (1.0 / sat) * (x[i] - y)
        if clamp:
            t = S.clamp(t, 0.0, 1.0)
            t = (S.pow(t, 1.0 / power[i]) - offset[i]) / slope[i]
            out.append(S.clamp(t, 0.0, 1.0))
        else:
            if t < 0:
                out.append((t - offset[i]) / slope[i])
            else:
                out.append((S.pow(t, 1.0 / power[i]) - offset[i]) / slope[i])
    return out


STYLES = {"Fwd": (forward, True), "v1.2_Fwd": (forward, True), "FwdNoClamp": (forward, False), "noClampFwd": (forward, False),
          "Rev": (reverse, True), "v1.2_Rev": (reverse, True), "RevNoClamp": (reverse, False), "noClampRev": (reverse, False)}


def params(S, given, n, powers=None, satlo=0.0):
    slope, offset, power, sat = [1.0] * 3, [0.0] * 3, [1.0] * 3, 1.0
    if "slope" in given:
        slope = S.reals("slope", 3, 0.25, 4.0)
        n.setSlope(*slope)
    if "offset" in given:
        offset = S.reals("offset", 3, -1.0, 1.0)
        n.setOffset(*offset)
    if "power" in given:
        power = list(powers) if powers else S.reals("power", 3, 0.25, 4.0)
        n.setPower(*power)
    if "saturation" in given:
        sat = S.real("sat", satlo, 2.0)
        n.setSaturation(sat)
    return slope, offset, power, sat


def style(S, name, given, inb, outb, powers=None):
    n = S.clf.ASCCDL(inb, outb, "id", "name", name)
    f, clamp = STYLES[name]
    p = params(S, given, n, powers, 0.25 if f is reverse else 0.0)
    a, b = SIZE[inb], SIZE[outb]
    px = S.reals("x", 3, -4.0 * a, 4.0 * a) + [S.real("alpha", -10.0, 10.0)]
    out = run_node(S, n, [px])[0]
    want = f(S, [c / a for c in px[:3]], p, clamp)
    S.closev(out, [c * b for c in want] + [px[3]], "value", scale=8.0 * b, ctol=1e-4)


ALL = ("slope", "offset", "power", "saturation")
for s in sorted(STYLES):
    SCENARIOS.add("linear-" + s, style, name=s, given=("slope", "offset", "saturation"), inb="10i", outb="12i")
    SCENARIOS.add("power-" + s, style, name=s, given=("power",), inb="32f", outb="8i")
    SCENARIOS.add("full-" + s, style, name=s, given=ALL, inb="16f", outb="16f", powers=(2.0, 0.5, 1.5), conf={"weight": 5})
    SCENARIOS.add("slope-" + s, style, name=s, given=("slope",), inb="16i", outb="16f")
    SCENARIOS.add("offset-" + s, style, name=s, given=("offset",), inb="16f", outb="10i")
    SCENARIOS.add("sat-" + s, style, name=s, given=("saturation",), inb="8i", outb="16i")
    SCENARIOS.add("none-" + s, style, name=s, given=(), inb="12i", outb="32f")
    SCENARIOS.add("deep-" + s, style, tier="thorough", name=s, given=ALL, inb="10i", outb="8i", conf={"thorough_s": 300})


def inverse(S, fwd, rev, powers, sat):
    """Reverse undoes forward wherever forward does not clip."""
    clamp = STYLES[fwd][1]
    a = S.clf.ASCCDL("16f", "16f", "", "", fwd)
    b = S.clf.ASCCDL("16f", "16f", "", "", rev)
    slope = S.reals("slope", 3, 0.25, 4.0)
    offset = S.reals("offset", 3, -1.0, 1.0)
    for n in (a, b):
        n.setSlope(*slope)
        n.setOffset(*offset)
        n.setPower(*powers)
        n.setSaturation(sat)
    px = S.reals("x", 3, -2.0, 2.0)
    if clamp:
        for i in range(3):
            t = px[i] * slope[i] + offset[i]
            S.assume(S.And(t >= 0.01, t <= 0.99, px[i] >= 0.0, px[i] <= 1.0))
        if sat != 1.0:
            y = forward(S, px, (slope, offset, powers, sat), False)
            for c in y:
                S.assume(S.And(c >= 0.001, c <= 0.999))
    else:
        for i in range(3):
            t = px[i] * slope[i] + offset[i]
            S.assume(S.Or(t < -0.001, t > 0.01))
    mid = run_node(S, a, [px])[0]
    back = run_node(S, b, [mid])[0]
    S.closev(back, px, "round trip", scale=8.0, tol=1e-7, ctol=2e-4)


for fwd, rev in (("Fwd", "Rev"), ("v1.2_Fwd", "v1.2_Rev"), ("FwdNoClamp", "RevNoClamp"), ("noClampFwd", "noClampRev")):
    for i, (powers, sat) in enumerate((((1.0, 1.0, 1.0), 0.5), ((2.0, 0.5, 1.25), 1.0), ((0.75, 2.0, 1.0), 1.5))):
        SCENARIOS.add("inverse-%s-%d" % (fwd, i), inverse, fwd=fwd, rev=rev, powers=powers, sat=sat, conf={"weight": 4})


def clamped(S, name):
    """Clamped styles always land in [0,1] (of the output depth)."""
    inb = S.choice("inb", ("8i", "16f"))
    n = S.clf.ASCCDL(inb, "16f", "", "", name)
    params(S, ALL, n, None, 0.25)
    px = S.reals("x", 3, -100.0, 100.0)
    for c in run_node(S, n, [px])[0]:
        S.true(S.And(c >= 0, c <= 1), "inside the unit range")


for s in ("Fwd", "v1.2_Fwd", "Rev", "v1.2_Rev"):
    SCENARIOS.add("clamped-" + s, clamped, name=s)


def narrow(S, width):
    """Pixels with fewer than three channels pass through."""
    name = S.choice("style", sorted(STYLES))
    n = S.clf.ASCCDL("16f", "16f", "", "", name)
    params(S, ALL, n, (1.0, 2.0, 0.5), 0.25)
    px = S.reals("x", width, -4.0, 4.0)
    S.samev(list(n.process(arr(S, px), stride=width)), px, "unchanged")


for w in (1, 2):
    SCENARIOS.add("narrow-%d" % w, narrow, width=w)


def correction(S):
    """A ColorCorrection (a CDL without style or depths) is the forward CDL."""
    n = S.clf.ColorCorrection()
    p = params(S, ("slope", "offset", "saturation"), n)
    px = S.reals("x", 4, -2.0, 2.0)
    out = run_list(S, plist(S, n), [px])[0]
    S.closev(out, forward(S, px[:3], p, True) + [px[3]], "value", ctol=1e-4)


SCENARIOS.add("ColorCorrection", correction)


def fixed(S, name, inb, outb, powers=(2.0, 1.5, 0.75), sat=1.25):
    n = S.clf.ASCCDL(inb, outb, "id", "name", name)
    p = ((1.25, 0.75, 1.5), (0.125, -0.0625, 0.25), powers, sat)
    n.setSlope(*p[0])
    n.setOffset(*p[1])
    n.setPower(*p[2])
    n.setSaturation(p[3])
    return n, p


def everydepth(S, name, reach):
    """Every pair of bit depths, values far outside the code range."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    chan = S.choice("channel", (0, 1, 2))
    n, p = fixed(S, name, inb, outb)
    a, b = SIZE[inb], SIZE[outb]
    px = [0.25 * a, 0.5 * a, 0.3125 * a, 0.125]
    px[chan] = S.real("x", -reach * a, reach * a)
    f, clamp = STYLES[name]
    want = f(S, [c / a for c in px[:3]], p, clamp)
    S.closev(run_node(S, n, [px])[0], [c * b for c in want] + [px[3]], "value", scale=8.0 * b * (1.0 if clamp else reach * reach), ctol=1e-4)


for s in sorted(STYLES):
    SCENARIOS.add("depths-" + s, everydepth, name=s, reach=16.0, conf={"weight": 3})


def extreme(S, name, what):
    """Forward: zero and negative slopes, offsets and saturations of any size."""
    n = S.clf.ASCCDL("16f", "16f", "id", "name", name)
    slope, offset, sat = [1.5, 0.5, 2.0], [0.125, -0.25, 0.0625], 0.75
    px = [0.75, -0.25, 0.5, 0.25]
    if what == "slope":
        slope = S.reals("slope", 3, -100.0, 100.0)
    elif what == "offset":
        offset = S.reals("offset", 3, -1000.0, 1000.0)
    elif what == "saturation":
        sat = S.real("sat", 0.0 if STYLES[name][0] is forward else 1.0 / 64, 64.0)
    else:
        px = S.reals("x", 3, -1e4, 1e4) + [0.25]
    n.setSlope(*slope)
    n.setOffset(*offset)
    n.setSaturation(sat)
    f, clamp = STYLES[name]
    want = f(S, px[:3], (slope, offset, (1.0, 1.0, 1.0), sat), clamp)
    S.closev(run_node(S, n, [px])[0], want + [px[3]], "value", scale=8.0 if clamp else 1e3, ctol=1e-4)


for s in sorted(STYLES):
    for w in ("slope", "offset", "saturation", "pixel"):
        if w != "slope" or STYLES[s][0] is forward:
            SCENARIOS.add("extreme-%s-%s" % (w, s), extreme, name=s, what=w)


def powers(S, name):
    """Powers close to and equal to one, and far from it, different ones for the channels."""
    pw = S.choice("powers", ((1.0, 1.0, 1.0), (1.0, 2.0, 1.0), (1.015625, 0.984375, 1.0), (0.125, 8.0, 0.25), (3.0, 1.0, 0.5)))
    n, p = fixed(S, name, "16f", "16f", powers=pw, sat=S.choice("sat", (1.0, 0.5)))
    px = [0.25, 0.5, 0.3125]
    px[S.choice("channel", (0, 1, 2))] = S.real("x", -1.0, 2.0)
    f, clamp = STYLES[name]
    S.closev(run_node(S, n, [px])[0], f(S, px, p, clamp), "value", scale=16.0 if clamp else 4096.0, ctol=1e-4)


for s in sorted(STYLES):
    SCENARIOS.add("powers-" + s, powers, name=s)


def many(S, name, stride, count):
    """Long runs of pixels: every one is transformed alike."""
    n, p = fixed(S, name, "16f", "16f")
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.03125 * ((k * 7 + c * 3) % 32) for c in range(stride)] for k in range(count)]
    pix[at] = S.reals("x", 1, -1.0, 2.0) + pix[at][1:]
    out = run_node(S, n, pix)
    f, clamp = STYLES[name]
    for k in sorted(set((0, 1, count // 2, count - 2, count - 1))):
        S.closev(out[k], f(S, pix[k][:3], p, clamp) + pix[k][3:], "px%d" % k, scale=16.0, ctol=1e-4)


for s in sorted(STYLES):
    SCENARIOS.add("many-" + s, many, name=s, stride=3 + len(s) % 3, count=150)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("cdl")], (0, 2))
