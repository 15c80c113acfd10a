"""C06 Range"""
from props.common import *

SCENARIOS = Registry()
BOUNDS = "limits symbolic within four times the code range of their depth, input limits at least 1/8 of the range apart; " \
         "pixel values symbolic within 8 times the code range, or an infinity; limits and values of 1e6 and of 1e-3 times the range; input ranges of 1e-9 to 1e4 times the code range onto output ranges of 1e-6 to 1e5; 1100 pixels with a few symbolic; every subset of limits, style and depth" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "NaN inputs; equal input limits; minimum above maximum"

LIMITS = ("minIn", "maxIn", "minOut", "maxOut")


def node_of(S, lim, inb, outb, style, how, default=None):
    R = S.clf.Range
    if how == "ctor":
        n = R(inb, outb, "id", "name", style)
    else:
        n = R(inb, outb, "id", "name")
        if style:
            n.setStyle(style)
    if default == "set":
        n.setDefaultRange(True)
    elif default == "ctor":
        n = R(inb, outb, "id", "name", style, True)
    for k, f in (("minIn", n.setMinInValue), ("maxIn", n.setMaxInValue), ("minOut", n.setMinOutValue), ("maxOut", n.setMaxOutValue)):
        if k in lim:
            f(lim[k])
    return n


def oracle(S, v, lim, inb, outb, style):
    a, b = SIZE[inb], SIZE[outb]
    x = v / a
    clamp = style in ("", "clamp")
    if all(k in lim for k in LIMITS):
        i0, i1, o0, o1 = lim["minIn"] / a, lim["maxIn"] / a, lim["minOut"] / b, lim["maxOut"] / b
        x = (x - i0) * ((o1 - o0) / (i1 - i0)) + o0
        if clamp:
            x = S.clamp(x, o0, o1)
    elif "minIn" in lim and "minOut" in lim:
        x = x + lim["minOut"] / b - lim["minIn"] / a
        if clamp:
            x = S.max(x, lim["minOut"] / b)
    elif "maxIn" in lim and "maxOut" in lim:
        x = x + lim["maxOut"] / b - lim["maxIn"] / a
        if clamp:
            x = S.min(x, lim["maxOut"] / b)
    return x * b


def limits(S, which, inb, outb):
    lim = {}
    for k in which:
        s = SIZE[inb if "In" in k else outb]
        lim[k] = S.real(k, -4.0 * s, 4.0 * s)
    if "minIn" in lim and "maxIn" in lim:
        S.assume(lim["maxIn"] - lim["minIn"] >= 0.125 * SIZE[inb])
    if "minOut" in lim and "maxOut" in lim:
        S.assume(lim["maxOut"] >= lim["minOut"])
    return lim


SUBSETS = (LIMITS, ("minIn", "minOut"), ("maxIn", "maxOut"), (), ("minIn", "maxIn", "minOut"), ("minIn", "minOut", "maxOut"),
           ("minIn",), ("maxOut",), ("minOut", "maxOut"))


def remap(S, which, inb):
    outb = S.choice("outb", DEPTHS)
    style = S.choice("style", ("clamp", "noClamp", ""))
    how = S.choice("how", ("ctor", "set"))
    lim = limits(S, which, inb, outb)
    v = [S.anyfloat("v0", -8.0 * SIZE[inb], 8.0 * SIZE[inb], ("inf", "-inf")), S.real("v1", -8.0 * SIZE[inb], 8.0 * SIZE[inb])]
    out = list(node_of(S, lim, inb, outb, style, how).process(arr(S, v), stride=2))
    for i in range(2):
        x = v[i]
        if x in (float("inf"), float("-inf")) if isinstance(x, float) else False:
            if len(lim) == 4 and style != "noClamp":
                S.close(out[i], lim["maxOut"] if x > 0 else lim["minOut"], "infinity clamps", scale=SIZE[outb])
            continue
        S.close(out[i], oracle(S, x, lim, inb, outb, style), "value%d" % i, scale=32.0 * SIZE[outb])
        if style != "noClamp" and len(lim) == 4:
            # room of one part in 10^5 for single precision on the real code
            e = 0.0 if S.symbolic else 1e-5 * SIZE[outb]
            S.true(S.And(out[i] >= lim["minOut"] - e, out[i] <= lim["maxOut"] + e), "inside the output limits")


for which in SUBSETS:
    for inb in (DEPTHS if len(which) in (4, 2) else ("8i", "12i", "32f")):
        SCENARIOS.add("remap-%s-%s" % ("+".join(which) or "none", inb), remap, which=which, inb=inb)


def default(S, which):
    """Under the default range, limits that are not given are 0 and 1."""
    inb = S.choice("inb", ("10i", "16i", "16f"))
    outb = S.choice("outb", ("8i", "12i", "32f"))
    style = S.choice("style", ("clamp", "noClamp"))
    lim = limits(S, which, inb, outb)
    full = {"minIn": 0.0, "maxIn": SIZE[inb], "minOut": 0.0, "maxOut": SIZE[outb]}
    full.update(lim)
    S.assume(S.And(full["maxIn"] - full["minIn"] >= 0.125 * SIZE[inb], full["maxOut"] >= full["minOut"]))
    v = S.real("v", -8.0 * SIZE[inb], 8.0 * SIZE[inb])
    out = list(node_of(S, lim, inb, outb, style, "ctor", S.choice("how", ("set", "ctor"))).process(arr(S, [v]), stride=1))
    S.close(out[0], oracle(S, v, full, inb, outb, style), "value", scale=32.0 * SIZE[outb])


for which in ((), ("minIn",), ("maxIn", "minOut"), LIMITS):
    SCENARIOS.add("default-%s" % ("+".join(which) or "none"), default, which=which)


def monotone(S):
    """Order of inputs is preserved, and the limits map to the limits."""
    lim = limits(S, LIMITS, "10i", "8i")
    x, y = S.real("x", -2048.0, 2048.0), S.real("y", -2048.0, 2048.0)
    S.assume(x <= y)
    n = node_of(S, lim, "10i", "8i", S.choice("style", ("clamp", "noClamp")), "ctor")
    out = list(n.process(arr(S, [x, y, lim["minIn"], lim["maxIn"]]), stride=1))
    S.true(out[0] <= out[1] + (0.0 if S.symbolic else 1e-3), "order kept")
    S.close(out[2], lim["minOut"], "minimum", scale=255.0)
    S.close(out[3], lim["maxOut"], "maximum", scale=255.0)


SCENARIOS.add("monotone", monotone)


def defaultattr(S):
    """A default range that was turned off again (or written as off) has no effect."""
    n = S.clf.Range("16f", "16f", "", "", "clamp")
    n.setDefaultRange(True)
    n.setDefaultRange(False)
    v = S.real("v", -8.0, 8.0)
    S.close(list(n.process(arr(S, [v]), stride=1))[0], v, "off", scale=8.0)


SCENARIOS.add("default-off", defaultattr)


def sizes(S, which, inb, outb, unit):
    """Limits and values far beyond the code range, or far within."""
    lim = {}
    for k in which:
        lim[k] = unit * SIZE[inb if "In" in k else outb] * S.real(k, -4.0, 4.0)
    if "minIn" in lim and "maxIn" in lim:
        S.assume(lim["maxIn"] - lim["minIn"] >= 0.125 * SIZE[inb] * unit)
    if "minOut" in lim and "maxOut" in lim:
        S.assume(lim["maxOut"] >= lim["minOut"])
    v = unit * SIZE[inb] * S.real("v", -8.0, 8.0)
    for style in ("clamp", "noClamp"):
        out = list(node_of(S, lim, inb, outb, style, "ctor").process(arr(S, [v]), stride=1))
        S.close(out[0], oracle(S, v, lim, inb, outb, style), style, scale=32.0 * SIZE[outb] * unit)


for k, inb in enumerate(DEPTHS):
    for q, outb in enumerate(DEPTHS):
        SCENARIOS.add("sizes-%s-%s" % (inb, outb), sizes, which=SUBSETS[(k + q) % 3], inb=inb, outb=outb, unit=(1e6, 1e-3)[(k + q // 2) % 2])


def many(S, which, inb, outb, style, stride, entry, count, at):
    lim = limits(S, which, inb, outb)
    if len(which) == 4:
        lim = {"minIn": 0.125 * SIZE[inb], "maxIn": 0.875 * SIZE[inb], "minOut": 0.25 * SIZE[outb], "maxOut": 0.75 * SIZE[outb]}
    pix = [[((k * 7 + c * 5) % 64) / 48.0 * SIZE[inb] - 0.25 * SIZE[inb] for c in range(stride)] for k in range(count)]
    for k in at:
        pix[k][k % stride] = S.real("x%d" % k, -2.0 * SIZE[inb], 2.0 * SIZE[inb])
    n = node_of(S, lim, inb, outb, style, "ctor")
    out = run_list(S, plist(S, n), pix) if entry == "list" else run_node(S, n, pix, as_list=entry == "aslist")
    for k in sorted(set(at) | set((0, 1, count // 2, count - 1))):
        S.closev(out[k], [oracle(S, v, lim, inb, outb, style) for v in pix[k]], "pixel%d" % k, scale=32.0 * SIZE[outb])


for k, (stride, count, at) in enumerate(((1, 9, (8,)), (2, 7, (3,)), (3, 20, (19,)), (4, 30, (17,)), (5, 12, (11,)), (7, 5, (4,)), (3, 1100, (1024,)), (4, 600, (513,)))):
    for q, which in enumerate(SUBSETS[:3]):
        SCENARIOS.add("many-%dx%d-%s" % (count, stride, "+".join(which)), many, which=which, inb=DEPTHS[(k + q) % 6], outb=DEPTHS[(k * 2 + q + 1) % 6], style=("clamp", "noClamp", "")[(k + q) % 3], stride=stride,
                      entry=("node", "list", "aslist")[(k + 2 * q) % 3], count=count, at=at)


def again(S, which, other):
    """Limits set anew between two runs."""
    inb, outb = S.choice("inb", ("8i", "32f")), S.choice("outb", ("10i", "16f"))
    style = S.choice("style", ("clamp", "noClamp"))
    lim = limits(S, which, inb, outb)
    n = node_of(S, lim, inb, outb, style, "ctor")
    v = S.real("v", -4.0 * SIZE[inb], 4.0 * SIZE[inb])
    S.close(list(n.process(arr(S, [v]), stride=1))[0], oracle(S, v, lim, inb, outb, style), "first", scale=32.0 * SIZE[outb])
    a = S.real("new", -4.0, 4.0) * SIZE[inb if "In" in other else outb]
    lim = dict(lim)
    lim[other] = a
    if "minIn" in lim and "maxIn" in lim:
        S.assume(lim["maxIn"] - lim["minIn"] >= 0.125 * SIZE[inb])
    if "minOut" in lim and "maxOut" in lim:
        S.assume(lim["maxOut"] >= lim["minOut"])
    getattr(n, {"minIn": "setMinInValue", "maxIn": "setMaxInValue", "minOut": "setMinOutValue", "maxOut": "setMaxOutValue"}[other])(a)
    S.close(list(n.process(arr(S, [v]), stride=1))[0], oracle(S, v, lim, inb, outb, style), "second", scale=32.0 * SIZE[outb])


for q, other in enumerate(LIMITS):
    SCENARIOS.add("again-" + other, again, which=LIMITS, other=other)
SCENARIOS.add("again-half-min", again, which=("minIn", "minOut"), other="minOut")
SCENARIOS.add("again-half-max", again, which=("maxIn", "maxOut"), other="maxIn")


def narrow(S, inb, outb, unit, ounit):
    """Limits very close together, around zero or at an end."""
    lim = {"minIn": unit * SIZE[inb] * S.real("a", -4.0, 4.0), "minOut": ounit * SIZE[outb] * S.real("b", -4.0, 4.0)}
    lim["maxIn"] = lim["minIn"] + unit * SIZE[inb] * S.real("w", 0.125, 4.0)
    lim["maxOut"] = lim["minOut"] + ounit * SIZE[outb] * S.real("u", 0.0, 4.0)
    v = unit * SIZE[inb] * S.real("v", -8.0, 8.0)
    for style in ("clamp", "noClamp"):
        out = list(node_of(S, lim, inb, outb, style, "ctor").process(arr(S, [v]), stride=1))
        S.close(out[0], oracle(S, v, lim, inb, outb, style), style, scale=32.0 * SIZE[outb] * ounit)


for inb, outb in (("16f", "32f"), ("32f", "8i"), ("10i", "16f"), ("16i", "12i")):
    for unit, ounit in ((1e-6, 1.0), (1e-9, 1e-3), (1e-5, 1e5), (1e4, 1e-6)):
        SCENARIOS.add("narrow-%s-%s-%g-%g" % (inb, outb, unit, ounit), narrow, inb=inb, outb=outb, unit=unit, ounit=ounit)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("range")], (0, 2))
