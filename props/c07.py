"""C07 Matrix"""
from props.common import *

SCENARIOS = Registry()
BOUNDS = "matrices 3x3, 3x4, 4x4, 4x5, also with the number of components as third dimension, with all entries symbolic in [-4,4]; pixel values symbolic in [-16,16]; 1 or 2 pixels of " \
         "3 to 5 channels; every pair of equal bit depths and mixed pairs chosen by enumeration" \
         "; the feature sets None, CLF, Autodesk, Duiker Research and All"
OUTSIDE = "single-precision rounding; pixels with fewer channels than the matrix has rows"


def oracle(dims, m, px):
    n, c = dims[:2]
    out = []
    for i in range(n):
        v = 0.0
        for j in range(n):
            v = v + m[i * c + j] * px[j]
        if c == n + 1:
            v = v + m[i * c + n]
        out.append(v)
    return out + list(px[n:])


def apply(S, dims, stride, count, entry):
    m = S.reals("m", dims[0] * dims[1], -4.0, 4.0)
    inb = S.choice("inb", ("16f", "8i", "10i"))
    outb = S.choice("outb", ("16f", "12i", "32f", "16i"))
    pix = pixels(S, stride, count, -16.0, 16.0)
    node = S.clf.Matrix(inb, outb, "id", "name")
    kind = S.choice("kind", ("list", "array"))
    node.setMatrix(list(dims), list(m) if kind == "list" else S.np.array(m, dtype=S.np.float32))
    if entry == "node":
        out = run_node(S, node, pix)
    elif entry == "zero":
        out = run_node(S, node, pix, stride=0)
    else:
        out = run_list(S, plist(S, node), pix)
    for k in range(count):
        S.closev(out[k], oracle(dims, m, pix[k]), "px%d" % k, scale=64.0)


for dims in ((3, 3), (3, 4), (4, 4), (4, 5)):
    for stride in (3, 4, 5):
        if stride < dims[0]:
            continue
        if stride == dims[0]:
            SCENARIOS.add("components-%dx%dx3-s%d" % (dims + (stride,)), apply, dims=dims + (3,), stride=stride, count=2, entry="list")
        for count in (1, 2):
            SCENARIOS.add("apply-%dx%d-s%d-n%d" % (dims + (stride, count)), apply, dims=dims, stride=stride, count=count, entry="node")
        SCENARIOS.add("list-%dx%d-s%d" % (dims + (stride,)), apply, dims=dims, stride=stride, count=2, entry="list")
    SCENARIOS.add("stride0-%dx%d" % dims, apply, dims=dims, stride=4, count=1, entry="zero")


def identity(S, n, off):
    """An identity matrix changes nothing."""
    c = n + off
    m = [1.0 if i == j else 0.0 for i in range(n) for j in range(c)]
    node = S.clf.Matrix("16f", "16f", "", "")
    node.setMatrix([n, c], m)
    px = S.reals("x", 4, -1000.0, 1000.0)
    S.samev(run_node(S, node, [px])[0], px, "identity")


def compose(S, n):
    """Applying A then B is applying B*A."""
    a = S.reals("a", n * n, -2.0, 2.0)
    b = S.reals("b", n * n, -2.0, 2.0)
    ba = [sum((b[i * n + k] * a[k * n + j] for k in range(n)), 0.0) for i in range(n) for j in range(n)]
    nodes = []
    for m in (a, b, ba):
        node = S.clf.Matrix("16f", "16f", "", "")
        node.setMatrix([n, n], m)
        nodes.append(node)
    px = S.reals("x", n, -4.0, 4.0)
    two = run_node(S, nodes[1], run_node(S, nodes[0], [px]))[0]
    one = run_node(S, nodes[2], [px])[0]
    S.closev(two, one, "product", scale=64.0)


for n in (3, 4):
    SCENARIOS.add("identity-%d" % n, identity, n=n, off=0)
    SCENARIOS.add("identity-off-%d" % n, identity, n=n, off=1)
    SCENARIOS.add("compose-%d" % n, compose, n=n)


def reread(S, dims):
    """The same matrix applied after being set again: last setMatrix wins, values() not altered by process."""
    m1 = S.reals("m", dims[0] * dims[1], -4.0, 4.0)
    node = S.clf.Matrix("32f", "32f", "", "")
    node.setMatrix(list(dims), m1)
    px = S.reals("x", 4, -16.0, 16.0)
    first = run_node(S, node, [px])[0]
    second = run_node(S, node, [px])[0]
    S.samev(first, second, "repeat")


for dims in ((3, 4), (4, 5)):
    SCENARIOS.add("repeat-%dx%d" % dims, reread, dims=dims)


FIXED = (0.5, 0.125, -0.25, 0.0625, 0.25, 0.75, 0.125, -0.5, -0.125, 0.375, 1.0, 0.25, 0.0625, 0.3125, 0.1875, 0.875, 0.4375, 0.5625, 0.9375, 0.6875)


def everydepth(S, dims, reach):
    """Every pair of bit depths, values far outside the code range; the matrix is applied to code values as they are."""
    inb, outb = S.choice("inb", DEPTHS), S.choice("outb", DEPTHS)
    m = FIXED[:dims[0] * dims[1]]
    node = S.clf.Matrix(inb, outb, "id", "name")
    node.setMatrix(list(dims), list(m))
    px = S.reals("x", 4, -reach, reach)
    S.closev(run_node(S, node, [px])[0], oracle(dims, m, px), "value", scale=4.0 * reach)


for dims in ((3, 3), (3, 4), (4, 4), (4, 5)):
    SCENARIOS.add("depths-%dx%d" % dims, everydepth, dims=dims, reach=1e6)


def entries(S, dims, reach):
    """Entries of any size and sign."""
    m = S.reals("m", dims[0] * dims[1], -reach, reach)
    node = S.clf.Matrix("16f", "16f", "id", "name")
    node.setMatrix(list(dims), list(m))
    px = [0.5, -0.25, 2.0, 0.75]
    S.closev(run_node(S, node, [px])[0], oracle(dims, m, px), "value", scale=8.0 * reach)


for dims in ((3, 3), (3, 4), (4, 4), (4, 5)):
    for reach in (1e-3, 1e4):
        SCENARIOS.add("entries-%dx%d-%g" % (dims + (reach,)), entries, dims=dims, reach=reach)


def many(S, dims, stride, count):
    """Long runs of pixels, of many channels: every pixel is transformed alike."""
    m = FIXED[:dims[0] * dims[1]]
    node = S.clf.Matrix("32f", "32f", "id", "name")
    node.setMatrix(list(dims), list(m))
    at = S.choice("pixel", (0, count // 2, count - 1))
    pix = [[0.0625 * ((p * 7 + c * 3) % 32) for c in range(stride)] for p in range(count)]
    pix[at] = S.reals("x", stride, -2.0, 2.0)
    out = run_node(S, node, pix)
    for p in sorted(set((0, 1, count // 2 - 1, count // 2, count - 2, count - 1))):
        S.closev(out[p], oracle(dims, m, pix[p]), "px%d" % p, scale=8.0)


for dims, stride, count in (((3, 4), 3, 700), ((4, 5), 4, 300), ((3, 3), 7, 64), ((4, 4), 12, 20)):
    SCENARIOS.add("many-%dx%d-s%d-n%d" % (dims + (stride, count)), many, dims=dims, stride=stride, count=count)


from props import nodes        # noqa: E402

add_features(SCENARIOS, [k for k in sorted(nodes.KINDS) if k.startswith("matrix")], (0, 2))
