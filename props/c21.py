"""C21 SPI 3D files"""
from props.luts import *

SCENARIOS = Registry()
BOUNDS = "lattices of 2 to 4 points per axis, sizes differing between axes, all entries symbolic within [-4,4]; lines in six orders (also with repeated lines, the last one counts, and missing ones), extra short lines, " \
         "spacing; all lattice points and symbolic positions in between; lattices of up to 17 points per axis with one or two symbolic; writing 2 to 4 points per axis of any list over seven input ranges" \
         "; answers of 1e-5 to 1e5 in size; numbers in eleven spellings; files rewritten and read again; lists changed and written again"
OUTSIDE = "text lines of six or more words that are no entries; input ranges in the file (the format has none: what is written for another range is addressed by 0..1)"

SIZES = ((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 3, 3), (2, 3, 4), (4, 3, 2))
ORDERS = ("blue fastest", "red fastest", "backwards", "mixed", "repeated", "green fastest")


def lines_of(S, sizes, e, order):
    pts = [(r, g, b) for r in range(sizes[0]) for g in range(sizes[1]) for b in range(sizes[2])]
    if order == "red fastest":
        pts.sort(key=lambda p: (p[2], p[1], p[0]))
    elif order == "green fastest":
        pts.sort(key=lambda p: (p[0], p[2], p[1]))
    elif order == "backwards":
        pts.reverse()
    elif order == "mixed":
        pts = pts[1::2] + pts[0::2]
    out = []
    if order == "repeated":
        out = ["%d %d %d 9.0 9.5 9.25" % p for p in pts[:3]]
    for p in pts:
        out.append("%d %d %d " % p + " ".join(str(v) for v in e[p]))
    return out


def entries_of(S, sizes, lo=-4.0, hi=4.0):
    return {(r, g, b): S.reals("e%d%d%d_" % (r, g, b), 3, lo, hi) for r in range(sizes[0]) for g in range(sizes[1]) for b in range(sizes[2])}


def text(S, sizes, lines, form):
    head = ["SPILUT 1.0", "3 3", "%d %d %d" % tuple(sizes)]
    if form == "short":
        mid = len(lines) // 2
        lines = ["# a comment"] + lines[:mid] + ["", "  ", "# more"] + lines[mid:] + ["# end", ""]
    if form == "spaces":
        lines = ["  " + x.replace(" ", "\t ") + "  " for x in lines]
        head[2] = "  " + head[2].replace(" ", "   ")
    return "\n".join(head + lines) + ("\n" if form != "end" else "")


def lattice(S, pl, sizes, e, label="entry", **k):
    for (r, g, b), v in sorted(e.items()):
        out = run1(S, pl, [position(r, sizes[0]), position(g, sizes[1]), position(b, sizes[2])])
        S.closev(out, v, label, scale=4.0, ctol=1e-4, **k)


def reading(S, sizes, form, interpolation=None, ext="spi3d"):
    order = S.choice("order", ORDERS)
    e = entries_of(S, sizes)
    f = put(S, text(S, sizes, lines_of(S, sizes, e, order), form), "a." + ext)
    pl = registry(S).read(f, interpolation=interpolation) if interpolation else registry(S).read(f)
    S.true([n.getNodeType() for n in pl] == ["LUT3D"], "nodes")
    S.true(list(pl[0].getLUTDimensions()) == list(sizes) + [3] or list(pl[0].getLUTDimensions())[:3] == list(sizes), "sizes", repr(pl[0].getLUTDimensions()))
    S.true(pl[0].getAttribute("interpolation") == {None: "trilinear", "linear": "trilinear"}.get(interpolation, interpolation), "interpolation", repr(pl[0].getAttribute("interpolation")))
    vals = list(pl[0].getLUTValues())
    k = 0
    for p in sorted(e):
        for c in range(3):
            S.close(vals[k], e[p][c], "value", scale=4.0)
            k += 1
    S.true(k == len(vals), "count")
    lattice(S, pl, sizes, e)


FORMS = ("plain", "short", "spaces", "end")
for k, s in enumerate(SIZES):
    SCENARIOS.add("read-%d%d%d" % s, reading, sizes=s, form=FORMS[k % 4], interpolation=(None, "linear", "tetrahedral", "trilinear")[k % 4], ext=("spi3d", "SPI3D")[k % 2], conf={"weight": 2})
SCENARIOS.add("read-444", reading, tier="thorough", sizes=(4, 4, 4), form="short")


def between(S, sizes):
    """Positions in between, on an edge of a cell."""
    e = entries_of(S, sizes)
    order = S.choice("order", ORDERS)
    pl = registry(S).read(put(S, text(S, sizes, lines_of(S, sizes, e, order), "plain"), "a.spi3d"))
    axis = S.choice("axis", (0, 1, 2))
    x = S.real("x", -0.5, 1.5)
    at = [sizes[0] - 1, 0, 1]
    px = [position(at[c], sizes[c]) for c in range(3)]
    px[axis] = x
    out = run1(S, pl, px)
    row = []
    for k in range(sizes[axis]):
        p = list(at)
        p[axis] = k
        row.append(e[tuple(p)])
    for c in range(3):
        S.close(out[c], lerp(S, x, 0.0, 1.0, [v[c] for v in row]), "between", scale=8.0, ctol=1e-4)


for s in ((2, 3, 2), (3, 2, 4)):
    SCENARIOS.add("between-%d%d%d" % s, between, sizes=s)


def missing(S):
    """Lattice points the file leaves out do not move the others."""
    sizes = (2, 3, 2)
    e = entries_of(S, sizes)
    left = S.choice("left out", ((0, 0, 0), (1, 2, 1), (0, 1, 1)))
    lines = [x for x in lines_of(S, sizes, e, "blue fastest") if not x.startswith("%d %d %d " % left)]
    pl = registry(S).read(put(S, text(S, sizes, lines, "plain"), "a.spi3d"))
    del e[left]
    lattice(S, pl, sizes, e)


SCENARIOS.add("missing", missing)
RANGES = ((0.0, 1.0), (-0.125, 1.125), (0.0, 2.0), (0.25, 1.0), (-1.0, 1.0), (0.0625, 16.0), (-2.0, -1.0))


def writing(S, n, ext="spi3d"):
    lo, hi = S.choice("range", RANGES)
    p = Probe(S)
    f = put(S, "", "a." + ext)
    registry(S).write(p, f, "3D", lutResolution3d=n, inputMin=lo, inputMax=hi)
    rows = [r.split() for r in get(f).split("\n") if r.strip()]
    S.true(rows[0] == ["SPILUT", "1.0"] and rows[1] == ["3", "3"], "header")
    S.true(rows[2] == [str(n)] * 3, "sizes")
    S.true(len(rows) == 3 + n ** 3, "count")
    seen = set()
    e = {}
    for row in rows[3:]:
        i = tuple(int(x) for x in row[:3])
        seen.add(i)
        w = p.at(*[position(k, n, lo, hi) for k in i])
        if w is None:
            S.fail("sampled", "not at %r" % (i,))
            return
        e[i] = w
        S.true(len(row) == 6, "columns")
        for c in range(3):
            S.close(S.num(row[3 + c]), w[c], "entry", scale=2.0, tol=1e-7)
    S.true(len(seen) == n ** 3 and all(0 <= k < n for i in seen for k in i), "every point once")
    lattice(S, registry(S).read(f), (n, n, n), e, "read back", tol=1e-7)


for n in (2, 3, 4):
    SCENARIOS.add("write-%d" % n, writing, n=n, ext=("spi3d", "SPI3D")[n % 2])
SCENARIOS.add("write-5", writing, tier="thorough", n=5)


def magnitudes(S, size):
    """Answers of any size keep their digits."""
    p = Probe(S, -1.0 * size, 2.0 * size)
    f = put(S, "", "a.spi3d")
    registry(S).write(p, f, "3D", lutResolution3d=2)
    pl = registry(S).read(f)
    for r in get(f).split("\n")[3:]:
        row = r.split()
        if row:
            at = [float(int(x)) for x in row[:3]]
            w = p.at(*at)
            if w is None:
                S.fail("sampled", "not at %r" % (at,))
                return
            S.closev([S.num(x) for x in row[3:]], w, "entry", scale=size, tol=1e-5, ctol=1e-4)
            S.closev(run1(S, pl, at), w, "read back", scale=size, tol=1e-4, ctol=1e-3)


for s in (1e-5, 1e-3, 1e5):
    SCENARIOS.add("magnitudes-%g" % s, magnitudes, size=s)


def sizes_apart(S):
    """The writer itself takes a size per axis."""
    sizes = S.choice("sizes", SIZES)
    e = entries_of(S, sizes)
    data = [[[list(e[(r, g, b)]) for b in range(sizes[2])] for g in range(sizes[1])] for r in range(sizes[0])]
    f = put(S, "", "a.spi3d")
    S.mod("aces.lutFormats.LutSPI").LutFormatSPI.writeSPI3D(f, 0.0, 1.0, data, list(sizes))
    rows = [r.split() for r in get(f).split("\n") if r.strip()]
    S.true([int(x) for x in rows[2]] == list(sizes), "sizes")
    for row in rows[3:]:
        for c in range(3):
            S.close(S.num(row[3 + c]), e[tuple(int(x) for x in row[:3])][c], "entry", scale=4.0)
    S.true(len(set(tuple(r[:3]) for r in rows[3:])) == sizes[0] * sizes[1] * sizes[2], "every point")
    lattice(S, registry(S).read(f), sizes, e, "read back")


SCENARIOS.add("sizes-apart", sizes_apart)


def large(S, sizes, at):
    """Larger lattices: two symbolic points, the others fixed."""
    e = {}
    for r in range(sizes[0]):
        for g in range(sizes[1]):
            for b in range(sizes[2]):
                e[(r, g, b)] = [((r * 7 + g * 13 + b * 29 + c * 5) % 97) / 64.0 - 0.25 for c in range(3)]
    for k, p in enumerate(at):
        e[p] = S.reals("e%d_" % k, 3, -4.0, 4.0)
    order = S.choice("order", ORDERS[:4])
    pl = registry(S).read(put(S, text(S, sizes, lines_of(S, sizes, e, order), S.choice("form", ("plain", "short"))), "a.spi3d"))
    vals = list(pl[0].getLUTValues())
    S.eq(len(vals), 3 * sizes[0] * sizes[1] * sizes[2], "count")
    n = 0
    for p in sorted(e):
        if p in at:
            S.closev(vals[n:n + 3], e[p], "value", scale=4.0)
        else:
            S.true(all(near(a, b) for a, b in zip(vals[n:n + 3], e[p])), "value")
        n += 3
    some = dict((p, e[p]) for k, p in enumerate(sorted(e)) if p in at or k % (len(e) // 20) == 0 or k in (1, len(e) - 1))
    lattice(S, pl, sizes, some)


for sizes, at in (((6, 6, 6), ((3, 4, 5), (5, 5, 5))), ((9, 9, 9), ((8, 0, 4), (4, 4, 4))), ((5, 12, 7), ((4, 11, 6), (2, 10, 3))), ((17, 17, 17), ((16, 15, 14), (11, 12, 16))), ((2, 2, 33), ((1, 1, 31), (0, 1, 17)))):
    SCENARIOS.add("large-%dx%dx%d" % sizes, large, sizes=sizes, at=at, conf={"weight": 5})


def write_large(S, n, at):
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    p = Known(S, [[position(k, n, lo, hi) for k in at]])
    f = put(S, "", "a.spi3d")
    registry(S).write(p, f, "3D", lutResolution3d=n, inputMin=lo, inputMax=hi)
    rows = [r.split() for r in get(f).split("\n") if r.strip()]
    S.true(rows[2] == [str(n)] * 3 and len(rows) == 3 + n ** 3, "count")
    seen = set()
    for row in rows[3:]:
        i = tuple(int(x) for x in row[:3])
        seen.add(i)
        w = p.at(*[position(k, n, lo, hi) for k in i])
        if i == at:
            S.closev([S.num(x) for x in row[3:]], w, "entry", scale=2.0, tol=1e-6)
        else:
            S.true(all(abs(float(a) - b) <= 2e-6 for a, b in zip(row[3:], w)), "entry")
    S.true(len(seen) == n ** 3, "every point once")


for n, at in ((6, (1, 3, 5)), (9, (8, 2, 7)), (17, (16, 11, 3))):
    SCENARIOS.add("write-large-%d" % n, write_large, n=n, at=at, conf={"weight": 5})


def again(S, same):
    """What was read before does not matter, whatever path and contents it had."""
    sa, sb = (2, 2, 2), S.choice("sizes", ((2, 2, 2), (2, 3, 2)))
    a = {p: S.reals("a%d%d%d_" % p, 3, -4.0, 4.0) for p in ((r, g, b) for r in range(2) for g in range(2) for b in range(2))}
    b = entries_of(S, sb)
    f = put(S, text(S, sa, lines_of(S, sa, a, "blue fastest"), "plain"), "a.spi3d")
    first = registry(S).read(f)
    g = f if same else os.path.join(os.path.dirname(f), "A.spi3d")
    with open(g, "w") as fp:
        fp.write(text(S, sb, lines_of(S, sb, b, "blue fastest"), "plain"))
    second = registry(S).read(g)
    lattice(S, second, sb, b, "second")
    lattice(S, first, sa, a, "first")
    if not same:
        lattice(S, registry(S).read(f), sa, a, "first again")


for s in (True, False):
    SCENARIOS.add("again-" + ("path" if s else "names"), again, same=s)


def write_again(S):
    """A second list written to the same path, and the same list once more after it changed."""
    m = S.clf.Range("16f", "16f", "r", "r", "noClamp")
    m.setMinInValue(0.0)
    v = S.reals("v", 2, -1.0, 1.0)
    m.setMinOutValue(v[0])
    pl = plist(S, m)
    f = put(S, "", "a.spi3d")
    g = f if S.choice("same path", (True, False)) else os.path.join(os.path.dirname(f), "b.spi3d")
    rows = []
    for path, w in ((f, v[0]), (g, v[1])):
        m.setMinOutValue(w)
        registry(S).write(pl, path, "3D", lutResolution3d=2)
        rows.append(([r.split() for r in get(path).split("\n") if r.strip()][3:], w))
    for rs, w in rows:
        S.true(len(rs) == 8, "count")
        for r in rs:
            for c in range(3):
                S.close(S.num(r[3 + c]), int(r[c]) + w, "entry", scale=2.0, tol=1e-6)


SCENARIOS.add("write-again", write_again)


def spelled(S):
    """Numbers in any spelling."""
    from props.c20 import SPELLED
    sizes = (2, 2, 2)
    e = {p: [SPELLED[(q + 7 * c) % len(SPELLED)] for c in range(3)] for q, p in enumerate((r, g, b) for r in range(2) for g in range(2) for b in range(2))}
    p = S.choice("point", sorted(e))
    c = S.choice("channel", (0, 1, 2))
    e[p] = list(e[p])
    e[p][c] = S.real("e", -4.0, 4.0)
    pl = registry(S).read(put(S, text(S, sizes, lines_of(S, sizes, e, S.choice("order", ORDERS[:3])), "plain"), "a.spi3d"))
    vals = list(pl[0].getLUTValues())
    k = 0
    for q in sorted(e):
        for i in range(3):
            w = e[q][i] if q == p and i == c else float(e[q][i])
            S.close(vals[k], w, "value", scale=4.0 if q == p and i == c else abs(w), tol=1e-9, ctol=1e-6)
            k += 1


SCENARIOS.add("spelled", spelled)
