"""C20 SPI 1D files"""
from props.luts import *

SCENARIOS = Registry()
BOUNDS = "files of 2 to 6 entries, one or three components, symbolic entries within [-4,4], input ranges from a choice of nine and symbolic ones, symbolic pixels; header lines in several orders, blank lines, tabs, " \
         "upper and lower case extensions; files of up to 4096 entries with one or two symbolic; writing 2 to 9 (17) entries of any list, and up to 4096 of one with fixed answers but one (arbitrary answers)" \
         "; answers of 1e-5 to 1e5 in size; entries in eleven spellings of numbers; files rewritten and read again at the same path, by other spellings of it and from another folder; lists changed and written again"
OUTSIDE = "comment lines, other versions and two components (nothing says what they mean); inverse reading (C24)"

RANGES = ((0.0, 1.0), (-0.125, 1.125), (0.0, 2.0), (0.25, 1.0), (-1.0, 1.0), (0.0625, 16.0), (0.0, 0.5), (-2.0, -1.0), (0.0, 1023.0))


def text(S, entries, comps, frm, form):
    """entries: per entry a list of components."""
    sep = "\t" if form == "tabs" else " "
    data = []
    for e in entries:
        if form == "several" and comps == 1 and data and len(data[-1].split()) < 2:
            data[-1] += sep + str(e[0])
        else:
            data.append((sep * 2 if form != "tight" else "") + sep.join(str(x) for x in e))
        if form == "blank":
            data.append("   ")
            data.append("")
    head = ["Version 1", "From%s%s%s%s" % (sep, frm[0], sep, frm[1]), "Length%s%d" % (sep, len(entries)), "Components%s%d" % (sep, comps)]
    if form == "order":
        head = [head[0], head[3], head[2], head[1]]
    if form == "blank":
        head = head[:2] + ["", " "] + head[2:] + [""]
    return "\n".join(head + ["{"] + data + ["}"]) + ("" if form == "tight" else "\n")


def entries_of(S, n, comps, lo=-4.0, hi=4.0):
    return [S.reals("e%d_" % k, comps, lo, hi) for k in range(n)]


def channel(entries, comps, c):
    return [e[c if comps == 3 else 0] for e in entries]


def read(S, path):
    return registry(S).read(path)


def reading(S, n, comps, form, ranges, ext="spi1d"):
    frm = S.choice("range", ranges)
    es = entries_of(S, n, comps)
    pl = read(S, put(S, text(S, es, comps, frm, form), "a." + ext))
    w = frm[1] - frm[0]
    px = [frm[0] + 0.3 * w, frm[0] - 0.5 * w, frm[1] + 0.25 * w]
    c = S.choice("channel", (0, 1, 2))
    px[c] = S.real("x", frm[0] - w, frm[1] + w)
    out = run1(S, pl, px)
    for k in range(3):
        S.close(out[k], lerp(S, px[k], frm[0], frm[1], channel(es, comps, k)), "value", scale=8.0, ctol=5e-5)
    for k in range(n):
        p = position(k, n, *frm)
        out = run1(S, pl, [p] * 3)
        for i in range(3):
            S.close(out[i], channel(es, comps, i)[k], "entry", scale=8.0, ctol=2e-4)


FORMS = ("plain", "tabs", "blank", "order", "tight", "several")
for k, (n, comps) in enumerate(((2, 1), (2, 3), (3, 1), (3, 3), (4, 1), (5, 3), (6, 1))):
    SCENARIOS.add("read-%d-%d" % (n, comps), reading, n=n, comps=comps, form=FORMS[k % 6], ranges=RANGES[:6], conf={"weight": 2})
for k, form in enumerate(FORMS):
    SCENARIOS.add("form-" + form, reading, n=4, comps=1 + 2 * (k % 2) if form != "several" else 1, form=form, ranges=(RANGES[k], RANGES[6 + k % 3]), ext=("spi1d", "SPI1D", "Spi1D")[k % 3])
for n in (7, 9):
    SCENARIOS.add("read-%d" % n, reading, tier="thorough", n=n, comps=3, form="plain", ranges=RANGES)


def anyrange(S, n, comps):
    """Any input range: the entries are where they belong."""
    lo = S.real("lo", -2.0, 1.0)
    hi = S.real("hi", 1.5, 8.0)
    es = [[0.25 * k * k - 0.5 * c + 0.125 for c in range(comps)] for k in range(n)]
    pl = read(S, put(S, text(S, es, comps, (lo, hi), "plain"), "a.spi1d"))
    for k in range(n):
        out = run1(S, pl, [lo + (hi - lo) * k / (n - 1.0)] * 3)
        for i in range(3):
            S.close(out[i], channel(es, comps, i)[k], "entry", scale=8.0, ctol=2e-4)
    out = run1(S, pl, [lo - 1.0, hi + 1.0, lo])
    S.close(out[0], channel(es, comps, 0)[0], "below", scale=8.0)
    S.close(out[1], channel(es, comps, 1)[n - 1], "above", scale=8.0)
    S.close(out[2], channel(es, comps, 2)[0], "first", scale=8.0)


SCENARIOS.add("any-range-3", anyrange, n=3, comps=1)
SCENARIOS.add("any-range-5", anyrange, n=5, comps=3)


def parse(S, t):
    d = {"data": []}
    for line in t.split("\n"):
        w = line.split()
        if not w or w[0] in "{}":
            continue
        if w[0] in ("Version", "From", "Length", "Components"):
            d[w[0]] = [S.num(x) for x in w[1:]]
        else:
            d["data"].append([S.num(x) for x in w])
    return d


def writing(S, n, ranges, ext="spi1d"):
    """Writing any list samples it where the file says."""
    lo, hi = S.choice("range", ranges)
    p = Probe(S)
    f = put(S, "old contents that are longer than what is written\n" * (50 if S.choice("old", (0, 1)) else 0), "a." + ext)
    registry(S).write(p, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    d = parse(S, get(f))
    S.true(d["Version"] == [1.0], "version")
    S.true(d["Length"] == [float(n)] and len(d["data"]) == n, "length")
    S.true(d["Components"] == [3.0] and all(len(e) == 3 for e in d["data"]), "components")
    S.close(d["From"][0], lo, "from", scale=1.0, tol=1e-6)
    S.close(d["From"][1], hi, "to", scale=1.0, tol=1e-6)
    want = []
    for k in range(n):
        q = position(k, n, lo, hi)
        w = p.at(q, q, q)
        if w is None:
            S.fail("sampled", "not at %r" % q)
            return
        want.append(w)
        for c in range(3):
            S.close(d["data"][k][c], w[c], "entry", scale=2.0, tol=1e-7)
    pl = read(S, f)
    for k in range(n):
        out = run1(S, pl, [position(k, n, lo, hi)] * 3)
        S.closev(out, want[k], "read back", scale=2.0, tol=1e-6, ctol=2e-4)
    # in between
    x = [lo + (hi - lo) * (k + t) / (n - 1.0) for k, t in ((0, 0.25), (n - 2, 0.5), (0, 0.75))]
    out = run1(S, pl, x)
    for c, (k, t) in enumerate(((0, 0.25), (n - 2, 0.5), (0, 0.75))):
        S.close(out[c], want[k][c] * (1.0 - t) + want[k + 1][c] * t, "between", scale=2.0, tol=1e-6, ctol=2e-4)
    S.closev(run1(S, pl, [lo - 1.0] * 3), want[0], "below", scale=2.0, tol=1e-6, ctol=2e-4)
    S.closev(run1(S, pl, [hi + 1.0] * 3), want[n - 1], "above", scale=2.0, tol=1e-6, ctol=2e-4)


for k, n in enumerate((2, 3, 4, 5, 9)):
    SCENARIOS.add("write-%d" % n, writing, n=n, ranges=RANGES[:4] if n < 9 else RANGES[4:6], ext=("spi1d", "SPI1D")[k % 2])
SCENARIOS.add("write-17", writing, tier="thorough", n=17, ranges=RANGES)


def magnitudes(S, size, n):
    """Answers of any size keep their digits."""
    lo, hi = S.choice("range", RANGES[:2])
    p = Probe(S, -1.0 * size, 2.0 * size)
    f = put(S, "", "a.spi1d")
    registry(S).write(p, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    d = parse(S, get(f))
    pl = read(S, f)
    for k in range(n):
        q = position(k, n, lo, hi)
        w = p.at(q, q, q)
        if w is None:
            S.fail("sampled", "not at %r" % q)
            return
        S.closev(d["data"][k], w, "entry", scale=size, tol=1e-5, ctol=1e-4)
        S.closev(run1(S, pl, [q] * 3), w, "read back", scale=size, tol=1e-4, ctol=1e-3)


for s in (1e-5, 1e-3, 1e5):
    SCENARIOS.add("magnitudes-%g" % s, magnitudes, size=s, n=3)


def real_list(S, kinds, n, lo, hi):
    """A real list of nodes, sampled and read back."""
    from props import nodes
    pl = plist(S, *[nodes.make(S, k) for k in kinds])
    m = S.clf.Matrix("16f", "16f", "m", "m")
    m.setMatrix([3, 3], S.reals("m", 9, 0.1, 1.0))
    pl.addProcess(m)
    f = put(S, "", "a.spi1d")
    registry(S).write(pl, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    back = read(S, f)
    for k in range(n):
        q = position(k, n, lo, hi)
        S.closev(run1(S, back, [q] * 3), run1(S, pl, [q] * 3), "read back", scale=4.0, tol=1e-6, ctol=2e-4)


SCENARIOS.add("list-cdl", real_list, kinds=("cdl-Fwd",), n=4, lo=0.0, hi=1.0)
SCENARIOS.add("list-lut", real_list, kinds=("lut1d-3", "range-noClamp-mM"), n=3, lo=-0.5, hi=1.5)
SCENARIOS.add("list-gamma", real_list, kinds=("gamma-moncurveFwd", "ec-linear"), n=3, lo=0.25, hi=2.0)


def large(S, n, comps, at):
    """Long files: a few symbolic entries, and a symbolic pixel near them."""
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    es = [[((k * 37 + c * 11) % 101) / 64.0 - 0.25 for c in range(comps)] for k in range(n)]
    for k in at:
        es[k] = S.reals("e%d_" % k, comps, -4.0, 4.0)
    pl = read(S, put(S, text(S, es, comps, (lo, hi), S.choice("form", ("plain", "blank"))), "a.spi1d"))
    for k in sorted(set(at) | set((0, 1, n // 2, n - 2, n - 1)) | set(k for k in (15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023) if k < n)):
        out = run1(S, pl, [position(k, n, lo, hi)] * 3)
        for i in range(3):
            S.close(out[i], channel(es, comps, i)[k], "entry", scale=8.0, ctol=2e-3)
    k = at[0]
    x = S.real("x", position(k - 1, n, lo, hi), position(k + 1, n, lo, hi))
    out = run1(S, pl, [x, 0.5 * (lo + hi), hi])
    t = (x - lo) / (hi - lo) * (n - 1) - (k - 1)
    a, b, c = [channel(es, comps, 0)[q] for q in (k - 1, k, k + 1)]
    S.close(out[0], a + t * (b - a) if t <= 1.0 else b + (t - 1.0) * (c - b), "between", scale=8.0, ctol=5e-3)


for n, comps, at in ((17, 1, (16 // 2, 3)), (32, 3, (20,)), (64, 1, (40, 62)), (65, 3, (33,)), (256, 3, (200,)), (1024, 1, (700, 1022)), (1025, 3, (1000,)), (4096, 1, (4000,))):
    SCENARIOS.add("large-%d-%d" % (n, comps), large, n=n, comps=comps, at=at, conf={"weight": 4})


def write_large(S, n, at):
    lo, hi = S.choice("range", ((0.0, 1.0), (-0.5, 1.5)))
    p = Known(S, [[position(at, n, lo, hi)] * 3])
    f = put(S, "", "a.spi1d")
    registry(S).write(p, f, "1D", lutResolution1d=n, inputMin=lo, inputMax=hi)
    d = parse(S, get(f))
    S.true(d["Length"] == [float(n)] and len(d["data"]) == n, "length")
    for k in range(n):
        w = p.at(*[position(k, n, lo, hi)] * 3)
        S.closev(d["data"][k], w, "entry", scale=2.0, tol=1e-6)
    pl = read(S, f)
    for k in sorted(set((0, 1, n // 2, n - 2, n - 1, at, at + 1))):
        S.closev(run1(S, pl, [position(k, n, lo, hi)] * 3), p.at(*[position(k, n, lo, hi)] * 3), "read back", scale=2.0, tol=1e-5, ctol=5e-3)


for n, at in ((16, 9), (33, 20), (64, 50), (256, 100), (1024, 1000), (4096, 3000)):
    SCENARIOS.add("write-large-%d" % n, write_large, n=n, at=at, conf={"weight": 3})


def again(S, how):
    """What was read before does not matter, whatever path and contents it had."""
    a, b = S.reals("a", 3, -4.0, 4.0), S.reals("b", 3, -4.0, 4.0)
    ra, rb = S.choice("ranges", (((0.0, 1.0), (0.0, 1.0)), ((0.0, 1.0), (-0.5, 1.5))))
    same = S.choice("same length", (True, False)) if how == "path" else True
    ta = text(S, [[v] for v in a], 1, ra, "plain")
    tb = text(S, [[v] for v in (b if same else b[:2])], 1, rb, "plain")
    names = {"path": ("a.spi1d", "a.spi1d"), "names": ("a.spi1d", "b.spi1d"), "capitals": ("a.spi1d", "A.spi1d"), "directory": ("a.spi1d", os.path.join("sub", "a.spi1d"))}[how]
    f = put(S, ta, names[0])
    d = os.path.dirname(f)
    first = read(S, f)
    if how == "directory":
        os.mkdir(os.path.join(d, "sub"))
    g = os.path.join(d, names[1])
    with open(g, "w") as fp:
        fp.write(tb)
    second = read(S, g)
    if how != "path":
        third = read(S, f)
    eb = b if same else b[:2]
    for k in range(len(eb)):
        S.close(run1(S, second, [position(k, len(eb), *rb)] * 3)[k % 3], eb[k], "second", scale=8.0, ctol=2e-4)
    for k in range(3):
        S.close(run1(S, first, [position(k, 3, *ra)] * 3)[k], a[k], "first", scale=8.0, ctol=2e-4)
        if how != "path":
            S.close(run1(S, third, [position(k, 3, *ra)] * 3)[k], a[k], "first again", scale=8.0, ctol=2e-4)


for h in ("path", "names", "capitals", "directory"):
    SCENARIOS.add("again-" + h, again, how=h)


def write_again(S):
    """A second list written to the same path, and the same list once more after it changed."""
    n = 3
    m = S.clf.Range("16f", "16f", "r", "r", "noClamp")
    m.setMinInValue(0.0)
    v = S.reals("v", 2, -1.0, 1.0)
    m.setMinOutValue(v[0])
    pl = plist(S, m)
    f = put(S, "", "a.spi1d")
    d = os.path.dirname(f)
    g = f if S.choice("same path", (True, False)) else os.path.join(d, "b.spi1d")
    registry(S).write(pl, f, "1D", lutResolution1d=n)
    one = parse(S, get(f))
    if S.choice("changed", (True, False)):
        m.setMinOutValue(v[1])
    else:
        o = S.clf.Range("16f", "16f", "r", "r", "noClamp")
        o.setMinInValue(0.0)
        o.setMinOutValue(v[1])
        pl = plist(S, o)
    registry(S).write(pl, g, "1D", lutResolution1d=n)
    two = parse(S, get(g))
    for d_, w in ((one, v[0]), (two, v[1])):
        for k in range(n):
            S.closev(d_["data"][k], [position(k, n) + w] * 3, "entry", scale=2.0, tol=1e-6)


SCENARIOS.add("write-again", write_again)


SPELLED = ("0.25", ".25", "2.5e-1", "+0.25", "25E-2", "0.2500000000000000000001", "1e-05", "1e-7", "-1E-3", "2", "-2", "+3", "1.", "3.402823e+03", "65504.0", "1e4", "-.5", "007.5", "123456.789", "0", "-0.0", "1e-30")


def spelled(S, ext):
    """Numbers in any spelling."""
    n = 4
    w = [S.choice("w%d" % k, SPELLED) if k == 1 else SPELLED[(5 * k + 3) % len(SPELLED)] for k in range(n)]
    at = S.choice("at", (0, 2, 3))
    w[at] = S.real("e", -4.0, 4.0)
    frm = S.choice("from", (("0", "1"), ("+0.0", "1e0"), ("-1.25E-1", "1.125"), (".5", "2.")))
    lo, hi = float(frm[0]), float(frm[1])
    f = put(S, text(S, [[x] for x in w], 1, frm, "plain"), "a.spi1d")
    pl = read(S, f)
    for k in range(n):
        want = w[k] if k == at else float(w[k])
        S.close(run1(S, pl, [position(k, n, lo, hi)] * 3)[k % 3], want, "entry", scale=4.0 + abs(want) if k != at else 8.0, ctol=1e-1 if k != at and abs(want) > 100 else 1e-2)
    vals = list(pl[-1].getLUTValues())
    for k in range(n):
        if k != at:
            S.close(vals[k], float(w[k]), "value", scale=abs(float(w[k])), tol=1e-9, ctol=1e-6)


SCENARIOS.add("spelled", spelled, ext="spi1d")
