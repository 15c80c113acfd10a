"""C19 Compressed and self-contained files"""
import gzip
import os
import xml.etree.ElementTree as ET

from props.common import *
from props import nodes

SCENARIOS = Registry()
BOUNDS = "lists of every kind of node, numbers and pixels symbolic, under file names of ten shapes; references at any place of a list or group (two deep), up to three references in one list and chains of " \
         "references three files long, plain or compressed, with and without base path, resolved and not, bypassed or not; self-contained files compressed or not"
OUTSIDE = "references in cycles; bypassed nodes at the ends of a referenced list whose depths differ (they adapt nothing there and do in the expanded list)"

NAMES = ("a.clf", "a.CLF", "a.xml", "a.clf.gz", "a.gz", "a", "a.clfz", "a.b.c", "a b.clf", ".clf")


def px_of(S, hi=1.5):
    px = [[0.25, 0.5, 0.75], [0.6, 0.1, 0.9]]
    px[0][S.choice("channel", (0, 1, 2))] = S.real("x", -0.5, hi)
    return px


def named(S, ks):
    """Compressed and plain files read back the same, whatever they are called."""
    pl = S.clf.ProcessList()
    pl.setID("list")
    pl.addElement(S.clf.Description("text"))
    m = S.clf.Matrix("16f", "16f", "m", "m")
    m.setMatrix([3, 3], [0.5, 0.25, -0.125, 0.0, 1.0, 0.5, 0.75, 0.0, 0.25])
    pl.addProcess(m)
    pl.addProcess(gain(S, "a", "a"))
    for k in ks:
        pl.addProcess(nodes.make(S, k))
    d = S.tmp()
    name = S.choice("name", NAMES)
    f, g = os.path.join(d, "z" + name), os.path.join(d, "p" + name)
    pl.writeFile(f, writeGzip=True)
    pl.writeFile(g)
    with open(f, "rb") as fp:
        S.true(fp.read(2) == b"\x1f\x8b", "is compressed")
    with open(g, "rb") as fp:
        plain = fp.read()
    S.true(plain[:2] != b"\x1f\x8b" and plain[:5] == b"<?xml", "is plain")
    fp = gzip.open(f, "rb")
    S.true(fp.read() == plain, "holds the same document")
    fp.close()
    strict = S.choice("strict", (False, True))
    a, b = S.clf.ProcessList(f, strict), S.clf.ProcessList(g, strict)
    S.true([n.getNodeType() for n in a] == [n.getNodeType() for n in b] == [n.getNodeType() for n in pl], "nodes")
    S.true(a.getID() == "list" and b.getID() == "list", "id")
    x = [[0.25, 0.5, 0.75], [-0.25, 1.5, 0.0]]
    S.closev(flat(run_list(S, a, x)), flat(run_list(S, b, x)), "result", scale=8.0)
    S.closev(flat(run_list(S, a, x)), flat(run_list(S, pl, x)), "result of the list", scale=8.0)


SCENARIOS.add("named-1", named, ks=("range-noClamp-mM", "matrix3x3"))
SCENARIOS.add("named-2", named, conf={"weight": 3}, ks=("group", "matrix3x4"))


def overwritten(S):
    """A compressed file in place of a plain one and the other way round."""
    f = os.path.join(S.tmp(), "a.clf")
    order = S.choice("order", ((True, False, True), (False, True, False)))
    for k, z in enumerate(order):
        m = S.clf.Matrix("16f", "16f", "m", "m%d" % k)
        v = S.reals("m%d_" % k, 9, -2.0, 2.0)
        m.setMatrix([3, 3], v)
        pl = plist(S, m)
        if k == 0:
            for _ in range(30):
                pl.addElement(S.clf.Description("a long text that makes the first file longer than the others"))
        pl.writeFile(f, writeGzip=z)
        got = S.clf.ProcessList(f, True)
        S.true(got[0].getAttribute("name") == "m%d" % k, "the newest")
        S.closev(flat(run_list(S, got, [[1.0, 0.5, 0.25]])), flat(run_list(S, pl, [[1.0, 0.5, 0.25]])), "result", scale=8.0, tol=1e-7)


SCENARIOS.add("overwritten", overwritten)


def gain(S, name, tag, i="16f", o="16f"):
    n = S.clf.Range(i, o, tag, tag, "noClamp")
    lo = S.real(name + "lo", -1.0, 0.5)
    hi = lo + 0.5 + 0.25 * (ord(name) - ord("a"))
    n.setMinInValue(0.0)
    n.setMaxInValue(SIZE[i])
    n.setMinOutValue(lo * SIZE[o])
    n.setMaxOutValue(hi * SIZE[o])
    return n


def ids(S, nds):
    out = []
    for n in nds:
        out.append(ids(S, n.getProcesses()) if n.getNodeType() == "Group" else n.getAttribute("id"))
    return out


def has_reference(path):
    try:
        fp = gzip.open(path, "rb")
        t = fp.read()
    except (OSError, EOFError):
        with open(path, "rb") as fp:
            t = fp.read()
    return b"<Reference" in t


def same_tree(S, a, b):
    """Same elements, attributes and texts (the numbers are compared by what they compute)."""
    return (a.tag == b.tag and dict(a.attrib) == dict(b.attrib) and len(a) == len(b)
            and ((a.text or "").split() == (b.text or "").split() or a.tag not in ("Description", "AppRelease", "Copyright"))
            and all(same_tree(S, x, y) for x, y in zip(a, b)))


def selfcontained(S, shape, zip_ref, zip_out, base):
    """Self-contained files need nothing else."""
    d = S.tmp()
    sub = os.path.join(d, "refs")
    os.mkdir(sub)

    def ref(name, tag, i="16f", o="16f"):
        if base:
            return S.clf.Reference(i, o, tag, tag, path=name, basePath=sub)
        return S.clf.Reference(i, o, tag, tag, os.path.join(sub, name))

    def put(name, *nds):
        pl = S.clf.ProcessList()
        pl.setID(name)
        pl.addElement(S.clf.Description("of " + name))
        for n in nds:
            pl.addProcess(n)
        pl.writeFile(os.path.join(sub, name), writeGzip=zip_ref)

    put("one.clf", gain(S, "a", "a1"), nodes.make(S, "matrix3x4"))
    nid = "id"
    gone = ["one.clf"]
    pl = S.clf.ProcessList()
    if shape == "alone":
        pl.addProcess(ref("one.clf", "r"))
        want = ["a1", nid]
    elif shape == "between":
        for n in (gain(S, "b", "b"), ref("one.clf", "r"), gain(S, "c", "c"), ref("one.clf", "r2")):
            pl.addProcess(n)
        want = ["b", "a1", nid, "c", "a1", nid]
    elif shape == "group":
        g, h = S.clf.Group("16f", "16f", "g", "g"), S.clf.Group("16f", "16f", "h", "h")
        h.addProcess(ref("one.clf", "r"))
        h.addProcess(gain(S, "b", "b"))
        g.addProcess(gain(S, "c", "c"))
        g.addProcess(h)
        g.addProcess(ref("one.clf", "r2"))
        pl.addProcess(g)
        want = [["c", ["a1", nid, "b"], "a1", nid]]
    elif shape == "chain":
        put("two.clf", ref("one.clf", "q"), gain(S, "b", "b"))
        put("three.clf", gain(S, "c", "c"), ref("two.clf", "p"))
        gone += ["two.clf", "three.clf"]
        pl.addProcess(ref("three.clf", "r"))
        pl.addProcess(gain(S, "d", "d"))
        want = ["c", "a1", nid, "b", "d"]
    elif shape == "chain-group":
        g = S.clf.Group("16f", "16f", "g", "g")
        g.addProcess(ref("one.clf", "q"))
        g.addProcess(gain(S, "b", "b"))
        put("two.clf", g, gain(S, "c", "c"))
        gone += ["two.clf"]
        h = S.clf.Group("16f", "16f", "h", "h")
        h.addProcess(ref("two.clf", "r"))
        pl.addProcess(h)
        want = [[["a1", nid, "b"], "c"]]
    elif shape == "depths":
        put("two.clf", gain(S, "b", "b1", "10i", "12i"), gain(S, "c", "c1", "12i", "8i"))
        gone += ["two.clf"]
        for n in (gain(S, "d", "d", "16f", "10i"), ref("two.clf", "r", "10i", "8i"), gain(S, "e", "e", "8i", "16f")):
            pl.addProcess(n)
        want = ["d", "b1", "c1", "e"]
    elif shape == "empty":
        put("two.clf")
        gone += ["two.clf"]
        for n in (gain(S, "d", "d"), ref("two.clf", "r"), gain(S, "e", "e")):
            pl.addProcess(n)
        want = ["d", "e"]
    px = px_of(S)
    out = flat(run_list(S, pl, px))
    names = ids(S, pl)
    plain = pl.write().getroot()
    f = os.path.join(d, "out.clf")
    pl.writeFile(f, writeSelfContained=True, writeGzip=zip_out)
    S.true(not has_reference(f), "no reference is written")
    S.closev(flat(run_list(S, pl, px)), out, "the list computes the same after writing", scale=32.0)
    S.true(ids(S, pl) == names, "the list keeps its nodes")
    doc = pl.write()
    S.true(same_tree(S, plain, doc.getroot()), "the plain document is the same before and after")
    pl.writeFile(os.path.join(d, "plain.clf"))
    S.closev(flat(run_list(S, S.clf.ProcessList(os.path.join(d, "plain.clf")), px)), out, "result of the plain file", scale=32.0, tol=1e-8)
    S.true(sum(1 for e in doc.getroot().iter("Reference")) == {"alone": 1, "between": 2, "group": 2, "chain": 1, "chain-group": 1}.get(shape, 1), "references stay in other documents")
    S.true(sum(1 for e in pl.write(writeSelfContained=True).getroot().iter("Reference")) == 0, "no reference in a self-contained document")
    for n in gone:
        os.remove(os.path.join(sub, n))
    back = S.clf.ProcessList(f, S.choice("strict", (True, False)))
    S.true(ids(S, back) == want, "nodes", repr(ids(S, back)))
    S.closev(flat(run_list(S, back, px)), out, "result without the referenced files", scale=32.0, tol=1e-8)


for k, shape in enumerate(("alone", "between", "group", "chain", "chain-group", "depths", "empty")):
    for base in (False, True):
        SCENARIOS.add("contained-%s%s" % (shape, "-base" if base else ""), selfcontained, shape=shape, zip_ref=(k + base) % 2 == 0, zip_out=k % 3 == 1, base=base)
        SCENARIOS.add("contained-%s%s-2" % (shape, "-base" if base else ""), selfcontained, tier="thorough", shape=shape, zip_ref=(k + base) % 2 == 1, zip_out=k % 3 != 1, base=base)


def stays(S, why, nested):
    """An unresolved or bypassed reference stays a reference."""
    d = S.tmp()
    if why != "missing":
        plist(S, gain(S, "a", "a1")).writeFile(os.path.join(d, "one.clf"))
    if why == "bypassed":
        r = S.clf.Reference("16f", "16f", "r", "r", "one.clf", d)
        r.setAttribute("bypass", True)
    elif why == "missing":
        r = S.clf.Reference("16f", "16f", "r", "r", "one.clf", d)
    else:
        r = S.clf.Reference("16f", "16f", "r", "r")
    c, e = gain(S, "c", "c"), gain(S, "e", "e")
    g = S.clf.Group("16f", "16f", "g", "g")
    for n in (c, r, e):
        g.addProcess(n)
    pl = plist(S, g) if nested else plist(S, c, r, e)
    px = px_of(S)
    out = flat(run_list(S, pl, px))
    S.closev(out, flat(run_list(S, plist(S, c, e), px)), "changes nothing", scale=32.0)
    f = os.path.join(d, "out.clf")
    pl.writeFile(f, writeSelfContained=True)
    back = S.clf.ProcessList(f)
    kept = (back[0].getProcesses() if nested else list(back))
    S.true([n.getNodeType() for n in kept] == ["Range", "Reference", "Range"], "stays a reference")
    for k in ("path", "basePath", "bypass"):
        S.true(kept[1].getAttribute(k) == r.getAttribute(k), "attribute " + k)
    S.closev(flat(run_list(S, back, px)), out, "result", scale=32.0)


for why in ("bypassed", "missing", "no path"):
    for nested in (False, True):
        SCENARIOS.add("stays-%s%s" % (why.replace(" ", ""), "-nested" if nested else ""), stays, why=why, nested=nested)


def switch(S):
    """Writing one way does not affect writing the other way later."""
    d = S.tmp()
    plist(S, gain(S, "a", "a1")).writeFile(os.path.join(d, "one.clf"))
    r = S.clf.Reference("16f", "16f", "r", "r", os.path.join(d, "one.clf"))
    g = S.clf.Group("16f", "16f", "g", "g")
    g.addProcess(S.clf.Reference("16f", "16f", "r2", "r2", os.path.join(d, "one.clf")))
    pl = plist(S, r, g)
    for k in range(3):
        w = S.choice("way%d" % k, (True, False))
        f = os.path.join(d, "out%d.clf" % k)
        pl.writeFile(f, w, S.choice("zip%d" % k, (True, False)))
        S.true(has_reference(f) == (not w), "written as asked")
        S.true(ids(S, S.clf.ProcessList(f)) == (["a1", ["a1"]] if w else ["r", ["r2"]]), "nodes")


SCENARIOS.add("switch", switch)
