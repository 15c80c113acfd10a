"""Symbolic interpretation of a scenario (see concrete.py for the concrete one)."""
import builtins
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as _np
import z3

from engine import npshim, shadow, sym
from engine.sym import SymBool, SymFP, SymInt, SymReal, Infeasible, bterm, is_sym, ite, mkbool, rat

_float, _int = builtins.float, builtins.int
MARGINS = (1.0, 0.1, 0.01, 1e-3)
SOFTER = (1e-4, 1e-5, 1e-6)


def frac(t):
    if z3.is_algebraic_value(t):
        t = t.approx(25)
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


class SymTable:
    """A list of n symbolic numbers in which only the entries that are read exist."""
    def __init__(self, path, name, n, lo, hi):
        self.path, self.name, self.n = path, name, n
        path.tables[name] = {"entries": [], "lo": lo, "hi": hi, "np": False}

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice):
            sym.limit("slice of a symbolic table")
        if isinstance(k, _int) and k < 0:
            k += self.n
        if isinstance(k, _int):
            if not 0 <= k < self.n:
                raise IndexError("list index out of range")
        elif is_sym(k):
            if not (k >= 0):
                limit_neg = k + self.n
                return self[limit_neg]
            if not (k < self.n):
                raise IndexError("list index out of range")
        return self.path.table_lookup(self.name, k)

    def __iter__(self):
        sym.limit("iteration over a symbolic table")

    def __ne__(self, o):
        if isinstance(o, list) and len(o) != self.n:
            return True
        return self is not o

    def __eq__(self, o):
        return not self.__ne__(o)

    __hash__ = None


class SymS(object):
    symbolic = True

    def __init__(self, path, mods, params=None):
        self.path = path
        self.mods = mods
        self.dirs = []
        self.narrowed = []
        self.conf = path.conf
        self.cwd = os.getcwd()
        self.ncalls = {}

    # ---- modules
    @property
    def clf(self):
        return self.mods.get("aces.clf")

    @property
    def lf(self):
        return self.mods.get("aces.lutFormats")

    def mod(self, name):
        return self.mods.get(name)

    @property
    def np(self):
        return npshim.numpy

    # ---- inputs
    def real(self, name, lo=-2.0, hi=2.0):
        v = z3.Real(name)
        self.path.inputs[name] = ("real", v)
        self.path.add(z3.And(v >= rat(lo), v <= rat(hi)))
        return SymReal(v)

    def reals(self, name, n, lo=-2.0, hi=2.0):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.path.inputs[name] = ("int", v)
        self.path.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def choice(self, name, options):
        options = list(options)
        i = 0
        if len(options) > 1:
            i = self.path.pick(len(options))
        self.path.inputs[name] = ("const", i)
        return options[i]

    def anyfloat(self, name, lo=-2.0, hi=2.0, specials=("nan", "inf", "-inf")):
        k = self.choice(name + ".kind", ("finite",) + tuple(specials))
        if k == "finite":
            return self.real(name, lo, hi)
        return _float(k)

    def bits(self, name, width):
        v = z3.BitVec(name, width)
        self.path.inputs[name] = ("bits", v)
        return sym.mkint(z3.ZeroExt(sym.BVW - width, v))

    def fbits(self, name, w):
        v = z3.BitVec(name, w)
        self.path.inputs[name] = ("bits", v)
        return SymFP(w, bits=v, np_=True)

    def f32value(self, name):
        v = z3.BitVec(name, 32)
        self.path.inputs[name] = ("bits", v)
        return SymFP(32, bits=v, np_=True).conv(64, False)

    def table(self, name, n, lo=0.0, hi=1.0, default=None):
        self.path.inputs[name] = ("table", name)
        return SymTable(self.path, name, n, lo, hi)

    # ---- environment
    def narrow(self, name, n, keep):
        """Loops over range(n) in this module take only the steps kept; the real code always takes them all."""
        m = self.mods.get(name)
        keep = sorted(set(keep))
        m.__dict__["range"] = lambda *a: list(keep) if a == (n,) else range(*a)
        self.narrowed.append(m)

    def tmp(self):
        d = tempfile.mkdtemp(prefix="clfv-%d-" % os.getpid())
        self.dirs.append(d)
        return d

    def num(self, text):
        """The number a piece of text stands for, None if it is no number."""
        v = sym.untoken(text)
        if v is not None:
            return v
        try:
            return float(text)
        except ValueError:
            return None

    def codenum(self, text, base=10):
        """The whole number a piece of text (decimal or hexadecimal digits) stands for."""
        v = sym.untoken(text)
        if isinstance(v, sym.SymBytes):
            if base != 16:
                raise ValueError(text)
            return sym.mkint(z3.ZeroExt(sym.BVW - 8 * len(v), sym.bits_of_bytes(v.bs, False)))
        if v is not None:
            if not isinstance(v, SymInt):
                raise ValueError("not a whole number")
            return v
        return _int(text, base)

    def cleanup(self):
        os.chdir(self.cwd)
        for m in self.narrowed:
            m.__dict__.pop("range", None)
        self.narrowed = []
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []

    # ---- mathematics of the oracles
    def assume(self, c):
        c = bterm(c)
        self.path.add(c)
        if self.path.model is None and self.path.check() == z3.unsat:
            raise Infeasible("assumption")

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            if _special(a) or _special(b) or isinstance(a, SymFP) or isinstance(b, SymFP):
                return a if c else b
            return ite(c, a, b)
        return a if c else b

    def min(self, *a):
        r = a[0]
        for v in a[1:]:
            r = self.ite(v < r, v, r)
        return r

    def max(self, *a):
        r = a[0]
        for v in a[1:]:
            r = self.ite(v > r, v, r)
        return r

    def clamp(self, v, lo, hi):
        return self.ite(v < lo, lo, self.ite(v > hi, hi, v))

    def abs(self, v):
        return abs(v)

    def floor(self, v):
        return sym.sym_floor(v)

    def pow(self, a, b):
        r = npshim.numpy.power(a, b) if not (is_sym(a) or is_sym(b)) else sym.sym_pow(_np64(a), b)
        return r

    def log10(self, a):
        if is_sym(a):
            return sym.sym_log(a, 10.0)
        with _np.errstate(all="ignore"):
            return _float(_np.log10(a))

    def And(self, *a):
        r = True
        for v in a:
            r = v & r if isinstance(v, SymBool) else (r if v else False) if not isinstance(r, SymBool) else (r & bool(v))
        return r

    def Or(self, *a):
        r = False
        for v in a:
            r = v | r if isinstance(v, SymBool) else (True if v else r)
            if r is True:
                return True
        return r

    def Not(self, a):
        return ~a if isinstance(a, SymBool) else not a

    def points(self, *v):
        """Arguments at which power terms are pinned by numeric bounds."""
        self.path.points = self.path.points + tuple(_float(x) for x in v)

    def lookup(self, seq, i):
        if isinstance(i, SymInt) and isinstance(seq, (list, tuple)):
            r = seq[-1]
            for k in range(len(seq) - 2, -1, -1):
                r = self.ite(i == k, seq[k], r)
            return r
        return seq[i]

    # ---- assertions
    def observe(self, label, v):
        self.path.obs.append((label, v))

    def note(self, *a):
        pass

    def fail(self, label, msg):
        self._claim(z3.BoolVal(False), label, None)

    def true(self, c, label, msg=""):
        self.observe(label, c)
        if isinstance(c, SymArr):
            c = bool(c)
        if isinstance(c, SymBool):
            self._claim(c.e, label, None)
        else:
            self._claim(z3.BoolVal(bool(c)), label, None)

    def raises(self, fn, label, types=Exception):
        try:
            fn()
        except types:
            self._claim(z3.BoolVal(True), label, None)
            return True
        self._claim(z3.BoolVal(False), label, None)
        return False

    def close(self, a, b, label, scale=1.0, tol=1e-9, ctol=2e-5):
        a, b = _scalar(a), _scalar(b)
        self.observe(label, a)
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            sym.limit("tolerance on a bit-exact value")
        if not _numeric(a) or not _numeric(b):
            self._claim(z3.BoolVal(False), label, None)
            return
        if _special(a) or _special(b):
            ok = (a == b) if not (is_sym(a) or is_sym(b)) else False
            if not is_sym(a) and not is_sym(b) and a != a and b != b:
                ok = True
            self._claim(z3.BoolVal(bool(ok)), label, None)
            return
        ta, tb = SymReal.co(a)[0], SymReal.co(b)[0]
        d = sym.canon(ta - tb)
        sc = SymReal.co(scale)[0]
        sc = z3.simplify(z3.If(sc < 0, -sc, sc)) if not z3.is_rational_value(sc) else rat(abs(sc.as_fraction()))
        f = lambda m: z3.And(d <= rat(m) * sc, -d <= rat(m) * sc)      # noqa: E731
        self._claim(f(tol), label, [f(m) for m in MARGINS if m > ctol] + [f(ctol * 1.01)] + [f(m) for m in SOFTER if m < ctol])

    def closev(self, a, b, label, **k):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self._claim(z3.BoolVal(False), label, None)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.close(x, y, "%s[%d]" % (label, i), **k)

    def same(self, a, b, label):
        a, b = _scalar(a), _scalar(b)
        self.observe(label, a)
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            w = a.w if isinstance(a, SymFP) else b.w
            self.samebits(a, b, w, label)
            return
        if not _numeric(a) or not _numeric(b):
            self._claim(z3.BoolVal(False), label, None)
            return
        if _special(a) or _special(b):
            ok = not is_sym(a) and not is_sym(b) and (a == b or (a != a and b != b))
            self._claim(z3.BoolVal(bool(ok)), label, None)
            return
        ta, tb = SymReal.co(a)[0], SymReal.co(b)[0]
        d = sym.canon(ta - tb)
        f = lambda m: z3.And(d <= rat(m), -d <= rat(m))      # noqa: E731
        self._claim(d == 0, label, [f(m) for m in MARGINS])

    def samev(self, a, b, label):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self._claim(z3.BoolVal(False), label, None)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.same(x, y, "%s[%d]" % (label, i))

    def eq(self, a, b, label):
        self.observe(label, a)
        if _is_arr(a) or _is_arr(b):
            sym.limit("eq on arrays")
        r = self._eqdeep(a, b)
        self._claim(r.e if isinstance(r, SymBool) else z3.BoolVal(bool(r)), label, None)

    def _eqdeep(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.And(*[self._eqdeep(x, y) for x, y in zip(a, b)])
        if isinstance(a, SymFP) and isinstance(b, SymFP):
            return a == b
        return a == b

    def samebits(self, a, b, w, label):
        x, y = _fpw(a, w), _fpw(b, w)
        if isinstance(x, SymFP) and isinstance(y, SymFP) and x._bits is not None and y._bits is not None \
                and z3.eq(z3.simplify(x._bits), z3.simplify(y._bits)):
            self._claim(z3.BoolVal(True), label, None)
            return
        fx, fy = x.fp, y.fp
        self._claim(z3.Or(z3.And(z3.fpIsNaN(fx), z3.fpIsNaN(fy)), fx == fy), label, None)

    # ---- deciding
    def _claim(self, c, label, ladder):
        """Assert c on this path; ladder: weaker and weaker-than-needed forms of c whose
        violation is a bigger deviation, most violent first."""
        p = self.path
        p.stats.asserts += 1
        c = z3.simplify(c)
        if z3.is_true(c):
            p.stats.discharged += 1
            return
        ms = self.conf.get("assert_ms", 15000)
        if z3.is_false(c):
            r = p.check(timeout=ms)
        else:
            r = p.check(z3.Not(c), timeout=ms)
            if r == z3.unknown:
                r = self._fallback(z3.Not(c), ms)
        if r == z3.unsat:
            p.stats.discharged += 1
            p.solver.add(c)
            return
        if r == z3.unknown:
            p.undecided.append(label)
            p.stats.unknown += 1
            m = self._hunt(c, ladder, label)
        else:
            self._hunt(c, ladder, label)
        if z3.is_false(c):
            raise Infeasible("assertion fails on the whole path")
        p.add(c)
        if p.check() == z3.unsat:
            raise Infeasible("assertion fails on the whole path")

    def _fallback(self, neg, ms):
        p = self.path
        import time
        t0 = time.time()
        try:
            for make in (z3.Solver, lambda: z3.Then("simplify", "solve-eqs", "elim-term-ite", "qfnra-nlsat").solver()):
                s = make()
                s.set("timeout", ms)
                for a in p.solver.assertions():
                    s.add(a)
                s.add(neg)
                p.stats.queries += 1
                r = s.check()
                if r != z3.unknown:
                    break
            return r
        except z3.Z3Exception:
            return z3.unknown
        finally:
            p.stats.solver_s += time.time() - t0

    def _hunt(self, c, ladder, label):
        """Find concrete inputs that violate c; keep those the concrete run confirms."""
        p = self.path
        if p.conf.get("confirm") is None:
            return
        key = label.split("[")[0]
        tried = 0
        lem = []
        for claim in (ladder or []) + [c]:
            for attempt in range(3):
                if tried >= 8:
                    break
                neg = [] if z3.is_false(claim) else [z3.Not(claim)]
                r = p.check(*(neg + lem), timeout=6000)
                if r != z3.sat:
                    break
                m = p.solver.model()
                fixed, m = self._prettify(neg + lem, m)
                inputs = model_inputs(p, m)
                tried += 1
                if p.conf["confirm"](inputs, label):
                    p.cexs.append({"label": label, "inputs": inputs})
                    return m
                l2 = self._refine(m)
                if not l2:
                    break
                lem += l2
        p.conf["unconfirmed"](label)
        return None

    def _refine(self, m):
        """Point lemmas for the pow/log terms, evaluated at the model."""
        out = []
        p = self.path
        for (y, digits) in p.quants[:40]:
            try:
                v = frac(m.eval(y, model_completion=True)) * 10 ** digits
                if v.denominator != 1:
                    out.append(z3.IsInt(y * z3.RealVal(10 ** digits)))          # a decimal text of so many digits
            except (ValueError, AttributeError):
                continue
        for (f, x, q, r) in p.apps:
            try:
                xv = frac(m.eval(x, model_completion=True))
                if f == "pow":
                    qv = frac(m.eval(q, model_completion=True))
                    v = math.pow(_float(xv), _float(qv))
                    t = rat(v)
                    if z3.is_rational_value(q):
                        up = qv > 0
                        xr = z3.RealVal(str(xv))
                        out.append(z3.Implies(x <= xr, (r <= t * rat(1 + 1e-12)) if up else (r >= t * rat(1 - 1e-12))))
                        out.append(z3.Implies(x >= xr, (r >= t * rat(1 - 1e-12)) if up else (r <= t * rat(1 + 1e-12))))
                    else:
                        out.append(z3.Implies(z3.And(x == z3.RealVal(str(xv)), q == z3.RealVal(str(qv))),
                                              z3.And(r <= t * rat(1 + 1e-12), r >= t * rat(1 - 1e-12))))
                else:
                    v = math.log10(_float(xv))
                    xr = z3.RealVal(str(xv))
                    out.append(z3.Implies(x <= xr, r <= rat(v + 1e-12)))
                    out.append(z3.Implies(x >= xr, r >= rat(v - 1e-12)))
            except (ValueError, OverflowError, ZeroDivisionError, AttributeError):
                continue
        return out

    def _prettify(self, neg, m):
        """Round the model's inputs to short binary fractions where the violation survives."""
        p = self.path
        fixed = []
        n = 0
        for name, (k, t) in p.inputs.items():
            if k != "real":
                continue
            try:
                v = frac(m.eval(t, model_completion=True))
            except Exception:
                continue
            if (v * 1024).denominator == 1:
                fixed.append(t == z3.RealVal(str(v)))
                continue
            n += 1
            if n > 14:
                break
            for den in (4, 1024):
                w = Fraction(round(v * den), den)
                c = t == z3.RealVal(str(w))
                if p.check(*(neg + fixed + [c]), timeout=1000) == z3.sat:
                    m = p.solver.model()
                    fixed.append(c)
                    break
        return fixed, m


SymArr = npshim.SymArray


def _is_arr(v):
    return isinstance(v, _np.ndarray)


def _np64(a):
    if isinstance(a, SymReal):
        return SymReal(a.e, True, a.tag)
    return a


def _scalar(v):
    if isinstance(v, _np.ndarray) and v.size == 1:
        return v.reshape(-1)[0]
    return v


def _numeric(v):
    return isinstance(v, (SymReal, SymInt)) or sym.is_num(v)


def _special(v):
    return isinstance(v, (_float, _np.floating)) and (v != v or v in (_float("inf"), _float("-inf")))


def _fpw(v, w):
    if isinstance(v, SymFP):
        return v if v.w == w else v.conv(w)
    if isinstance(v, (SymReal, SymInt)):
        sym.limit("bits of an unrounded value")
    return SymFP.of(v, w)


def model_inputs(p, m):
    out = {}
    for name, (k, t) in p.inputs.items():
        if k == "const":
            out[name] = t
        elif k == "real":
            out[name] = _float(frac(m.eval(t, model_completion=True)))
        elif k == "int":
            out[name] = m.eval(t, model_completion=True).as_long()
        elif k == "bits":
            out[name] = m.eval(t, model_completion=True).as_long()
        elif k == "table":
            d = {}
            for (i, r) in p.tables[t]["entries"]:
                d[str(m.eval(i, model_completion=True).as_long())] = _float(frac(m.eval(r, model_completion=True)))
            out[name] = d
    return out


def model_obs(p, m):
    out = []
    for label, v in p.obs:
        v = _scalar(v)
        if isinstance(v, SymReal):
            out.append((label, _float(frac(m.eval(v.e, model_completion=True)))))
        elif isinstance(v, SymInt):
            t = m.eval(v.e, model_completion=True)
            out.append((label, _float(t.as_signed_long() if z3.is_bv(v.e) else t.as_long())))
        elif isinstance(v, SymBool):
            out.append((label, _float(z3.is_true(m.eval(v.e, model_completion=True)))))
        elif isinstance(v, (bool, _int, _float, _np.generic)):
            out.append((label, _float(v)))
        else:
            out.append((label, None))
    return out
