"""Symbolic values and path exploration for the real CLF code (runs under python3-vt).

The code under test is the project's own Python, translated by the same rules the
build uses and executed here with proxy values.  A proxy wraps a z3 term; a branch
on a proxy asks the solver which outcomes are feasible under the path condition and
the explorer (run_paths) re-executes the scenario once per feasible outcome.

Kinds of values
  SymReal  a finite real number (z3 Real).  NaN and infinities are never inside a
           SymReal: they are ordinary concrete floats, reached by forking.
  SymInt   an integer: z3 Int, or a 72-bit vector when it came from bit patterns.
  SymFP    an IEEE half/single/double, bit exact (z3 FloatingPoint).
  SymBool  a condition.
Rounding of float32/float64 arithmetic on SymReal is outside the encoding.
"""
import builtins
import math
import time
from fractions import Fraction

import numpy as _np
import z3

_float = builtins.float
_int = builtins.int


class EngineLimit(BaseException):
    """The encoding cannot represent this step: the path is inconclusive."""


class Infeasible(BaseException):
    """An assumption made the path infeasible."""


class Stop(BaseException):
    """Budget exhausted."""


def limit(msg):
    if CUR is not None:
        CUR.limits.append(msg)
    raise EngineLimit(msg)


CUR = None          # the Path being executed
BVW = 72            # width of integers that come from bit patterns


# --------------------------------------------------------------------- terms
def rat(v):
    """z3 Real constant for a finite Python/numpy number, exact."""
    if isinstance(v, (bool, _int)) or isinstance(v, _np.integer):
        return z3.RealVal(_int(v))
    f = Fraction(_float(v))
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def is_num(v):
    return isinstance(v, (bool, _int, _float, _np.integer, _np.floating))


def is_sym(v):
    return isinstance(v, (SymReal, SymInt, SymFP, SymBool))


def isnanf(v):
    return v != v


def isinff(v):
    return v in (_float("inf"), _float("-inf"))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == bterm(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e != bterm(o))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    # as a number: forks
    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return _float(bool(self))

    def __neg__(self):
        return -int(bool(self))


def _boolnum():
    import operator
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift"):
        op = getattr(operator, n)
        setattr(SymBool, "__%s__" % n, lambda s, o, op=op: op(int(bool(s)), o))
        setattr(SymBool, "__r%s__" % n, lambda s, o, op=op: op(o, int(bool(s))))
    for n in ("lt", "le", "gt", "ge"):
        op = getattr(operator, n)
        setattr(SymBool, "__%s__" % n, lambda s, o, op=op: op(int(bool(s)), o))


_boolnum()


def bterm(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, _np.bool_)):
        return z3.BoolVal(bool(o))
    limit("boolean term from %r" % type(o))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkreal(e, np_=False):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = _float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if Fraction(f) == Fraction(e.numerator_as_long(), e.denominator_as_long()):
            return _np.float64(f) if np_ else f
    return SymReal(e, np_)


def mkint(e, dt=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, dt)


class _Num:
    """Shared helpers of the numeric proxies."""
    __slots__ = ()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise AttributeError("%s has no attribute %s" % (type(self).__name__, name))

    def __iter__(self):
        raise TypeError("%r object is not iterable" % type(self).__name__)

    def __str__(self):
        return CUR.token(self)

    def __repr__(self):
        if CUR is None:
            return "<sym>"
        return CUR.token(self)

    def __format__(self, spec):
        if spec in ("", "s"):
            return CUR.token(self)
        return sym_mod("%" + spec, self)


class SymReal(_Num):
    __slots__ = ("e", "np_", "tag")
    __array_priority__ = 1000

    def __init__(self, e, np_=False, tag=None):
        self.e = e
        self.np_ = np_
        self.tag = tag          # ("half", code, value) when this is exactly a half-float

    @property
    def dtype(self):
        return _np.dtype(_np.float64)

    # -- coercion: returns (z3 term, np flag) or a special marker
    @staticmethod
    def co(o):
        if isinstance(o, SymReal):
            return o.e, o.np_
        if isinstance(o, SymInt):
            if o.isbv:
                return z3.ToReal(z3.BV2Int(o.e)), False
            return z3.ToReal(o.e), o.dt is not None
        if is_num(o):
            if isinstance(o, (_float, _np.floating)) and (isnanf(o) or isinff(o)):
                return _float(o), isinstance(o, _np.generic)
            return rat(o), isinstance(o, _np.generic)
        if isinstance(o, SymBool):
            return z3.If(o.e, z3.RealVal(1), z3.RealVal(0)), False
        return None, None

    def _bin(self, o, f, special, rev=False):
        t, n = SymReal.co(o)
        if t is None:
            return NotImplemented
        n = n or self.np_
        if isinstance(t, _float):
            r = special(t)
            return _np.float64(r) if n else r
        return mkreal(f(t, self.e) if rev else f(self.e, t), n)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda s: s)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: -s)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: s, True)

    def _mulspecial(self, s):
        if isnanf(s):
            return s
        if CUR.decide(self.e > 0):
            return s
        if CUR.decide(self.e < 0):
            return -s
        return _float("nan")

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, self._mulspecial)
    __rmul__ = __mul__

    def __truediv__(self, o):
        t, n = SymReal.co(o)
        if t is None:
            return NotImplemented
        n = n or self.np_
        if isinstance(t, _float):
            r = t if isnanf(t) else 0.0
            return _np.float64(r) if n else r
        return divide(self.e, t, n)

    def __rtruediv__(self, o):
        t, n = SymReal.co(o)
        if t is None:
            return NotImplemented
        n = n or self.np_
        if isinstance(t, _float):
            r = self._mulspecial(t)
            return _np.float64(r) if n else r
        return divide(t, self.e, n)
    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        q = self / o
        return mkreal(z3.ToReal(z3.ToInt(q.e)), q.np_) if isinstance(q, SymReal) else math.floor(q)

    def __rfloordiv__(self, o):
        q = o / self
        return mkreal(z3.ToReal(z3.ToInt(q.e)), q.np_) if isinstance(q, SymReal) else math.floor(q)

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return sym_mod(o, self)
        return o - (o // self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        return mkreal(-self.e, self.np_)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(mkbool(compare(lambda a, b: a >= b, self.e, z3.RealVal(0))), self, -self)

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def _cmp(self, o, f, special):
        t, n = SymReal.co(o)
        if t is None:
            return NotImplemented
        if isinstance(t, _float):
            return special(t)
        return mkbool(compare(f, self.e, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda s: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda s: True)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 7        # keys are told apart by ==, which forks

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __float__(self):
        limit("float() of a symbolic value outside the translated code")

    def __int__(self):
        return _int(to_int(self).__index__())

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return sym_ceil(self)

    def __round__(self, nd=None):
        return sym_round(self, nd)

    # numpy scalar interface
    def astype(self, dt):
        from engine import npshim
        return npshim.as_dtype(dt)(self)

    def item(self):
        return SymReal(self.e, False, self.tag)

    @property
    def real(self):
        return self

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    def conjugate(self):
        return self

    def log10(self):
        return sym_log(self, 10)

    def log2(self):
        return sym_log(self, 2)

    def log(self):
        return sym_log(self, math.e)

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.e)), True)

    def ceil(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.e)), True)

    def sqrt(self):
        return sym_pow(self, 0.5)


def divide(a, b, np_):
    bs = z3.simplify(b)
    if z3.is_rational_value(bs):
        if bs.numerator_as_long() == 0:
            return div0(a, np_)
        return mkreal(a / bs, np_)
    b = atom(canon(b))
    if CUR.decide(b == 0):
        return div0(a, np_)
    return mkreal(canon(a * CUR.recip(b)), np_)


def div0(a, np_):
    if not np_:
        raise ZeroDivisionError("float division by zero")
    if CUR.decide(a > 0):
        return _np.float64("inf")
    if CUR.decide(a < 0):
        return _np.float64("-inf")
    return _np.float64("nan")


class SymInt(_Num):
    __slots__ = ("e", "dt", "isbv")
    __array_priority__ = 1000

    def __init__(self, e, dt=None):
        self.e = e
        self.dt = dt            # numpy integer dtype name, or None for a Python int
        self.isbv = z3.is_bv(e)

    @property
    def dtype(self):
        return _np.dtype(self.dt or "int64")

    def co(self, o):
        if isinstance(o, SymInt):
            if o.isbv == self.isbv:
                return o.e
            if self.isbv:
                return z3.Int2BV(o.e, BVW)
            return z3.BV2Int(o.e, True)
        if isinstance(o, (bool, _int, _np.integer)):
            return z3.BitVecVal(_int(o), BVW) if self.isbv else z3.IntVal(_int(o))
        return None

    def _bin(self, o, f, rev=False):
        t = self.co(o)
        if t is None:
            if isinstance(o, (_float, _np.floating, SymReal)):
                r = to_real(self)
                return f(o, r) if rev else f(r, o)
            return NotImplemented
        return mkint(f(t, self.e) if rev else f(self.e, t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _divmod(self, a, b, what):
        # Python floors; z3 Int division is Euclidean: equal for positive divisors.
        if z3.is_bv(a):
            if what == "div":
                q = a / b
                return mkint(z3.If(z3.And(z3.SRem(a, b) != 0, (a < 0) != (b < 0)), q - 1, q))
            m = z3.SRem(a, b)
            return mkint(z3.If(z3.And(m != 0, (m < 0) != (b < 0)), m + b, m))
        if CUR.decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if CUR.decide(b > 0):
            q, m = a / b, a % b
        else:
            q, m = (-a) / (-b), -((-a) % (-b))
        return mkint(q if what == "div" else m)

    def __floordiv__(self, o):
        t = self.co(o)
        if t is None:
            return to_real(self) // o
        return self._divmod(self.e, t, "div")

    def __rfloordiv__(self, o):
        t = self.co(o)
        if t is None:
            return o // to_real(self)
        return self._divmod(t, self.e, "div")

    def __mod__(self, o):
        t = self.co(o)
        if t is None:
            return to_real(self) % o
        return self._divmod(self.e, t, "mod")

    def __rmod__(self, o):
        if isinstance(o, str):
            return sym_mod(o, self)
        t = self.co(o)
        return self._divmod(t, self.e, "mod")

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return to_real(self) / (to_real(o) if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / to_real(self)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o, mod=None):
        return sym_pow(to_real(self), o)

    def __rpow__(self, o):
        return sym_pow(o, to_real(self))

    def __lshift__(self, o):
        if self.isbv:
            return mkint(self.e << self.co(o))
        return mkint(self.e * (1 << _int(o)))

    def __rshift__(self, o):
        if self.isbv:
            return mkint(self.e >> self.co(o))
        return mkint(self.e / (1 << _int(o)))

    def _bits(self, o, f):
        if not self.isbv and isinstance(o, (_int, _np.integer)) and o >= 0 and (o & (o + 1)) == 0 and f == "and":
            return mkint(self.e % (o + 1))
        a = self.e if self.isbv else z3.Int2BV(self.e, BVW)
        t = SymInt(a).co(o)
        if t is None:
            return NotImplemented
        return mkint({"and": a & t, "or": a | t, "xor": a ^ t}[f])

    def __and__(self, o):
        return self._bits(o, "and")
    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, "or")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, "xor")
    __rxor__ = __xor__

    def _cmp(self, o, f):
        t = self.co(o)
        if t is None:
            if isinstance(o, (_float, _np.floating, SymReal)):
                return f(to_real(self), o)
            return NotImplemented
        return mkbool(f(self.e, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return CUR.decide(self.e != self.co(0))

    def __index__(self):
        return CUR.concretize(self.e)

    __int__ = __index__

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, nd=None):
        return self

    def __float__(self):
        limit("float() of a symbolic int outside the translated code")

    def astype(self, dt):
        from engine import npshim
        return npshim.as_dtype(dt)(self)

    def item(self):
        return SymInt(self.e)

    def conjugate(self):
        return self


def to_real(v):
    if isinstance(v, SymInt):
        if v.isbv:
            return mkreal(z3.ToReal(z3.BV2Int(v.e, True)))
        return mkreal(z3.ToReal(v.e))
    return v


def to_int(v):
    """Python's int(): truncation."""
    if isinstance(v, SymInt):
        return SymInt(v.e)
    if isinstance(v, SymReal):
        if CUR.decide(v.e >= 0):
            return mkint(z3.ToInt(v.e))
        return mkint(-z3.ToInt(-v.e))
    return _int(v)


def sym_floor(v):
    if isinstance(v, SymReal):
        return mkint(z3.ToInt(v.e))
    if isinstance(v, SymInt):
        return SymInt(v.e)
    return math.floor(v)


def sym_ceil(v):
    if isinstance(v, SymReal):
        return mkint(-z3.ToInt(-v.e))
    if isinstance(v, SymInt):
        return SymInt(v.e)
    return math.ceil(v)


def half_even(e):
    """Int term: e rounded to the nearest integer, ties to even."""
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    return z3.If(d < rat(0.5), f, z3.If(d > rat(0.5), f + 1, z3.If(f % 2 == 0, f, f + 1)))


def sym_round(v, nd=None):
    if isinstance(v, SymReal):
        if nd in (None, 0):
            r = half_even(v.e)
            return mkint(r) if nd is None else mkreal(z3.ToReal(r), v.np_)
        return CUR.quantize(v, nd)
    if isinstance(v, SymInt):
        return v
    return builtins.round(v, nd) if nd is not None else builtins.round(v)


def ite(c, a, b):
    """If-term when c is symbolic; reals and ints only."""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SymInt, _int)) and isinstance(b, (SymInt, _int)) and not isinstance(a, bool):
        ia = a if isinstance(a, SymInt) else None
        ib = b if isinstance(b, SymInt) else None
        ref = ib if ia is None else ia
        if ref is None:
            return mkint(z3.If(c.e, z3.IntVal(a), z3.IntVal(b)))
        return mkint(z3.If(c.e, ref.co(a), ref.co(b)))
    ta, na = SymReal.co(a)
    tb, nb = SymReal.co(b)
    if ta is None or tb is None or isinstance(ta, _float) or isinstance(tb, _float):
        return a if bool(c) else b
    ta, tb = canon(ta), canon(tb)
    if z3.eq(ta, tb):
        return mkreal(ta, na or nb)
    e = z3.simplify(z3.If(c.e, atom(ta), atom(tb)))
    if e.decl().kind() != z3.Z3_OP_ITE:
        return mkreal(e, na or nb)
    return SymReal(CUR.itevar(e), na or nb)


# ------------------------------------------------- normal forms
def _factors(t):
    if z3.is_mul(t):
        out = []
        for c in t.children():
            out += _factors(c)
        return out
    if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 \
            and 0 < t.arg(1).numerator_as_long() < 8:
        return [t.arg(0)] * t.arg(1).numerator_as_long()
    return [t]


def _terms(e):
    return list(e.children()) if z3.is_add(e) else [e]


def canon(e):
    """Sum of monomials; reciprocals of single variables cancel."""
    e = z3.simplify(e, som=True)
    if CUR is not None and CUR.pins:
        e = z3.simplify(z3.substitute(e, *CUR.pins), som=True)
    if CUR is None or not CUR.recips:
        return e
    changed = False
    out = []
    for t in _terms(e):
        fs = _factors(t)
        if len(fs) > 1:
            ids = [f.get_id() for f in fs]
            for (b, w) in CUR.recip_pairs:
                while b in ids and w in ids:
                    for x in (b, w):
                        k = ids.index(x)
                        del ids[k]
                        del fs[k]
                    changed = True
        r = z3.RealVal(1)
        for f in fs:
            r = r * f
        out.append(r)
    if not changed:
        return e
    return z3.simplify(z3.Sum(out), som=True)


def _leaf(t):
    return z3.is_rational_value(t) or t.num_args() == 0 or t.decl().kind() == z3.Z3_OP_TO_REAL


def linear(e):
    """e (in canon form) is a linear combination of leaves."""
    for t in _terms(e):
        fs = [f for f in _factors(t) if not z3.is_rational_value(f)]
        if len(fs) > 1 or (fs and not _leaf(fs[0])):
            return False
    return True


def split(e):
    """(k, P, c) with e = k*P + c, P's first monomial having coefficient 1."""
    c = Fraction(0)
    rest = []
    lead = None
    for t in _terms(e):
        if z3.is_rational_value(t):
            c += t.as_fraction()
            continue
        if lead is None:
            lead = Fraction(1)
            for f in _factors(t):
                if z3.is_rational_value(f):
                    lead *= f.as_fraction()
        rest.append(t)
    if lead in (None, 1):
        return Fraction(1), (z3.Sum(rest) if len(rest) > 1 else rest[0]) if rest else z3.RealVal(0), c
    q = z3.RealVal(str(1 / lead))
    return lead, z3.simplify(z3.Sum([q * t for t in rest]), som=True), c


def atom(e):
    """A linear term equal to e (already canon): nonlinear parts are named."""
    if CUR is None or linear(e):
        return e
    k, P, c = split(e)
    v = CUR.named(z3.simplify(P, som=True))
    return z3.simplify(z3.RealVal(str(k)) * v + z3.RealVal(str(c)))


def compare(f, a, b):
    if CUR is None:
        return f(a, b)
    d = canon(a - b)
    if linear(d):
        return f(a, b) if linear(z3.simplify(a, som=True)) and linear(z3.simplify(b, som=True)) else f(d, z3.RealVal(0))
    return f(atom(d), z3.RealVal(0))


# ------------------------------------------------------------------ pow, log
def np_of(*vs):
    return any(isinstance(v, _np.generic) or (isinstance(v, SymReal) and v.np_) for v in vs)


def sym_pow(x, p):
    if isinstance(x, SymInt):
        x = to_real(x)
    if isinstance(p, SymInt):
        p = to_real(p)
    if isinstance(x, SymFP) or isinstance(p, SymFP):
        limit("pow on bit-exact floats")
    np_ = np_of(x, p)
    if not is_sym(x) and not is_sym(p):
        if np_:
            with _np.errstate(all="ignore"):
                return _np.float64(x) ** _np.float64(p)
        return builtins.pow(x, p)
    # exponent concrete
    if not is_sym(p):
        if isnanf(p):
            return p
        if isinff(p):
            limit("pow with an infinite exponent")
        if p == 0:
            return _np.float64(1.0) if np_ else 1.0
        if p == 1:
            return mkreal(x.e, np_)
        if p in (2, 3, 4):
            for (f, x2, p2, r2) in CUR.apps:
                if f == "pow" and z3.is_rational_value(p2) and abs(p2.as_fraction() * _int(p) - 1) < Fraction(1, 10 ** 12) \
                        and CUR.same(x.e, r2):
                    return SymReal(x2, np_)
            e = x.e
            for _ in range(_int(p) - 1):
                e = e * x.e
            e = canon(e)
            CUR.prods.append((x.e, _int(p), e))
            return mkreal(e, np_)
    if not is_sym(x):
        if isnanf(x) or isinff(x):
            limit("pow of a non-finite base")
        if x == 1:
            return _np.float64(1.0) if np_ else 1.0
        if x < 0:
            limit("pow of a negative constant")
        if x == 0:
            if CUR.decide(p.e > 0):
                return _np.float64(0.0) if np_ else 0.0
            if CUR.decide(p.e == 0):
                return _np.float64(1.0) if np_ else 1.0
            if np_:
                return _np.float64("inf")
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return CUR.app("pow", rat(x), p.e, np_)
    pe = rat(p) if not is_sym(p) else p.e
    if CUR.decide(x.e < 0):
        integral = (not is_sym(p)) and _float(p) == _int(p)
        if integral:
            r = CUR.app("pow", -x.e, pe, np_)
            return r if _int(p) % 2 == 0 else -r
        if np_:
            return _np.float64("nan")
        raise TypeError("can't convert complex to float")
    if CUR.decide(x.e == 0):
        if CUR.decide(pe > 0):
            return _np.float64(0.0) if np_ else 0.0
        if CUR.decide(pe == 0):
            return _np.float64(1.0) if np_ else 1.0
        if np_:
            return _np.float64("inf")
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    return CUR.app("pow", x.e, pe, np_)


def sym_log(x, base=math.e, numpy_style=True):
    """log of x; math.log* raises on x <= 0 (numpy_style False)."""
    if isinstance(x, SymInt):
        x = to_real(x)
    if not is_sym(x):
        if numpy_style:
            with _np.errstate(all="ignore"):
                return {10: _np.log10, 2: _np.log2}.get(base, _np.log)(_np.float64(x))
        return {10: math.log10, 2: math.log2}.get(base, math.log)(x)
    if CUR.decide(x.e <= 0):
        if not numpy_style:
            raise ValueError("math domain error")
        if CUR.decide(x.e == 0):
            return _np.float64("-inf")
        return _np.float64("nan")
    r = CUR.app("log10", x.e, None, x.np_ and numpy_style)
    if base == 10:
        return r
    return r / math.log10(base)


def sym_exp(x):
    if not is_sym(x):
        return _np.exp(x)
    return sym_pow(math.e, x)


# ------------------------------------------------------------ floating point
SORTS = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()


class SymFP(_Num):
    """A bit-exact float.  bits (a bit-vector) is kept when it is the source."""
    __slots__ = ("fp", "w", "_bits", "np_")
    __array_priority__ = 1000

    def __init__(self, w, fp=None, bits=None, np_=True):
        self.w = w
        self._bits = bits
        self.fp = fp if fp is not None else z3.fpBVToFP(bits, SORTS[w])
        self.np_ = np_

    @property
    def bits(self):
        if self._bits is None:
            self._bits = z3.fpToIEEEBV(self.fp)
        return self._bits

    @property
    def dtype(self):
        return _np.dtype("float%d" % self.w)

    def conv(self, w, np_=True):
        if w == self.w:
            return SymFP(w, self.fp, self._bits, np_)
        return SymFP(w, z3.fpFPToFP(RNE, self.fp, SORTS[w]), None, np_)

    @staticmethod
    def of(v, w):
        if isinstance(v, SymFP):
            return v.conv(w)
        if is_num(v):
            return SymFP(w, z3.FPVal(_float(v), SORTS[w]))
        limit("mixing bit-exact and real values")

    def _w(self, o):
        # numpy 1.24 scalar promotion: a Python number counts as 64 bits
        if isinstance(o, SymFP):
            return max(self.w, o.w)
        if isinstance(o, _np.floating):
            return max(self.w, o.dtype.itemsize * 8)
        return 64

    def _bin(self, o, f, rev=False):
        if not (is_num(o) or isinstance(o, SymFP)):
            if isinstance(o, (SymReal, SymInt)):
                limit("mixing bit-exact and real values")
            return NotImplemented
        w = self._w(o)
        a, b = SymFP.of(self, w), SymFP.of(o, w)
        if rev:
            a, b = b, a
        return SymFP(w, z3.simplify(f(a.fp, b.fp)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: z3.fpAdd(RNE, a, b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b), True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: z3.fpMul(RNE, a, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: z3.fpDiv(RNE, a, b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: z3.fpDiv(RNE, a, b), True)

    def __neg__(self):
        return SymFP(self.w, z3.fpNeg(self.fp))

    def __abs__(self):
        return SymFP(self.w, z3.fpAbs(self.fp))

    def _cmp(self, o, f):
        if not (is_num(o) or isinstance(o, SymFP)):
            return NotImplemented
        w = self._w(o)
        return mkbool(f(SymFP.of(self, w).fp, SymFP.of(o, w).fp))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)))
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.fp)

    def __bool__(self):
        return CUR.decide(z3.Not(z3.fpIsZero(self.fp)))

    def __float__(self):
        limit("float() of a bit-exact value outside the translated code")

    def astype(self, dt):
        from engine import npshim
        return npshim.as_dtype(dt)(self)

    def item(self):
        return self.conv(64, False)

    def isnan(self):
        return mkbool(z3.fpIsNaN(self.fp))

    def isinf(self):
        return mkbool(z3.fpIsInf(self.fp))


class SymBytes:
    """A byte string of fixed length whose bytes are 8-bit vectors."""

    def __init__(self, bs):
        self.bs = list(bs)

    def __len__(self):
        return len(self.bs)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.bs[k])
        return mkint(z3.ZeroExt(BVW - 8, self.bs[k]))

    def __add__(self, o):
        return SymBytes(self.bs + tobytes(o).bs)

    def __radd__(self, o):
        return SymBytes(tobytes(o).bs + self.bs)

    def tobytes(self):
        return self

    def hex(self):
        return CUR.token(self)


def tobytes(o):
    if isinstance(o, SymBytes):
        return o
    return SymBytes([z3.BitVecVal(b, 8) for b in bytes(o)])


def bytes_of_bits(bits, little=True):
    n = bits.size() // 8
    bs = [z3.Extract(8 * i + 7, 8 * i, bits) for i in range(n)]      # little endian
    return bs if little else bs[::-1]


def bits_of_bytes(bs, little=True):
    bs = list(bs)
    if little:
        bs = bs[::-1]
    return z3.simplify(z3.Concat(*bs) if len(bs) > 1 else bs[0])


# --------------------------------------------------------------- formatting
import re
_TOKEN = re.compile(r"\$(\d+)\$")
_FMT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+|\*))?([hlL]?)([diouxXeEfFgGcrs%])")


def untoken(s):
    """The symbolic value a piece of text stands for, or None."""
    if isinstance(s, bytes):
        try:
            s = s.decode("ascii")
        except UnicodeDecodeError:
            return None
    if not isinstance(s, str) or "$" not in s:
        return None
    t = s.strip()
    neg = False
    if t[:1] == "-":
        neg, t = True, t[1:]
    m = _TOKEN.fullmatch(t)
    if not m:
        return None
    v = CUR.tokens[_int(m.group(1))]
    return -v if neg else v


def sym_mod(fmt, args):
    """fmt % args for a text format, symbolic arguments become tokens."""
    if not isinstance(fmt, (str, bytes)):
        return fmt % args
    seq = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict) or not any(is_sym(a) or isinstance(a, SymBytes) or _has_sym(a) for a in seq):
        return fmt % args
    out, pos, k = [], 0, 0
    for m in _FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group(6)
        if conv == "%":
            out.append("%")
            continue
        if m.group(3) == "*" or m.group(4) == "*":
            limit("format with *")
        if k >= len(seq):
            raise TypeError("not enough arguments for format string")
        a = seq[k]
        k += 1
        width = ("%" + m.group(2) + (m.group(3) or "") + "s")
        if is_sym(a):
            if conv in "sr":
                text = str(a)
            elif conv in "diu":
                text = str(to_int(a)) if not isinstance(a, SymInt) else str(a)
            elif conv in "fF":
                text = str(CUR.quantize(a, _int(m.group(4)) if m.group(4) is not None else 6))
            elif conv in "eEgG":
                text = str(CUR.quantize_rel(a, _int(m.group(4)) if m.group(4) is not None else 6, conv))
            else:
                limit("format conversion %s of a symbolic value" % conv)
            flags = m.group(2).replace("0", "").replace("+", "").replace(" ", "").replace("#", "")
            out.append(("%" + flags + (m.group(3) or "") + "s") % text)
        else:
            out.append(("%" + m.group(2) + (m.group(3) or "") +
                        ("." + m.group(4) if m.group(4) is not None else "") + conv) % (a,))
    if k != len(seq):
        raise TypeError("not all arguments converted during string formatting")
    out.append(fmt[pos:])
    return "".join(out)


def _has_sym(a):
    if isinstance(a, (list, tuple)):
        return any(is_sym(x) or _has_sym(x) for x in a)
    return isinstance(a, _np.ndarray) and a.dtype == object


def leaves(e, seen=None, out=None):
    if out is None:
        seen, out = set(), set()
    i = e.get_id()
    if i in seen:
        return out
    seen.add(i)
    if e.num_args() == 0:
        if not z3.is_rational_value(e) and not z3.is_int_value(e) and not z3.is_true(e) and not z3.is_false(e):
            out.add(e.get_id())
    else:
        for c in e.children():
            leaves(c, seen, out)
    return out


# --------------------------------------------------------------- the path
class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.asserts = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.limited = 0


class Path:
    def __init__(self, prefix, stats, conf):
        self.prefix = prefix
        self.k = 0
        self.trace = []
        self.alts = []
        self.stats = stats
        self.conf = conf
        self.solver = z3.Solver()
        self.solver.set("timeout", conf.get("branch_ms", 3000))
        self.tokens = []
        self.tokmap = {}
        self.apps = []
        self.prods = []
        self.points = ()
        self.recips = {}
        self.recip_pairs = []
        self.pins = []
        self.pinned = {}
        self.names = {}
        self.ites = {}
        self.itelist = []
        self.quant = {}
        self.quants = []
        self.fresh_n = 0
        self.limits = []
        self.inputs = {}
        self.tables = {}
        self.cexs = []
        self.undecided = []
        self.obs = []
        self.lemmas = []
        self.decided = {}
        self.keep = []
        self.model = None           # a model of the path condition, when known
        self.deadline = conf.get("deadline")

    # ---- solver
    def check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Stop("time")
        self.stats.queries += 1
        t0 = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.conf.get("branch_ms", 3000))
        self.stats.solver_s += time.time() - t0
        return r

    def add(self, e):
        self.solver.add(e)
        self.model = None if self.model is None or not z3.is_true(self.model.eval(e, model_completion=True)) else self.model

    def fresh(self, sort="real", hint="t"):
        self.fresh_n += 1
        n = "%s!%d" % (hint, self.fresh_n)
        return z3.Real(n) if sort == "real" else z3.Int(n)

    def _feasible(self, e):
        """sat/unsat/unknown of e under the path condition, using a cached model first."""
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(e, model_completion=True)):
                    return z3.sat
            except z3.Z3Exception:
                pass
        r = self.check(e)
        if r == z3.sat:
            self.model = self.solver.model()
        return r

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = e.get_id()
        if i in self.decided:
            return self.decided[i]
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            st = self._feasible(e)
            sf = self._feasible(z3.Not(e))
            if st == z3.unsat and sf == z3.unsat:
                raise Infeasible("path condition")
            if st == z3.unsat:
                v = ("d", False)
            elif sf == z3.unsat:
                v = ("d", True)
            else:
                v = ("d", True)
                self.alts.append(tuple(self.trace) + (("d", False),))
                self.stats.branches += 1
        self.k += 1
        self.trace.append(v)
        val = v[1]
        c = e if val else z3.Not(e)
        self.add(c)
        self.keep.append(e)
        self.decided[i] = val
        ne = z3.simplify(z3.Not(e))
        self.keep.append(ne)
        self.decided[ne.get_id()] = not val
        if len(self.trace) > self.conf.get("max_depth", 4000):
            limit("path too deep")
        return val

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return e.as_signed_long()
        while True:
            if self.k < len(self.prefix):
                v = self.prefix[self.k]
            else:
                r = self.check()
                if r != z3.sat:
                    limit("no model to choose an index from (%s)" % r)
                m = self.solver.model()
                mv = m.eval(e, model_completion=True)
                val = mv.as_signed_long() if z3.is_bv_value(mv) else mv.as_long()
                v = ("c", val, True)
                if self.check(e != mv) != z3.unsat:
                    self.alts.append(tuple(self.trace) + (("c", val, False),))
                    self.stats.branches += 1
            self.k += 1
            self.trace.append(v)
            val = v[1]
            k = z3.BitVecVal(val, e.size()) if z3.is_bv(e) else z3.IntVal(val)
            if v[2]:
                self.add(e == k)
                if not z3.is_bv(e):
                    self.pin_floors(e)
                return val
            self.add(e != k)

    def pin_floors(self, e):
        """Floors below e that the path fixes are replaced by their value in normal forms."""
        todo, seen = [e], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app_of(t, z3.Z3_OP_TO_INT):
                if t.get_id() in self.pinned:
                    continue
                if self.check() != z3.sat:
                    return
                v = self.solver.model().eval(t, model_completion=True)
                if z3.is_int_value(v) and self.entailed(t == v):
                    self.pinned[t.get_id()] = True
                    self.keep.append(t)
                    self.pins.append((t, v))
                    for u in (z3.simplify(t), z3.simplify(t, som=True)):
                        if u.get_id() != t.get_id():
                            self.pins.append((u, v))
            else:
                todo.extend(t.children())

    def pick(self, n):
        """Enumerated choice of the scenario: one path per option."""
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            v = ("p", 0)
            for i in range(n - 1, 0, -1):
                self.alts.append(tuple(self.trace) + (("p", i),))
            self.stats.branches += n - 1
        self.k += 1
        self.trace.append(v)
        return v[1]

    def entailed(self, e, ms=1500):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.model is not None:
            try:
                if z3.is_false(self.model.eval(e, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        return self.check(z3.Not(e), timeout=ms) == z3.unsat

    # ---- names for nonlinear terms, choices and reciprocals
    def named(self, P):
        i = P.get_id()
        if i not in self.names:
            v = self.fresh("real", "n")
            self.add(v == P)
            self.names[i] = v
            self.keep.append(P)
        return self.names[i]

    def itevar(self, e):
        i = e.get_id()
        if i in self.ites:
            return self.ites[i]
        self.keep.append(e)
        full = z3.substitute(e, *[(v, f) for (v, f, _) in self.itelist]) if self.itelist else e
        vs = frozenset(leaves(full))
        for (v, f, vs0) in self.itelist:
            if vs0 == vs:
                s = z3.SolverFor("QF_LRA")
                s.set("timeout", 400)
                s.add(f != full)
                self.stats.queries += 1
                t0 = time.time()
                r = s.check()
                self.stats.solver_s += time.time() - t0
                if r == z3.unsat:
                    self.ites[i] = v
                    return v
        for (v, f, vs0) in self.itelist:
            if vs0 == vs and self.entailed(v == e, ms=400):
                self.ites[i] = v
                return v
        v = self.fresh("real", "c")
        self.add(v == e)
        self.ites[i] = v
        self.itelist.append((v, full, vs))
        return v

    def recip(self, b):
        """A term w with b*w == 1 (b is known to be nonzero)."""
        b = canon(b)
        k, P, c = split(b) if not linear(b) or len(_terms(b)) == 1 else (Fraction(1), b, 0)
        if c != 0:
            k, P = Fraction(1), b
        i = P.get_id()
        if i not in self.recips:
            w = self.fresh("real", "inv")
            self.add(P * w == 1)
            self.recips[i] = w
            self.keep.append(P)
            if P.num_args() == 0:
                self.recip_pairs.append((i, w.get_id()))
        return self.recips[i] * z3.RealVal(str(1 / k))

    # ---- uninterpreted real functions with congruence and axioms
    def same(self, a, b):
        d = canon(a - b)
        if z3.is_rational_value(d):
            return abs(d.as_fraction()) <= Fraction(1, 10 ** 10)
        # arguments that differ only by rounding are identified
        return self.entailed(z3.And(d <= rat(1e-10), d >= rat(-1e-10)))

    def app(self, fn, x, p, np_):
        if fn == "pow" and z3.is_rational_value(p) and p.as_fraction() != 0:
            n = round(_float(1 / p.as_fraction()))
            if n in (2, 3, 4) and abs(p.as_fraction() * n - 1) < Fraction(1, 10 ** 12):
                for (x2, n2, e2) in self.prods:
                    if n2 == n and self.same(x, e2):
                        if n % 2 and self.decide(x2 >= 0) or not n % 2 and self.decide(x2 >= 0):
                            return SymReal(x2, np_)
                        return SymReal(z3.simplify(-x2), np_)
        x = atom(canon(x))
        for (f, x2, p2, r) in self.apps:
            if f == fn and (p is None or self.same(p, p2)) and self.same(x, x2):
                return SymReal(r, np_)
        # inverse pairs
        for (f, x2, p2, r2) in self.apps:
            if fn == "log10" and f == "pow" and z3.is_rational_value(x2) and x2.as_fraction() == 10 and self.same(x, r2):
                return SymReal(p2, np_)
            if fn == "pow" and f == "log10" and z3.is_rational_value(x) and x.as_fraction() == 10 and self.same(p, r2):
                return SymReal(x2, np_)
            if fn == "pow" and f == "log10" and z3.is_rational_value(x) and x.as_fraction() > 0:
                # b ** (log10(y)/log10(b)) == y
                if self.same(p * rat(math.log10(_float(x.as_fraction()))), r2):
                    return SymReal(x2, np_)
            if fn == "log10" and f == "pow" and z3.is_rational_value(x2) and x2.as_fraction() > 0 and self.same(x, r2):
                return SymReal(p2 * rat(math.log10(_float(x2.as_fraction()))), np_)
            if fn == "pow" and f == "pow" and not z3.is_rational_value(x) and not z3.is_rational_value(x2) \
                    and self.same(p * p2, z3.RealVal(1)) and self.same(x, r2):
                return SymReal(x2, np_)
        r = self.fresh("real", fn)
        ax = []
        if fn == "log10":
            ax += [z3.Implies(x == 1, r == 0), z3.Implies(x > 1, r > 0), z3.Implies(x < 1, r < 0),
                   z3.Implies(x >= 10, r >= 1), z3.Implies(x <= rat(0.1), r <= -1), r >= -400, r <= 400]
            for (f, x2, p2, r2) in self.apps:
                if f == fn:
                    ax += [z3.Implies(x < x2, r < r2), z3.Implies(x > x2, r > r2), z3.Implies(x == x2, r == r2)]
        else:
            ax += [r > 0, z3.Implies(x == 1, r == 1), z3.Implies(p == 0, r == 1), z3.Implies(p == 1, r == x),
                   z3.Implies(z3.And(x > 1, p > 0), r > 1), z3.Implies(z3.And(x < 1, p > 0), r < 1),
                   z3.Implies(z3.And(x > 1, p < 0), r < 1), z3.Implies(z3.And(x < 1, p < 0), r > 1),
                   z3.Implies(z3.And(x > 1, p > 1), r > x), z3.Implies(z3.And(x > 1, p < 1), r < x),
                   z3.Implies(z3.And(x < 1, p > 1), r < x), z3.Implies(z3.And(x < 1, p < 1), r > x)]
            for (f, x2, p2, r2) in self.apps:
                if f == fn:
                    if z3.is_rational_value(x) and z3.is_rational_value(x2) and z3.eq(x, x2):
                        if x.as_fraction() > 1:
                            ax += [z3.Implies(p < p2, r < r2), z3.Implies(p > p2, r > r2), z3.Implies(p == p2, r == r2)]
                    elif self.same(p, p2):
                        ax += [z3.Implies(z3.And(p > 0, x < x2), r < r2), z3.Implies(z3.And(p > 0, x > x2), r > r2),
                               z3.Implies(x == x2, r == r2)]
            # two-sided bounds at a few points keep witnesses physical
            if z3.is_rational_value(p):
                pf = _float(p.as_fraction())
                if pf > 0:
                    for q in self.points + (2.0 ** -20, 2.0 ** -10, 0.015625, 0.0625, 0.18, 0.25, 0.5, 0.75, 2.0, 4.0, 10.0, 100.0, 1000.0):
                        try:
                            v = q ** pf
                        except OverflowError:
                            continue
                        ax += [z3.Implies(x <= rat(q), r <= rat(v * (1 + 1e-12))), z3.Implies(x >= rat(q), r >= rat(v * (1 - 1e-12)))]
            if z3.is_rational_value(x):
                xf = _float(x.as_fraction())
                for q in (-30.0, -10.0, -4.0, -2.0, -1.0, -0.5, -0.25, 0.25, 0.5, 1.0, 2.0, 3.0, 4.0, 8.0, 10.0, 20.0):
                    v = xf ** q
                    lo, hi = rat(v * (1 - 1e-12)), rat(v * (1 + 1e-12))
                    if xf > 1:
                        ax += [z3.Implies(p <= rat(q), r <= hi), z3.Implies(p >= rat(q), r >= lo)]
                    else:
                        ax += [z3.Implies(p <= rat(q), r >= lo), z3.Implies(p >= rat(q), r <= hi)]
        if fn == "log10":
            for q in tuple(q for q in self.points if q > 0) + (1e-38, 1e-20, 1e-10, 1e-6, 1e-4, 1e-3, 0.01, 0.03, 0.18, 0.5, 2.0, 4.0, 50.0, 100.0, 1e3, 1e4, 1e6):
                v = math.log10(q)
                ax += [z3.Implies(x <= rat(q), r <= rat(v + 1e-12)), z3.Implies(x >= rat(q), r >= rat(v - 1e-12))]
        for a in ax:
            self.add(a)
        self.apps.append((fn, x, p, r))
        return SymReal(r, np_)

    # ---- text
    def token(self, v):
        if isinstance(v, SymBool):
            return str(bool(v))
        if isinstance(v, SymBytes):
            key = ("b", tuple(b.get_id() for b in v.bs))
        elif isinstance(v, SymFP):
            key = ("f", v.w, (v._bits if v._bits is not None else v.fp).get_id(), v._bits is not None)
        elif isinstance(v, SymInt):
            key = ("i", v.e.get_id())
        else:
            key = ("r", v.e.get_id())
        if key not in self.tokmap:
            self.tokmap[key] = len(self.tokens)
            self.tokens.append(v)
            self.keep.append(v)
        return "$%d$" % self.tokmap[key]

    def quantize(self, v, digits):
        if isinstance(v, SymFP):
            limit("decimal text of a bit-exact value")
        e = to_real(v).e if isinstance(v, SymInt) else v.e
        key = (e.get_id(), digits)
        if key not in self.quant:
            y = self.fresh("real", "txt")
            h = z3.RealVal("1/%d" % (2 * 10 ** digits))
            self.add(z3.And(y - e <= h, e - y <= h))
            self.quant[key] = y
            self.quant[(y.get_id(), digits)] = y
            self.keep.append(e)
            self.quants.append((y, digits))
        return SymReal(self.quant[key], False)

    def quantize_rel(self, v, digits, conv):
        e = to_real(v).e if isinstance(v, SymInt) else v.e
        y = self.fresh("real", "txt")
        sig = digits if conv in "eE" else max(digits - 1, 0)
        h = z3.RealVal("1/%d" % (2 * 10 ** sig))
        ae = z3.If(e >= 0, e, -e)
        self.add(z3.And(y - e <= h * ae, e - y <= h * ae))
        return SymReal(y, False)

    def table_lookup(self, name, idx):
        """Entry idx of a symbolic table: online congruence, forking on index equality."""
        t = self.tables[name]
        if isinstance(idx, (_int, _np.integer)):
            ie = z3.IntVal(_int(idx))
        elif idx.isbv:
            ie = z3.BV2Int(idx.e)
        else:
            ie = idx.e
        for (i2, r) in t["entries"]:
            d = z3.simplify(ie - i2, som=True)
            if z3.is_int_value(d):
                if d.as_long() == 0:
                    return SymReal(r, t["np"])
                continue
            if self.decide(ie == i2):
                return SymReal(r, t["np"])
        r = self.fresh("real", "tab_" + name)
        self.add(z3.And(r >= rat(t["lo"]), r <= rat(t["hi"])))
        t["entries"].append((ie, r))
        return SymReal(r, t["np"])


def run_paths(scenario_fn, make_S, conf, stats, on_path):
    """Depth-first exploration.  on_path(path, S, exc) is called after each path."""
    global CUR
    work = [()]
    complete = True
    while work:
        if stats.paths >= conf.get("max_paths", 20000) or (conf.get("deadline") and time.time() > conf["deadline"]):
            complete = False
            break
        prefix = work.pop()
        CUR = Path(prefix, stats, conf)
        S = make_S(CUR)
        exc = None
        try:
            scenario_fn(S)
        except Infeasible:
            exc = "infeasible"
        except Stop:
            exc = "stop"
        except EngineLimit as e:
            exc = ("limit", str(e))
        except RecursionError as e:
            exc = ("limit", "recursion")
        except Exception as e:          # the code under test (or the oracle) raised
            exc = e
        if CUR.limits and not isinstance(exc, tuple):
            exc = ("limit", CUR.limits[0])
        stats.paths += 1 if exc != "infeasible" else 0
        work.extend(CUR.alts)
        stop = on_path(CUR, S, exc)
        S.cleanup()
        if exc == "stop":
            complete = False
            break
        if stop:
            complete = False
            break
    CUR = None
    return complete
