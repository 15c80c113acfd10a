"""Builtins as the translated code sees them."""
import builtins

from engine import sym
from engine.sym import SymBool, SymFP, SymInt, SymReal, is_sym

_float, _int, _min, _max, _abs, _pow, _round = (builtins.float, builtins.int, builtins.min, builtins.max,
                                               builtins.abs, builtins.pow, builtins.round)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_float, SymReal, SymFP))

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)

    def __call__(cls, v=0.0):
        if isinstance(v, (str, bytes)):
            t = sym.untoken(v)
            if t is None:
                return _float(v)
            if isinstance(t, sym.SymBytes):
                raise ValueError("could not convert string to float")
            v = t
        if isinstance(v, SymReal):
            return SymReal(v.e, False, v.tag)
        if isinstance(v, SymInt):
            return sym.to_real(v)
        if isinstance(v, SymFP):
            return v.conv(64, False)
        if isinstance(v, SymBool):
            return sym.ite(v, 1.0, 0.0)
        from engine import npshim
        if isinstance(v, npshim.SymArray):
            return cls(npshim.cast(v, "float64"))
        return _float(v)

    def __getattr__(cls, n):
        return getattr(_float, n)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __call__(cls, v=0, *base):
        if isinstance(v, (str, bytes)):
            t = sym.untoken(v)
            if t is None:
                return _int(v, *base)
            if isinstance(t, sym.SymBytes):
                if base == (16,):
                    import z3
                    return sym.mkint(z3.ZeroExt(sym.BVW - 8 * len(t), sym.bits_of_bytes(t.bs, False)))
                raise ValueError("invalid literal for int()")
            if not isinstance(t, (SymInt, _int)):
                raise ValueError("invalid literal for int() with base 10")
            return SymInt(t.e) if isinstance(t, SymInt) else t
        if isinstance(v, (SymReal, SymInt)):
            return sym.to_int(v)
        if isinstance(v, SymFP):
            sym.limit("int of a bit-exact float")
        if isinstance(v, SymBool):
            return sym.ite(v, 1, 0)
        from engine import npshim
        if isinstance(v, npshim.SymArray):
            return cls(npshim.cast(v, "float64" if v._name in npshim.FW else "int64"))
        return _int(v, *base)

    def __getattr__(cls, n):
        return getattr(_int, n)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class int(metaclass=_IntMeta):
    pass


def _pick(less, a, b):
    """b if less else a."""
    if isinstance(less, bool):
        return b if less else a
    if not isinstance(less, SymBool):
        return b if less else a
    if sym.CUR.conf.get("minmax") == "fork" or isinstance(a, SymFP) or isinstance(b, SymFP) or not (is_num(a) and is_num(b)):
        return b if less else a
    return sym.ite(less, b, a)


def is_num(v):
    return is_sym(v) or sym.is_num(v)


def _args(a):
    return list(a[0]) if len(a) == 1 else list(a)


def min(*a, **k):
    key = k.get("key")
    if key is not None or "default" in k and not _args(a):
        return _min(*a, **k)
    it = _args(a)
    if not it:
        raise ValueError("min() arg is an empty sequence")
    r = it[0]
    for v in it[1:]:
        r = _pick(v < r, r, v)
    return r


def max(*a, **k):
    key = k.get("key")
    if key is not None or "default" in k and not _args(a):
        return _max(*a, **k)
    it = _args(a)
    if not it:
        raise ValueError("max() arg is an empty sequence")
    r = it[0]
    for v in it[1:]:
        r = _pick(v > r, r, v)
    return r


def pow(a, b, *m):
    if m:
        return _pow(a, b, *m)
    if is_sym(a) or is_sym(b):
        return sym.sym_pow(a, b)
    import numpy as np
    with np.errstate(all="ignore"):
        return _pow(a, b)


def abs(v):
    return _abs(v)


def round(v, nd=None):
    if is_sym(v):
        return sym.sym_round(v, nd)
    return _round(v, nd) if nd is not None else _round(v)


def sorted(it, *a, **k):
    return builtins.sorted(it, *a, **k)


def print(*a, **k):
    # shown only where a scenario listens
    import io
    import sys
    f = k.get("file") or sys.stdout
    if isinstance(f, io.StringIO):
        builtins.print(*[x if isinstance(x, str) else str(x) for x in a], **k)
        return
    pass


NAMES = {"float": float, "int": int, "min": min, "max": max, "pow": pow, "abs": abs, "round": round, "print": print}
