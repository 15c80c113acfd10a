"""numpy, math and struct as the translated code sees them (python3-vt side).

Arrays are object arrays that remember the element type the code asked for, so a
store casts the way numpy casts; scalars follow numpy 1.24 promotion.  Rounding to
float32/float64 is not applied to real-valued elements (see DESIGN.md); float16 is.
"""
import builtins
import math as _math
import struct as _struct
import sys
import types

import numpy as _np
import z3

from engine import sym
from engine.sym import (SymBool, SymBytes, SymFP, SymInt, SymReal, is_sym, limit, mkbool, mkint, rat)

_float = builtins.float
_int = builtins.int
F32MAX = 3.4028235677973366e38


# ----------------------------------------------------------- concrete scalars
class F64(_np.float64):
    pass


class F32(_np.float64):
    dtype = _np.dtype("float32")


class F16(_np.float64):
    dtype = _np.dtype("float16")


class NInt(_int):
    """A numpy integer scalar; arithmetic gives plain Python ints (numpy 1.24: int64)."""
    def __new__(cls, v, name):
        o = _int.__new__(cls, v)
        o.name = name
        return o

    @property
    def dtype(self):
        return _np.dtype(self.name)

    def astype(self, dt):
        return as_dtype(dt)(_int(self))

    def item(self):
        return _int(self)

    def tobytes(self):
        return _np.dtype(self.name).type(_int(self)).tobytes()


FW = {"float16": 16, "float32": 32, "float64": 64}
IW = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64}


def to_half(v):
    """np.float16 of a real: a real that is a half-float, tagged with its code."""
    if v.tag is not None:
        return SymReal(v.e, True, v.tag)
    d = sym.CUR.decide
    x = v.e
    neg = d(x < 0)
    ax = -x if neg else x
    if d(ax >= rat(65520.0)):
        return F16(_float("-inf") if neg else _float("inf"))
    if d(ax < rat(2.0 ** -14)):
        base, sh = 0, 24
    else:
        lo, hi = -14, 16            # 2**lo <= ax < 2**hi
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if d(ax >= rat(2.0 ** mid)):
                lo = mid
            else:
                hi = mid
        base, sh = (lo + 14) * 1024, 10 - lo
    y = z3.simplify(ax * rat(2.0 ** sh))
    m = sym.CUR.fresh("int", "half")
    my = z3.ToReal(m)
    sym.CUR.add(z3.And(y <= my + rat(0.5), y >= my - rat(0.5),
                       z3.Implies(z3.Or(y == my + rat(0.5), y == my - rat(0.5)), m % 2 == 0),
                       m >= (0 if base == 0 and sh == 24 else 1024), m <= (1024 if base == 0 and sh == 24 else 2048)))
    code = m + (base + (32768 if neg else 0))
    val = my * rat(2.0 ** -sh)
    if neg:
        val = -val
    return SymReal(z3.simplify(val), True, ("half", SymInt(z3.simplify(code), "uint16")))


def half_from_code(c):
    """The half-float a 16 bit code stands for (c: SymInt over Int)."""
    e = c.e
    d = sym.CUR.decide
    neg = d(e >= 32768)
    if neg:
        e = z3.simplify(e - 32768)
    if d(e >= 31744):
        if d(e == 31744):
            return F16(_float("-inf") if neg else _float("inf"))
        return F16(_float("nan"))
    lo, hi = 0, 31                  # exponent field
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if d(e >= mid * 1024):
            lo = mid
        else:
            hi = mid
    if lo == 0:
        val = z3.ToReal(e) * rat(2.0 ** -24)
    else:
        val = (z3.ToReal(e) - rat(lo * 1024 - 1024)) * rat(2.0 ** (lo - 25))
    if neg:
        val = -val
    return SymReal(z3.simplify(val), True, ("half", SymInt(c.e, "uint16")))


def cast(v, name):
    if isinstance(v, (str, bytes)):
        t = sym.untoken(v)
        if t is not None:
            v = t
        elif name in FW:
            v = _float(v)
        else:
            v = _int(v)
    if isinstance(v, SymArray):
        if v.ndim == 0 or v.size == 1:
            v = v.reshape(-1)[0]
        else:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
    if isinstance(v, SymBool):
        v = sym.ite(v, 1, 0)
    if name in FW:
        w = FW[name]
        if isinstance(v, SymFP):
            return v.conv(w)
        if isinstance(v, SymInt):
            if v.isbv:
                return SymFP(w, z3.fpToFP(z3.RNE(), v.e, sym.SORTS[w]))
            v = sym.to_real(v)
        if isinstance(v, SymReal):
            if w == 16:
                return to_half(v)
            return SymReal(v.e, True, v.tag)
        if v is None:
            raise TypeError("float() argument must be a string or a number, not 'NoneType'")
        f = _float(v)
        if w == 16:
            with _np.errstate(all="ignore"):
                return F16(_float(_np.float16(f)))
        if w == 32:
            if abs(f) > F32MAX and f == f:
                f = _float("inf") if f > 0 else _float("-inf")
            return F32(f)
        return _np.float64(f)
    if name in IW:
        n = IW[name]
        uns = name[0] == "u"
        if isinstance(v, SymFP):
            limit("integer cast of a bit-exact float")
        if isinstance(v, SymReal):
            v = sym.to_int(v)
        if isinstance(v, SymInt):
            if v.isbv:
                e = v.e
                if n < sym.BVW:
                    x = z3.Extract(n - 1, 0, e)
                    e = z3.simplify(z3.ZeroExt(sym.BVW - n, x) if uns else z3.SignExt(sym.BVW - n, x))
                return SymInt(e, name)
            lo, hi = (0, 2 ** n - 1) if uns else (-2 ** (n - 1), 2 ** (n - 1) - 1)
            e = v.e
            if not sym.CUR.entailed(z3.And(e >= lo, e <= hi)):
                e = e % (2 ** n) if uns else (e + 2 ** (n - 1)) % (2 ** n) - 2 ** (n - 1)
            return SymInt(z3.simplify(e), name)
        if isinstance(v, (_float, _np.floating)):
            if v != v or v in (_float("inf"), _float("-inf")):
                with _np.errstate(all="ignore"):
                    return NInt(_int(_np.array(v).astype(name)), name)
        k = _int(v) % (2 ** n)
        if not uns and k >= 2 ** (n - 1):
            k -= 2 ** n
        return NInt(k, name)
    if name == "bool":
        return v if isinstance(v, (SymBool,)) else bool(v)
    if name == "object":
        return v
    limit("dtype %s" % name)


# ------------------------------------------------------------------- dtypes
class DMeta(type):
    def __call__(cls, v=0, *a, **k):
        if isinstance(v, (list, tuple, _np.ndarray)) and not isinstance(v, (str, bytes)):
            return array(v, cls)
        return cast(v, cls.name)

    def __instancecheck__(cls, x):
        if cls.name in FW:
            if isinstance(x, SymFP):
                return x.w == FW[cls.name] and x.np_
            if isinstance(x, SymReal):
                return x.np_ and cls.name != "float16"
            if cls.name == "float64":
                return isinstance(x, _np.float64)
            return isinstance(x, _np.floating) and x.dtype == _np.dtype(cls.name)
        if isinstance(x, (SymInt, NInt)):
            return x.dtype == _np.dtype(cls.name) and (isinstance(x, NInt) or x.dt is not None)
        return False

    def __eq__(cls, o):
        if isinstance(o, DMeta):
            return cls.name == o.name
        try:
            return as_dtype(o).name == cls.name
        except TypeError:
            return False

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls.name)

    def __repr__(cls):
        return "<class 'numpy.%s'>" % cls.name

    @property
    def itemsize(cls):
        return _np.dtype(cls.name).itemsize

    @property
    def kind(cls):
        return _np.dtype(cls.name).kind

    @property
    def type(cls):
        return cls


def _mk(name):
    return DMeta(name, (), {"name": name})


DT = {n: _mk(n) for n in list(FW) + list(IW) + ["bool", "object"]}


def as_dtype(d):
    if isinstance(d, DMeta):
        return d
    if d is None:
        return DT["float64"]
    from engine import shadow
    if d is shadow.float or d is _float:
        return DT["float64"]
    if d is shadow.int or d is _int:
        return DT["int64"]
    if d is bool:
        return DT["bool"]
    if d is object:
        return DT["object"]
    n = _np.dtype(d).name
    if n in DT:
        return DT[n]
    raise TypeError("dtype %r" % (d,))


def name_of(v):
    """numpy's name for the dtype an element would give an array."""
    if isinstance(v, SymReal):
        return "float64"
    if isinstance(v, SymFP):
        return "float%d" % v.w
    if isinstance(v, SymInt):
        return v.dt or "int64"
    if isinstance(v, (bool, SymBool, _np.bool_)):
        return "bool"
    if isinstance(v, NInt):
        return v.name
    if isinstance(v, (_int, _np.integer)):
        return "int64"
    if isinstance(v, (F16, F32)):
        return v.dtype.name
    if isinstance(v, (_float, _np.floating)):
        return "float64"
    return "object"


def promote(names):
    names = [n for n in names if n]
    if not names:
        return "float64"
    if "object" in names:
        return "object"
    return _np.result_type(*[_np.dtype(n) for n in names]).name


# ------------------------------------------------------------------- arrays
class SymArray(_np.ndarray):
    __array_priority__ = 500

    def __new__(cls, items, name):
        a = _np.empty(len(items), dtype=object)
        for i, v in enumerate(items):
            a[i] = v
        o = a.view(cls)
        o._name = name
        return o

    def __array_finalize__(self, o):
        self._name = getattr(o, "_name", "float64")

    @property
    def dtype(self):
        if self._name == "object":
            return _np.dtype(object)
        return DTProxy(self._name)

    @property
    def itemsize(self):
        return _np.dtype(self._name).itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def _wrap(self, v):
        if isinstance(v, (SymReal, SymFP, SymInt, SymArray, F16, F32, NInt, SymBool)):
            return v
        if isinstance(v, _np.ndarray):
            return v
        if self._name in FW and isinstance(v, (_float, _np.floating)):
            return cast(v, self._name)
        return v

    def __getitem__(self, k):
        if isinstance(k, SymInt):
            k = k.__index__()
        elif isinstance(k, slice):
            k = slice(*[x.__index__() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)])
        elif isinstance(k, tuple):
            k = tuple(x.__index__() if isinstance(x, SymInt) else x for x in k)
        elif isinstance(k, (_float, SymReal)):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        elif isinstance(k, (SymArray, list)):
            k = [bool(x) if isinstance(x, (SymBool, bool)) else _int(x) for x in k]
        return self._wrap(_np.ndarray.__getitem__(self, k))

    def __setitem__(self, k, v):
        if isinstance(k, SymInt):
            k = k.__index__()
        elif isinstance(k, slice):
            k = slice(*[x.__index__() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)])
        elif isinstance(k, (SymArray, list)):
            k = [bool(x) if isinstance(x, (SymBool, bool)) else _int(x) for x in k]
        cur = _np.ndarray.__getitem__(self, k)
        if isinstance(cur, _np.ndarray):
            if isinstance(v, (list, tuple, _np.ndarray)) and not (isinstance(v, _np.ndarray) and v.ndim == 0):
                if isinstance(v, SymArray) and v._name == self._name:
                    new = v
                else:
                    new = array(v, DT[self._name])
                base = _np.empty(new.shape, dtype=object)
                base[...] = _np.asarray(new.view(_np.ndarray))
                _np.ndarray.__setitem__(self, k, base)
            else:
                x = cast(v, self._name)
                flat = _np.empty((), dtype=object)
                flat[()] = x
                _np.ndarray.__setitem__(self, k, flat)
        else:
            _np.ndarray.__setitem__(self, k, cast(v, self._name))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _empty_list(self, o):
        return isinstance(o, (list, tuple)) and len(o) == 0

    def __eq__(self, o):
        if self._empty_list(o):
            return False
        if o is None or isinstance(o, str):
            return _np.zeros(self.shape, dtype=bool)
        return _np.ndarray.__eq__(self, o)

    def __ne__(self, o):
        if self._empty_list(o):
            return self.shape[0] > 1
        if o is None or isinstance(o, str):
            return _np.ones(self.shape, dtype=bool)
        return _np.ndarray.__ne__(self, o)

    __hash__ = None

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size > 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.reshape(-1)[0])

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        nm = ufunc.__name__
        names, strong = [], []
        ins = []
        for x in inputs:
            if isinstance(x, SymArray):
                names.append(x._name)
                ins.append(x.view(_np.ndarray))
            else:
                if isinstance(x, _np.ndarray) and x.ndim:
                    names.append(x.dtype.name)
                    ins.append(x.astype(object))
                elif isinstance(x, (list, tuple)):
                    y = array(x)
                    names.append(y._name)
                    ins.append(y.view(_np.ndarray))
                else:
                    if isinstance(x, (_float, SymReal, _np.floating)) and all(n in IW for n in names):
                        names.append("float64")
                    b = _np.empty((), dtype=object)
                    b[()] = x
                    ins.append(b)
        out = kw.pop("out", None)
        fn = ELEM.get(nm)
        if method == "reduce":
            axis = kw.get("axis", 0)
            r = getattr(_np.frompyfunc(fn or getattr(_np, nm), 2, 1), "reduce")(ins[0], axis=axis) if fn else getattr(ufunc, method)(ins[0], axis=axis)
        elif method == "__call__":
            if fn is not None:
                r = _np.frompyfunc(fn, len(ins), 1)(*ins)
            elif nm in PYOPS:
                r = _np.frompyfunc(PYOPS[nm], len(ins), 1)(*ins)
            else:
                limit("numpy ufunc %s on symbolic arrays" % nm)
        else:
            limit("numpy ufunc %s.%s on symbolic arrays" % (nm, method))
        bo = nm in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan", "isinf",
                    "isfinite", "logical_and", "logical_or", "logical_not")
        name = "bool" if bo else promote(names)
        if nm in ("true_divide", "divide", "log10", "log2", "log", "sqrt", "exp", "exp2") and name in IW:
            name = "float64"
        if isinstance(r, _np.ndarray):
            r = r.view(SymArray)
            r._name = name
            if out is not None:
                out[0][...] = r
                return out[0]
        return r

    def astype(self, dt, *a, **k):
        return array(self, dt)

    def copy(self, *a, **k):
        return array(self, DT[self._name])

    def tolist(self):
        def py(v):
            if isinstance(v, (SymReal, SymInt, SymFP)):
                return v.item()
            if isinstance(v, (_float, _np.floating)):
                return _float(v)
            if isinstance(v, NInt):
                return _int(v)
            if isinstance(v, SymArray):
                return v.tolist()
            return v
        return [py(v) for v in self]

    def view(self, *a, **k):
        t = a[0] if a else k.get("dtype") or k.get("type")
        if t is None or (isinstance(t, type) and not isinstance(t, DMeta) and issubclass(t, _np.ndarray)):
            return _np.ndarray.view(self, *a, **k)
        return frombuffer(getbuffer(self), dtype=t)

    def tobytes(self, *a):
        b = getbuffer(self)
        return b.tobytes()
    tostring = tobytes

    def sum(self, *a, **k):
        r = 0.0
        if a or k:
            limit("sum with axis")
        for v in self.reshape(-1):
            r = r + v
        return r

    def max(self, *a, **k):
        from engine import shadow
        return shadow.max(list(self.reshape(-1)))

    def min(self, *a, **k):
        from engine import shadow
        return shadow.min(list(self.reshape(-1)))

    def any(self, *a, **k):
        return any(bool(x) for x in self.reshape(-1))

    def all(self, *a, **k):
        return all(bool(x) for x in self.reshape(-1))

    def clip(self, lo=None, hi=None, *a, **k):
        return clip(self, lo, hi)

    def dot(self, o):
        return dot(self, o)

    def __repr__(self):
        return "array([%s])" % ", ".join(str(x) for x in self)

    def __str__(self):
        return "[%s]" % " ".join(str(x) for x in self)

    def __reduce__(self):
        return _rebuilt, (list(self.reshape(-1)), self._name, self.shape)

    def __deepcopy__(self, memo):
        return _rebuilt(list(self.reshape(-1)), self._name, self.shape)


def _rebuilt(items, name, shape):
    return SymArray(items, name).reshape(shape)


class DTProxy:
    """array.dtype of a SymArray."""
    def __init__(self, name):
        self.name = name
        self.kind = _np.dtype(name).kind
        self.itemsize = _np.dtype(name).itemsize
        self.type = DT[name]
        self.char = _np.dtype(name).char

    def __eq__(self, o):
        try:
            return as_dtype(o).name == self.name if not isinstance(o, DTProxy) else o.name == self.name
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name
    __repr__ = __str__


_as_dtype = as_dtype


def as_dtype(d):            # noqa: F811
    if isinstance(d, DTProxy):
        return DT[d.name]
    return _as_dtype(d)


def array(v, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(v, (types.GeneratorType, range, map, zip)):
        v = list(v)
    if not isinstance(v, (list, tuple, _np.ndarray)):
        if hasattr(v, "__len__") and hasattr(v, "__getitem__") and not isinstance(v, (str, bytes, SymBytes, dict)):
            v = [v[i] for i in range(len(v))]
        else:
            name = as_dtype(dtype).name if dtype is not None else name_of(v)
            r = SymArray([cast(v, name)], name)
            return r if ndmin else r.reshape(())
    if isinstance(v, SymArray) and dtype is None:
        dtype = DT[v._name]
    if isinstance(v, _np.ndarray) and not isinstance(v, SymArray) and dtype is None and v.dtype != object:
        dtype = v.dtype
    shape, flat = _flatten(v)
    if dtype is None:
        if isinstance(v, _np.ndarray) and v.dtype != object:
            name = v.dtype.name
        else:
            name = promote([name_of(x) for x in flat]) if flat else "float64"
    else:
        name = as_dtype(dtype).name
    r = SymArray([cast(x, name) for x in flat], name)
    return r.reshape(shape) if len(shape) != 1 else r


def _flatten(v):
    if isinstance(v, (list, tuple, _np.ndarray)):
        if isinstance(v, _np.ndarray) and v.ndim == 0:
            return (), [v[()]]
        parts = [_flatten(x) for x in v]
        if not parts:
            return (0,), []
        shapes = {p[0] for p in parts}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(parts),) + parts[0][0], [x for p in parts for x in p[1]]
    return (), [v]


def asarray(v, dtype=None, **k):
    if isinstance(v, SymArray) and (dtype is None or as_dtype(dtype).name == v._name):
        return v
    return array(v, dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() for x in s)
    if isinstance(s, (_float, SymReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (s.__index__(),)


def full(shape, v, dtype=None):
    s = _shape(shape)
    n = 1
    for x in s:
        n *= x
    name = as_dtype(dtype).name if dtype is not None else name_of(v)
    c = cast(v, name)
    r = SymArray([c] * n, name)
    return r.reshape(s) if len(s) != 1 else r


def zeros(shape, dtype=None, **k):
    return full(shape, 0, dtype or DT["float64"])


def ones(shape, dtype=None, **k):
    return full(shape, 1, dtype or DT["float64"])


def empty(shape, dtype=None, **k):
    return full(shape, 0, dtype or DT["float64"])


def zeros_like(a, dtype=None):
    a = asarray(a)
    return full(a.shape, 0, dtype or DT[a._name])


empty_like = zeros_like


def ones_like(a, dtype=None):
    a = asarray(a)
    return full(a.shape, 1, dtype or DT[a._name])


def arange(*a, **k):
    dt = k.pop("dtype", None)
    r = _np.arange(*[x.__index__() if isinstance(x, SymInt) else x for x in a])
    return array(r.tolist(), dt)


def linspace(a, b, n=50, dtype=None):
    return array([a + (b - a) * (_float(i) / (n - 1)) for i in range(n)], dtype)


# -------------------------------------------------------------- elementwise
def isnan1(v):
    if isinstance(v, SymFP):
        return v.isnan()
    if isinstance(v, (SymReal, SymInt)):
        return False
    if isinstance(v, (str, type(None))):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return _float(v) != _float(v)


def isinf1(v):
    if isinstance(v, SymFP):
        return v.isinf()
    if isinstance(v, (SymReal, SymInt)):
        return False
    if isinstance(v, (str, type(None))):
        raise TypeError("ufunc 'isinf' not supported for the input types")
    return _float(v) in (_float("inf"), _float("-inf"))


def isfinite1(v):
    a, b = isnan1(v), isinf1(v)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return ~(a | b) if isinstance(a, SymBool) else ~b
    return not (a or b)


def npmin2(a, b):
    if isnan1(a) is True:
        return a
    if isnan1(b) is True:
        return b
    return sym.ite(b < a, b, a) if isinstance(b < a, SymBool) else (b if b < a else a)


def npmax2(a, b):
    if isnan1(a) is True:
        return a
    if isnan1(b) is True:
        return b
    return sym.ite(b > a, b, a) if isinstance(b > a, SymBool) else (b if b > a else a)


def npnum(v):
    """Treat a scalar the way a numpy ufunc does (float64)."""
    if isinstance(v, SymReal):
        return SymReal(v.e, True, v.tag)
    if isinstance(v, SymInt):
        r = sym.to_real(v)
        return SymReal(r.e, True) if isinstance(r, SymReal) else _np.float64(r)
    if isinstance(v, SymFP):
        return v
    return _np.float64(v)


def npfloor(v):
    v = npnum(v)
    return v.floor() if is_sym(v) else _np.floor(v)


def npceil(v):
    v = npnum(v)
    return v.ceil() if is_sym(v) else _np.ceil(v)


def nptrunc(v):
    v = npnum(v)
    if is_sym(v):
        return npnum(sym.to_int(v)) if isinstance(v, SymReal) else limit("trunc")
    return _np.trunc(v)


def nprint(v):
    v = npnum(v)
    return SymReal(z3.ToReal(sym.half_even(v.e)), True) if isinstance(v, SymReal) else _np.rint(v)


def npsign(v):
    v = npnum(v)
    if isinstance(v, SymReal):
        return sym.mkreal(z3.If(v.e > 0, rat(1), z3.If(v.e < 0, rat(-1), rat(0))), True)
    return _np.sign(v)


def npabs(v):
    return abs(v)


def npdiv(a, b):
    with _np.errstate(all="ignore"):
        return npnum(a) / npnum(b)


def npfloordiv(a, b):
    if isinstance(a, (_int, SymInt)) and isinstance(b, (_int, SymInt)):
        return a // b
    return npfloor(npdiv(a, b))


def land(a, b):
    a = a if isinstance(a, (bool, SymBool)) else a != 0
    b = b if isinstance(b, (bool, SymBool)) else b != 0
    if isinstance(a, SymBool):
        return a & b
    return b if a else False


def lor(a, b):
    a = a if isinstance(a, (bool, SymBool)) else a != 0
    b = b if isinstance(b, (bool, SymBool)) else b != 0
    if isinstance(a, SymBool):
        return a | b
    return True if a else b


def lnot(a):
    a = a if isinstance(a, (bool, SymBool)) else a != 0
    return ~a if isinstance(a, SymBool) else not a


import operator as _op
PYOPS = {"add": _op.add, "subtract": _op.sub, "multiply": _op.mul, "negative": _op.neg, "less": _op.lt,
         "less_equal": _op.le, "greater": _op.gt, "greater_equal": _op.ge, "equal": _op.eq, "not_equal": _op.ne,
         "remainder": _op.mod, "mod": _op.mod, "bitwise_and": _op.and_, "bitwise_or": _op.or_,
         "left_shift": _op.lshift, "right_shift": _op.rshift, "positive": lambda a: a}
ELEM = {"isnan": isnan1, "isinf": isinf1, "isfinite": isfinite1, "minimum": npmin2, "maximum": npmax2,
        "fmin": lambda a, b: b if isnan1(a) is True else a if isnan1(b) is True else npmin2(a, b),
        "fmax": lambda a, b: b if isnan1(a) is True else a if isnan1(b) is True else npmax2(a, b),
        "floor": npfloor, "ceil": npceil, "trunc": nptrunc, "rint": nprint, "sign": npsign, "absolute": npabs,
        "fabs": npabs, "abs": npabs, "true_divide": npdiv, "divide": npdiv, "floor_divide": npfloordiv,
        "power": lambda a, b: sym.sym_pow(npnum(a), npnum(b)) if not (isinstance(a, _int) and isinstance(b, _int)) else a ** b,
        "float_power": lambda a, b: sym.sym_pow(npnum(a), npnum(b)),
        "sqrt": lambda a: sym.sym_pow(npnum(a), 0.5), "square": lambda a: a * a,
        "log10": lambda a: sym.sym_log(npnum(a), 10), "log2": lambda a: sym.sym_log(npnum(a), 2),
        "log": lambda a: sym.sym_log(npnum(a)), "exp": lambda a: sym.sym_exp(npnum(a)),
        "exp2": lambda a: sym.sym_pow(_np.float64(2.0), npnum(a)),
        "logical_and": land, "logical_or": lor, "logical_not": lnot,
        "conjugate": lambda a: a}


def _elementwise(nm):
    fn = ELEM.get(nm) or PYOPS.get(nm)

    def f(*args, **kw):
        if any(isinstance(a, (list, tuple, _np.ndarray)) for a in args):
            args = [asarray(a) if isinstance(a, (list, tuple, _np.ndarray)) else a for a in args]
            return getattr(_np, nm if hasattr(_np, nm) else nm)(*args, **kw)
        return fn(*args)
    f.__name__ = nm
    return f


def clip(v, lo, hi, *a, **k):
    def one(x, lo=lo, hi=hi):
        if lo is not None:
            x = npmax2(x, lo)
        if hi is not None:
            x = npmin2(x, hi)
        return x
    if isinstance(v, (list, tuple, _np.ndarray)):
        v = asarray(v)
        if isinstance(lo, (list, _np.ndarray)) or isinstance(hi, (list, _np.ndarray)):
            limit("clip with array bounds")
        r = SymArray([one(x) for x in v.reshape(-1)], v._name)
        return r.reshape(v.shape)
    return one(v)


def where(c, a=None, b=None):
    if a is None:
        limit("np.where with one argument")
    if isinstance(c, (list, tuple, _np.ndarray)):
        c = asarray(c)
        pick = lambda x, i: x.reshape(-1)[i] if isinstance(x, _np.ndarray) and x.ndim else x
        a2 = asarray(a) if isinstance(a, (list, tuple)) else a
        b2 = asarray(b) if isinstance(b, (list, tuple)) else b
        out = []
        for i, x in enumerate(c.reshape(-1)):
            x = x if isinstance(x, (bool, SymBool)) else bool(x)
            out.append(sym.ite(x, pick(a2, i), pick(b2, i)))
        names = [y._name if isinstance(y, SymArray) else name_of(y) for y in (a2, b2)]
        r = SymArray(out, promote(names))
        return r.reshape(c.shape)
    return sym.ite(c if isinstance(c, (bool, SymBool)) else c != 0, a, b)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError("shapes not aligned")
        r = 0.0
        for x, y in zip(a, b):
            r = r + x * y
        return r
    if a.ndim == 2 and b.ndim == 1:
        return array([dot(a[i], b) for i in range(a.shape[0])])
    if a.ndim == 2 and b.ndim == 2:
        return array([[dot(a[i], b[:, j]) for j in range(b.shape[1])] for i in range(a.shape[0])])
    limit("np.dot shape")


def npsum(a, *k, **kw):
    return asarray(a).sum(*k, **kw)


def concatenate(parts, axis=0):
    out, names = [], []
    for p in parts:
        p = asarray(p)
        names.append(p._name)
        out.extend(list(p))
    return array(out, DT[promote(names)])


def interp(x, xp, fp, *a):
    def one(v):
        if isnan1(v) is True:
            return v
        n = len(xp)
        if v <= xp[0]:
            return fp[0]
        if v >= xp[n - 1]:
            return fp[n - 1]
        for i in range(n - 1):
            if v < xp[i + 1]:
                return fp[i] + (v - xp[i]) * npdiv(fp[i + 1] - fp[i], xp[i + 1] - xp[i])
        return fp[n - 1]
    if isinstance(x, (list, tuple, _np.ndarray)):
        return array([one(v) for v in x], DT["float64"])
    return one(npnum(x))


def searchsorted(a, v, side="left"):
    n = len(a)
    for i in range(n):
        if (a[i] >= v) if side == "left" else (a[i] > v):
            return i
    return n


# ------------------------------------------------------------------ buffers
class Buf:
    def __init__(self, items, name):
        self.items = items
        self.name = name

    def __len__(self):
        return len(self.items)

    def bytes_(self):
        out = []
        for v in self.items:
            if isinstance(v, SymFP):
                out += sym.bytes_of_bits(v.bits)
            elif isinstance(v, SymInt):
                if not v.isbv:
                    limit("bit pattern of an unbounded symbolic integer")
                n = IW[self.name]
                out += sym.bytes_of_bits(z3.Extract(n - 1, 0, v.e))
            elif isinstance(v, SymReal):
                limit("bit pattern of a real")
            else:
                with _np.errstate(all="ignore"):
                    raw = _np.dtype(self.name).type(v).tobytes() if self.name in FW else \
                        (_int(v) % 2 ** IW[self.name]).to_bytes(IW[self.name] // 8, "little")
                out += [z3.BitVecVal(b, 8) for b in raw]
        return out

    def concrete(self):
        return not any(is_sym(v) for v in self.items)

    def tobytes(self):
        bs = self.bytes_()
        if self.concrete():
            return bytes(b.as_long() for b in bs)
        return SymBytes(bs)


def getbuffer(v, *a):
    if isinstance(v, Buf):
        return v
    if isinstance(v, SymArray):
        return Buf(list(v.reshape(-1)), v._name)
    if isinstance(v, SymReal):
        return Buf([v], "float16" if v.tag is not None else "float64")
    if isinstance(v, SymFP):
        return Buf([v], "float%d" % v.w)
    if isinstance(v, SymInt):
        return Buf([v], v.dt or "int64")
    if isinstance(v, (F16, F32, _np.float64, NInt)):
        return Buf([v], v.dtype.name)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return Buf(list(bytes(v)), "uint8")
    if isinstance(v, SymBytes):
        return Buf([SymInt(z3.ZeroExt(sym.BVW - 8, b), "uint8") for b in v.bs], "uint8")
    raise TypeError("memoryview: a bytes-like object is required, not %r" % type(v).__name__)


def frombuffer(b, dtype=None, count=-1, offset=0):
    b = getbuffer(b)
    name = as_dtype(dtype).name
    if offset or count != -1:
        limit("frombuffer with offset")
    if name == b.name:
        return SymArray(list(b.items), name)
    if b.name == "float16" and name == "uint16" and all(isinstance(v, SymReal) or not is_sym(v) for v in b.items) \
            and not b.concrete():
        out = []
        for v in b.items:
            if isinstance(v, SymReal):
                out.append(SymInt(v.tag[1].e, "uint16"))
            else:
                out.append(NInt(_int(_np.float16(v).view(_np.uint16)), "uint16"))
        return SymArray(out, name)
    if b.name == "uint16" and name == "float16" and any(isinstance(v, SymInt) and not v.isbv for v in b.items):
        out = []
        for v in b.items:
            if isinstance(v, SymInt):
                if v.isbv:
                    limit("mixed integer encodings")
                out.append(half_from_code(v))
            else:
                out.append(F16(_float(_np.uint16(v).view(_np.float16))))
        return SymArray(out, name)
    bs = b.bytes_()
    w = (FW.get(name) or IW[name]) // 8
    if len(bs) % w:
        raise ValueError("buffer size must be a multiple of element size")
    out = []
    conc = b.concrete()
    for i in range(0, len(bs), w):
        if conc:
            raw = bytes(x.as_long() for x in bs[i:i + w])
            v = _np.frombuffer(raw, dtype=name)[0]
            out.append({"float16": F16, "float32": F32}.get(name, _np.float64)(_float(v)) if name in FW else NInt(_int(v), name))
        else:
            bits = sym.bits_of_bytes(bs[i:i + w])
            if name in FW:
                out.append(SymFP(FW[name], None, bits))
            else:
                out.append(SymInt(z3.simplify(z3.ZeroExt(sym.BVW - 8 * w, bits)), name))
    return SymArray(out, name)


def fromstring(s, dtype=None, sep=""):
    if sep:
        parts = s.split() if sep.isspace() else s.split(sep)
        return array([cast(p, as_dtype(dtype).name) for p in parts], dtype)
    return frombuffer(s, dtype)


def npround(v, decimals=0, **k):
    if isinstance(v, (list, tuple, _np.ndarray)):
        v = asarray(v)
        return SymArray([npround(x, decimals) for x in v], v._name)
    if decimals == 0:
        return nprint(v)
    return sym.CUR.quantize(npnum(v), decimals) if is_sym(v) else _np.round(v, decimals)


class _Numpy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        for n, d in DT.items():
            if n not in ("bool", "object"):
                setattr(self, n, d)
        self.half, self.single, self.double = DT["float16"], DT["float32"], DT["float64"]
        self.float_, self.int_, self.uint, self.bool_ = DT["float64"], DT["int64"], DT["uint64"], DT["bool"]
        self.ndarray = SymArray
        self.floating, self.integer, self.generic = _NpKind("floating"), _NpKind("integer"), _NpKind("generic")
        for f in (array, asarray, zeros, ones, full, empty, zeros_like, ones_like, empty_like, arange, linspace, clip,
                  where, dot, concatenate, interp, searchsorted, getbuffer, frombuffer, fromstring):
            setattr(self, f.__name__, f)
        self.asanyarray = self.ascontiguousarray = asarray
        self.copy = lambda a: array(a)
        self.sum = npsum
        self.matmul = dot
        self.empty_like = zeros_like
        self.round = self.around = self.round_ = npround
        self.amax = self.max = lambda a, *k: asarray(a).max()
        self.amin = self.min = lambda a, *k: asarray(a).min()
        self.dtype = lambda d: DTProxy(as_dtype(d).name)
        for nm in list(ELEM) + list(PYOPS):
            setattr(self, nm, _elementwise(nm))
        self.__version__ = "1.24.4"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_np, name)


class _NpKindMeta(type):
    pass


def _NpKind(which):
    class M(type):
        def __instancecheck__(cls, x):
            fl = isinstance(x, _np.floating) or (isinstance(x, (SymReal, SymFP)) and x.np_)
            it = isinstance(x, (_np.integer, NInt)) or (isinstance(x, SymInt) and x.dt is not None)
            return {"floating": fl, "integer": it, "generic": fl or it}[which]
    return M(which, (), {})


numpy = _Numpy()


# --------------------------------------------------------------------- math
def _m1(name, f):
    real = getattr(_math, name)

    def g(v, *a):
        if is_sym(v) or any(is_sym(x) for x in a):
            return f(v, *a)
        return real(v, *a)
    g.__name__ = name
    return g


def _modf(v):
    if isinstance(v, SymFP):
        limit("modf")
    v = sym.to_real(v)
    if sym.CUR.decide(v.e >= 0):
        t = z3.ToReal(z3.ToInt(v.e))
    else:
        t = -z3.ToReal(z3.ToInt(-v.e))
    return sym.mkreal(v.e - t), sym.mkreal(t)


def _mlog(v, base=_math.e):
    if is_sym(base):
        limit("log with symbolic base")
    r = sym.sym_log(v, base, False)
    return r


class _Math(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "math")
        py = lambda r: SymReal(r.e, False, r.tag) if isinstance(r, SymReal) else r
        self.floor = _m1("floor", sym.sym_floor)
        self.ceil = _m1("ceil", sym.sym_ceil)
        self.trunc = _m1("trunc", sym.to_int)
        self.modf = _m1("modf", _modf)
        self.log10 = _m1("log10", lambda v: py(sym.sym_log(v, 10, False)))
        self.log2 = _m1("log2", lambda v: py(sym.sym_log(v, 2, False)))
        self.log = _m1("log", lambda v, *a: py(_mlog(v, *a)))
        self.pow = _m1("pow", lambda a, b: py(sym.sym_pow(sym.to_real(a), b)))
        self.sqrt = _m1("sqrt", lambda a: py(sym.sym_pow(sym.to_real(a), 0.5)))
        self.exp = _m1("exp", lambda a: py(sym.sym_exp(a)))
        self.fabs = _m1("fabs", lambda a: abs(sym.to_real(a)))
        self.isnan = _m1("isnan", isnan1)
        self.isinf = _m1("isinf", isinf1)
        self.isfinite = _m1("isfinite", isfinite1)
        self.fmod = _m1("fmod", lambda a, b: a - b * sym.to_real(sym.to_int(a / b)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_math, name)


math = _Math()


# ------------------------------------------------------------------- struct
def s_pack(fmt, *vals):
    if not any(is_sym(v) for v in vals):
        return _struct.pack(fmt, *vals)
    f = fmt.replace(" ", "")
    order = "<"
    if f[0] in "<>=!@":
        order, f = f[0], f[1:]
    little = order in "<=@"
    if len(f) != len(vals):
        limit("struct format %s" % fmt)
    out = []
    for c, v in zip(f, vals):
        w = {"B": 8, "H": 16, "I": 32, "L": 32, "Q": 64, "e": 16, "f": 32, "d": 64}.get(c)
        if w is None:
            limit("struct format %s" % fmt)
        if c in "efd":
            if isinstance(v, SymFP):
                bits = v.conv(w).bits
            elif is_sym(v):
                limit("bit pattern of a real")
            else:
                raw = _struct.pack("<" + c, v)
                bits = z3.BitVecVal(_int.from_bytes(raw, "little"), w)
        else:
            if isinstance(v, SymInt):
                if not v.isbv:
                    limit("bit pattern of an unbounded symbolic integer")
                bits = z3.Extract(w - 1, 0, v.e)
            elif is_sym(v):
                raise _struct.error("required argument is not an integer")
            else:
                bits = z3.BitVecVal(_int(v), w)
        out += sym.bytes_of_bits(bits, little)
    return SymBytes(out)


def s_unpack(fmt, b):
    if not isinstance(b, SymBytes):
        return _struct.unpack(fmt, b)
    f = fmt.replace(" ", "")
    order = "<"
    if f[0] in "<>=!@":
        order, f = f[0], f[1:]
    little = order in "<=@"
    pos, out = 0, []
    for c in f:
        w = {"B": 8, "H": 16, "I": 32, "L": 32, "Q": 64, "e": 16, "f": 32, "d": 64}.get(c)
        if w is None:
            limit("struct format %s" % fmt)
        n = w // 8
        bs = b.bs[pos:pos + n]
        if len(bs) != n:
            raise _struct.error("unpack requires a buffer of %d bytes" % _struct.calcsize(fmt))
        pos += n
        bits = sym.bits_of_bytes(bs, little)
        if c in "efd":
            out.append(SymFP(w, None, bits).conv(64, False) if w != 64 else SymFP(64, None, bits, False))
        else:
            out.append(mkint(z3.ZeroExt(sym.BVW - w, bits)))
    if pos != len(b):
        raise _struct.error("unpack requires a buffer of %d bytes" % pos)
    return tuple(out)


class _Struct(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "struct")
        self.pack, self.unpack = s_pack, s_unpack

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_struct, name)


struct = _Struct()
