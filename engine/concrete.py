"""Concrete interpretation of a scenario: the same scenario function that the explorer
runs symbolically, run with the values of one model.  Used on the real code (PyPy, the
project's own runtime) and, as a pre-check, inside the engine."""
import builtins
import importlib
import math
import os
import shutil
import struct
import sys
import tempfile


SOFT = 2e-7      # deviations above this, below the tolerance: reported to be compared with what the engine predicts


class Skip(BaseException):
    """An assumption of the scenario does not hold for these inputs."""


_TMPN = [0]


class Failure(object):
    def __init__(self, label, msg):
        self.label = label
        self.msg = msg


def dec(v):
    """JSON value -> float: specials travel as text."""
    if isinstance(v, str):
        return builtins.float(v)
    return v


def single(v):
    """The number nearest to v of single precision."""
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return v


class ConcreteS(object):
    symbolic = False

    def __init__(self, inputs, mods, params=None):
        self.inputs = inputs
        self.mods = mods
        self.failures = []
        self.obs = []
        self.soft = []
        self.closes = 0
        self.dirs = []
        self.params = params or {}

    # ---- modules
    @property
    def clf(self):
        return self.mods.get("aces.clf")

    @property
    def lf(self):
        return self.mods.get("aces.lutFormats")

    def mod(self, name):
        return self.mods.get(name)

    @property
    def np(self):
        return self.mods.numpy()

    # ---- inputs
    def real(self, name, lo=-2.0, hi=2.0):
        v = dec(self.inputs.get(name, (lo + hi) / 2.0))
        return builtins.float(v)

    def reals(self, name, n, lo=-2.0, hi=2.0):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        return builtins.int(self.inputs.get(name, lo))

    def choice(self, name, options):
        return options[builtins.int(self.inputs.get(name, 0))]

    def anyfloat(self, name, lo=-2.0, hi=2.0, specials=("nan", "inf", "-inf")):
        k = self.choice(name + ".kind", ("finite",) + tuple(specials))
        if k == "finite":
            return self.real(name, lo, hi)
        return builtins.float(k)

    def bits(self, name, width):
        return builtins.int(self.inputs.get(name, 0))

    def fbits(self, name, w):
        """A float of width w given by its bit pattern."""
        b = builtins.int(self.inputs.get(name, 0))
        np = self.mods.numpy()
        if w == 16:
            return np.frombuffer(struct.pack("<H", b), dtype=np.float16)[0]
        if w == 32:
            return np.frombuffer(struct.pack("<I", b), dtype=np.float32)[0]
        return np.frombuffer(struct.pack("<Q", b), dtype=np.float64)[0]

    def f32value(self, name):
        """A single given by its bits, as a Python float (exact)."""
        b = builtins.int(self.inputs.get(name, 0))
        return struct.unpack("<f", struct.pack("<I", b))[0]

    def table(self, name, n, lo=0.0, hi=1.0, default=None):
        t = self.inputs.get(name) or {}
        d = (lo + hi) / 2.0 if default is None else default
        r = [d] * n
        for k, v in t.items():
            if 0 <= builtins.int(k) < n:
                r[builtins.int(k)] = builtins.float(v)
        return r

    # ---- environment
    def narrow(self, name, n, keep):
        pass

    def tmp(self):
        _TMPN[0] += 1
        d = tempfile.mkdtemp(prefix="clfv-%d-%d-" % (os.getpid(), _TMPN[0]))
        self.dirs.append(d)
        return d

    def codenum(self, text, base=10):
        return builtins.int(text, base)

    def num(self, text):
        try:
            return float(text)
        except ValueError:
            return None

    def cleanup(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []

    # ---- mathematics of the oracles
    def assume(self, c):
        if not c:
            raise Skip()

    def ite(self, c, a, b):
        return a if c else b

    def min(self, *a):
        return builtins.min(*a)

    def max(self, *a):
        return builtins.max(*a)

    def clamp(self, v, lo, hi):
        return lo if v < lo else (hi if v > hi else v)

    def abs(self, v):
        return builtins.abs(v)

    def floor(self, v):
        return builtins.int(math.floor(v))

    def pow(self, a, b):
        a = builtins.float(a)
        b = builtins.float(b)
        try:
            return math.pow(a, b)
        except (ValueError, ZeroDivisionError):
            return builtins.float("nan")
        except OverflowError:
            return builtins.float("inf")

    def log10(self, a):
        return math.log10(a) if a > 0 else (builtins.float("-inf") if a == 0 else builtins.float("nan"))

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def points(self, *v):
        pass

    def lookup(self, seq, i):
        """seq[i] without forking when the index is symbolic."""
        return seq[i]

    # ---- assertions
    def fail(self, label, msg):
        self.failures.append(Failure(label, msg))

    def observe(self, label, v):
        try:
            self.obs.append((label, builtins.float(v)))
        except (TypeError, ValueError):
            self.obs.append((label, str(v)))

    def close(self, a, b, label, scale=1.0, tol=1e-9, ctol=2e-5):
        try:
            a = builtins.float(a)
            b = builtins.float(b)
            scale = builtins.float(scale)
        except (TypeError, ValueError) as e:
            self.fail(label, "not a number: %r %r" % (a, b))
            return
        self.observe(label, a)
        if math.isnan(a) or math.isnan(b):
            if not (math.isnan(a) and math.isnan(b)):
                self.fail(label, "%r instead of %r" % (a, b))
            return
        if math.isinf(a) or math.isinf(b):
            if a != b:
                self.fail(label, "%r instead of %r" % (a, b))
            return
        self.closes += 1
        scale = builtins.max(1e-30, builtins.abs(scale))
        if builtins.abs(a - b) > ctol * scale:
            self.fail(label, "%r instead of %r (tolerance %g)" % (a, b, ctol * scale))
        elif builtins.abs(a - b) > SOFT * scale and len(self.soft) < 400:
            self.soft.append([self.closes, label, a - b, "%r instead of %r" % (a, b)])

    def closev(self, a, b, label, **k):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.fail(label, "%d values instead of %d" % (len(a), len(b)))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.close(x, y, "%s[%d]" % (label, i), **k)

    def same(self, a, b, label):
        """Numerically identical (or both NaN)."""
        try:
            a = builtins.float(a)
            b = builtins.float(b)
        except (TypeError, ValueError):
            self.fail(label, "not a number: %r %r" % (a, b))
            return
        self.observe(label, a)
        if not (a == b or (a != a and b != b) or single(a) == b or a == single(b)):
            # (a caller's number becomes single precision in a pixel array)
            self.fail(label, "%r instead of %r" % (a, b))

    def samev(self, a, b, label):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.fail(label, "%d values instead of %d" % (len(a), len(b)))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.same(x, y, "%s[%d]" % (label, i))

    def eq(self, a, b, label):
        ok = a == b
        try:
            ok = bool(ok)
        except ValueError:
            ok = False
        self.observe(label, a)
        if not ok:
            self.fail(label, "%r instead of %r" % (a, b))

    def samebits(self, a, b, w, label):
        """Same IEEE bit pattern, any NaN equal to any NaN."""
        fmt = {16: ("<e", "<H"), 32: ("<f", "<I"), 64: ("<d", "<Q")}[w]

        def code(v):
            v = builtins.float(v)
            if v != v:
                return -1
            try:
                return struct.unpack(fmt[1], struct.pack(fmt[0], v))[0]
            except OverflowError:
                return struct.unpack(fmt[1], struct.pack(fmt[0], math.copysign(math.inf, v)))[0]
        x, y = code(a), code(b)
        if x != y:
            self.fail(label, "%r (%x) instead of %r (%x)" % (a, x, b, y))

    def true(self, c, label, msg=""):
        self.observe(label, builtins.float(bool(c)))
        if not c:
            self.fail(label, msg or "does not hold")

    def raises(self, fn, label, types=Exception):
        try:
            fn()
        except types:
            return True
        self.fail(label, "no error was raised")
        return False

    def note(self, *a):
        pass


def numpy_of():
    import numpy
    return numpy


class Mods(object):
    """Lazy access to the modules under test."""
    def __init__(self, post=None, np=numpy_of):
        self.cache = {}
        self.post = post
        self.numpy = np

    def get(self, name):
        if name not in self.cache:
            m = importlib.import_module(name)
            if self.post:
                self.post(name, m)
            self.cache[name] = m
        return self.cache[name]


def run(fn, inputs, mods, params, make=ConcreteS):
    """(status, failures, observations, small deviations); status is pass, fail, skip."""
    s = make(inputs, mods)
    cwd = os.getcwd()
    try:
        fn(s, **params)
    except Skip:
        return "skip", [], [], []
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        name = type(e).__name__
        if name in ("EngineLimit", "Infeasible", "Stop"):
            return "limit", [(name, str(e))], [], []
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join("%s:%s" % (os.path.basename(f[0]), f[1]) for f in tb[-3:])
        return "fail", [("exception", "%s: %s (%s)" % (name, str(e)[:200], where))] + [(f.label, f.msg) for f in s.failures], s.obs, []
    finally:
        os.chdir(cwd)
        s.cleanup()
    if s.failures:
        return "fail", [(f.label, f.msg) for f in s.failures], s.obs, []
    return "pass", [], s.obs, s.soft
