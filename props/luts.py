"""Helpers of the LUT format scenarios."""
import os

from props.common import *      # noqa: F401,F403


class Probe:
    """Stands for any list: answers every new input with new arbitrary values, the same input with the same ones."""

    def __init__(self, S, lo=-1.0, hi=2.0, name="out", vary=None, fixed=(0.25,)):
        """vary: the call that answers with arbitrary values, the others with fixed ones; None for every call."""
        self.S, self.lo, self.hi, self.name, self.vary, self.fixed = S, lo, hi, name, vary, fixed
        self.calls = []

    def process(self, values, stride=0, verbose=False):
        v = [float(x) if isinstance(x, (int, float)) else x for x in values]
        for (w, out) in self.calls:
            if len(w) == len(v) and all(near(a, b) for a, b in zip(v, w)):
                return self.S.np.array(list(out), dtype=self.S.np.float32)
        k = len(self.calls)
        if self.vary in (None, k):
            out = self.S.reals("%s%d_" % (self.name, k), len(v), self.lo, self.hi)
        else:
            out = [self.fixed[(k * len(v) + c) % len(self.fixed)] for c in range(len(v))]
        self.calls.append((v, out))
        return self.S.np.array(list(out), dtype=self.S.np.float32)

    def at(self, *v):
        """The answer for this input, None if it was never asked."""
        for (w, out) in self.calls:
            if all(near(a, b) for a, b in zip(v, w)):
                return out
        return None


def near(a, b):
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def position(k, n, lo=0.0, hi=1.0):
    return lo + k / (n - 1.0) * (hi - lo)


def lerp(S, x, lo, hi, entries):
    """Clamped linear interpolation in entries evenly spread over lo..hi."""
    n = len(entries)
    t = (x - lo) / (hi - lo) * (n - 1.0)
    if t <= 0.0:
        return entries[0]
    for k in range(n - 1):
        if t <= k + 1.0:
            return entries[k] + (t - k) * (entries[k + 1] - entries[k])
    return entries[n - 1]


def put(S, text, name):
    f = os.path.join(S.tmp(), name)
    with open(f, "w") as fp:
        fp.write(text)
    return f


def get(path):
    with open(path) as fp:
        return fp.read()


def registry(S):
    return S.lf.Registry


def run1(S, pl, values):
    return run_list(S, pl, [list(values)])[0]


class Known:
    """Stands for any list with fixed answers, and arbitrary ones at some inputs."""

    def __init__(self, S, targets, lo=-1.0, hi=2.0):
        self.S = S
        self.targets = [(list(t), S.reals("out%d_" % k, len(t), lo, hi)) for k, t in enumerate(targets)]
        self.count = 0

    @staticmethod
    def value(v, c):
        return 0.125 * v + 0.25 * c - 0.0625 * v * v + 0.03125 * (c + 1) * abs(v - 0.3)

    def process(self, values, stride=0, verbose=False):
        v = [float(x) for x in values]
        self.count += 1
        return self.S.np.array(list(self.at(*v)), dtype=self.S.np.float32)

    def at(self, *v):
        out = []
        for k in range(0, len(v), 3):
            px = v[k:k + 3]
            for t, o in self.targets:
                if all(near(a, b) for a, b in zip(px, t)):
                    out += o
                    break
            else:
                s = sum(px) * 0.0625
                out += [self.value(x, c) + s for c, x in enumerate(px)]
        return out
