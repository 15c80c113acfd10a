"""Adjustments to imported modules of the code under test, in both interpreters."""
import io
import pickle


class _Pickler(pickle.Pickler):
    """Symbolic values go through pickling as they are."""
    def __init__(self, f):
        pickle.Pickler.__init__(self, f, 2)
        self.kept = []

    def persistent_id(self, o):
        if type(o).__module__ in ("engine.sym", "engine.npshim") and type(o).__name__ != "SymArray" and not isinstance(o, type):
            self.kept.append(o)
            return len(self.kept) - 1
        return None


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, k):
        return self.kept[k]


def transfer(o):
    """What arrives in another process."""
    f = io.BytesIO()
    p = _Pickler(f)
    p.dump(o)
    f.seek(0)
    u = _Unpickler(f)
    u.kept = p.kept
    return u.load()


class _Task(object):
    """A job in a worker process: nothing it changes in its arguments comes back."""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = transfer(f), transfer(tuple(args)), transfer(dict(kw))
        self.done = False

    def run(self):
        if not self.done:
            self.done = True
            try:
                self.value, self.error = transfer(self.f(*self.args, **self.kw)), None
            except Exception as e:
                self.value, self.error = None, e
        return self

    def result(self):
        self.run()
        if self.error is not None:
            raise self.error
        return self.value


class Pool(object):
    """multiprocessing.Pool that runs its jobs in this process, in the order ORDER names."""
    ORDER = "forward"

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None:
            initializer(*initargs)

    def _tasks(self, f, seq, star=False):
        tasks = [_Task(f, x if star else (x,), {}) for x in seq]
        finished = list(tasks)
        if Pool.ORDER == "backward":
            finished.reverse()
        elif Pool.ORDER == "rotated":
            finished = finished[1:] + finished[:1]
        for t in finished:
            t.run()
        return tasks, finished

    def map(self, f, seq, chunksize=None):
        return [t.result() for t in self._tasks(f, seq)[0]]

    def imap(self, f, seq, chunksize=1):
        return iter(self.map(f, seq))

    def imap_unordered(self, f, seq, chunksize=1):
        return iter([t.result() for t in self._tasks(f, seq)[1]])

    def starmap(self, f, seq, chunksize=None):
        return [t.result() for t in self._tasks(f, seq, True)[0]]

    def apply(self, f, args=(), kwds={}):
        return _Task(f, args, kwds).result()

    def map_async(self, f, seq, chunksize=None, callback=None, error_callback=None):
        return _Res(lambda: self.map(f, seq), callback, error_callback)

    def starmap_async(self, f, seq, chunksize=None, callback=None, error_callback=None):
        return _Res(lambda: self.starmap(f, seq), callback, error_callback)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return _Res(_Task(f, args, kwds).result, callback, error_callback)

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Res(object):
    def __init__(self, work, callback, error_callback):
        self.error = self.value = None
        try:
            self.value = work()
        except Exception as e:
            self.error = e
        if self.error is None and callback:
            callback(self.value)
        if self.error is not None and error_callback:
            error_callback(self.error)

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


def post(name, m):
    if name == "aces.filterImageWithCLF":
        m.Pool = Pool
        m.cpu_count = lambda: 2
        mp = getattr(m, "multiprocessing", None)
        if mp is not None:
            m.multiprocessing = _MP(mp)


class _MP(object):
    def __init__(self, mp):
        self._mp = mp

    Pool = Pool

    @staticmethod
    def cpu_count():
        return 2

    def __getattr__(self, n):
        return getattr(self._mp, n)
