"""Stand-in for multiprocessing.Pool with a schedule chosen by the monitor.

Like the real pool it hands each task to a worker as a pickled copy, chunk-wise (tasks of one chunk share
one unpickling, exactly as in Pool.starmap), and returns results in task order; the order in which chunks
run and the chunk size come from SCHEDULE.
"""
import pickle

REAL_POOL = None


class Schedule:
    def __init__(self):
        self.reset()

    def reset(self, rng=None, chunk=None, order=None):
        self.rng = rng
        self.chunk = chunk
        self.real = None  # number of real worker processes instead of the stand-in
        self.order = order  # None | "fifo" | "lifo" | "random"
        self.tasks = 0
        self.pools = 0
        self.trace = []


SCHEDULE = Schedule()


class Result:
    def __init__(self, value, exc=None):
        self._v, self._e = value, exc

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._e is None


class Pool:
    def __new__(cls, processes=None, *args, **kwargs):
        if SCHEDULE.real:
            SCHEDULE.pools += 1
            return REAL_POOL(SCHEDULE.real, *args, **kwargs)
        return object.__new__(cls)

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        SCHEDULE.pools += 1
        self._closed = False
        self.n = processes or 4
        if initializer:
            initializer(*initargs)

    # -- core
    def _run(self, func, tasks, star, chunksize=None):
        if self._closed:
            raise ValueError("Pool not running")
        tasks = list(tasks)
        S = SCHEDULE
        SCHEDULE.tasks += len(tasks)
        cs = chunksize or S.chunk
        if not cs:
            cs, extra = divmod(len(tasks), self.n * 4)
            cs = cs + 1 if extra else max(cs, 1)
        chunks = [list(range(i, min(i + cs, len(tasks)))) for i in range(0, len(tasks), cs)]
        order = list(range(len(chunks)))
        if S.order == "lifo":
            order.reverse()
        elif S.order == "random" and S.rng is not None:
            S.rng.shuffle(order)
        if len(S.trace) < 50:
            S.trace.append((len(tasks), cs, tuple(order[:12])))
        out = [None] * len(tasks)
        for c in order:
            idx = chunks[c]
            f, args = pickle.loads(pickle.dumps((func, [tasks[i] for i in idx])))
            for i, a in zip(idx, args):
                out[i] = pickle.loads(pickle.dumps(f(*a) if star else f(a)))
        return out

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, iterable, True, chunksize)

    def map(self, func, iterable, chunksize=None):
        return self._run(func, iterable, False, chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, False, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, False, chunksize))

    def apply(self, func, args=(), kwds={}):
        return pickle.loads(pickle.dumps(func(*args, **kwds)))

    def _async(self, call):
        try:
            return Result(call())
        except Exception as e:  # delivered by get(), as in the real pool
            return Result(None, e)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable, chunksize))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable, chunksize))

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(lambda: self.apply(func, args, kwds))

    def close(self):
        self._closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        pass
