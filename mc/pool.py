"""A controlled stand-in for multiprocessing.Pool.

The readers distribute their work over worker processes whose execution and
completion order the operating system decides. Here that order is a parameter:
tasks run one at a time in the order `start`, and finish (become visible to
unordered result iterators and callbacks) in the order `finish`; both are
permutations given by rank. Functions, arguments and results are pickled, as
between real processes, so workers share no objects with the reader.
"""
import contextlib
import itertools
import multiprocessing
import multiprocessing.pool
import os
import pickle


class Schedule:
    def __init__(self, start=None, finish=None, cpus=8):
        self.start, self.finish, self.cpus = start, finish, cpus
        self.sizes = []  # pool sizes requested
        self.tasks = 0  # tasks run
        self.fail = set()  # task numbers whose worker fails
        self.failed = 0
        self.fail_inside = False  # the failure happens inside the worker's code
        self.current = None


def ranked(perm, n):
    """The n task numbers in the order given by the permutation's ranks."""
    if not perm:
        return list(range(n))
    key = {i: r for r, i in enumerate(perm)}
    return sorted(range(n), key=lambda i: (key.get(i % len(perm), i), i))


class Result:
    def __init__(self, fn):
        self.fn, self.done = fn, None

    def _run(self):
        if self.done is None:
            self.done = self.fn()
        return self.done

    def get(self, timeout=None):
        ok, v = self._run()
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        return self.done is not None

    def successful(self):
        return self._run()[0]


class FakePool:
    sched = None

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = self.sched.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._processes = processes
        self.sched.sizes.append(processes)
        if initializer:
            initializer(*initargs)
        self.pending = []
        self.applied = 0
        self.closed = False

    def _one(self, func, args, kwds=None, number=None):
        self.sched.current = number
        try:
            return self._run_one(func, args, kwds, number)
        finally:
            self.sched.current = None

    def _run_one(self, func, args, kwds, number):
        if number in self.sched.fail and not self.sched.fail_inside:
            self.sched.failed += 1
            return False, OSError("injected failure of worker %d" % number)
        try:
            f, a, k = pickle.loads(pickle.dumps((func, args, kwds or {})))
            self.sched.tasks += 1
            r = f(*a, **k)
            return True, pickle.loads(pickle.dumps(r))
        except Exception as e:
            return False, e

    def _all(self, func, argtuples):
        if self.closed:
            raise ValueError("Pool not running")
        res = [None] * len(argtuples)
        for i in ranked(self.sched.start, len(argtuples)):
            res[i] = self._one(func, argtuples[i], None, i)
        return res

    @staticmethod
    def _values(res):
        for ok, v in res:
            if not ok:
                raise v
        return [v for _, v in res]

    def map(self, func, iterable, chunksize=None):
        return self._values(self._all(func, [(x,) for x in iterable]))

    def starmap(self, func, iterable, chunksize=None):
        return self._values(self._all(func, [tuple(x) for x in iterable]))

    def imap(self, func, iterable, chunksize=1):
        for ok, v in self._all(func, [(x,) for x in iterable]):
            if not ok:
                raise v
            yield v

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self._all(func, [(x,) for x in iterable])
        for i in ranked(self.sched.finish, len(res)):
            ok, v = res[i]
            if not ok:
                raise v
            yield v

    def _async(self, res, callback, error_callback, n):
        def fn():
            try:
                v = res()
            except Exception as e:
                if error_callback:
                    error_callback(e)
                return False, e
            if callback:
                callback(v)
            return True, v
        r = Result(fn)
        self.pending.append(r)
        return r

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        it = list(iterable)
        return self._async(lambda: self.map(func, it), callback, error_callback, len(it))

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        it = list(iterable)
        return self._async(lambda: self.starmap(func, it), callback, error_callback, len(it))

    def apply(self, func, args=(), kwds=None):
        number, self.applied = self.applied, self.applied + 1
        return self._values([self._one(func, args, kwds, number)])[0]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        number, self.applied = self.applied, self.applied + 1
        return self._async(lambda: self._values([self._one(func, args, kwds, number)])[0], callback, error_callback, 1)

    def _drain(self):
        for i in ranked(self.sched.finish, len(self.pending)):
            self.pending[i]._run()

    def close(self):
        # everything submitted completes, in the schedule's order
        self._drain()
        self.closed = True

    def join(self):
        self._drain()

    def terminate(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


@contextlib.contextmanager
def controlled(start=None, finish=None, cpus=8):
    s = Schedule(start, finish, cpus)
    cls = type("Pool", (FakePool,), {"sched": s})
    saved = [
        (multiprocessing, "Pool", multiprocessing.Pool),
        (multiprocessing.pool, "Pool", multiprocessing.pool.Pool),
        (multiprocessing, "cpu_count", multiprocessing.cpu_count),
        (os, "cpu_count", os.cpu_count),
    ]
    multiprocessing.Pool = cls
    multiprocessing.pool.Pool = cls
    multiprocessing.cpu_count = lambda: cpus
    os.cpu_count = lambda: cpus
    try:
        yield s
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


@contextlib.contextmanager
def cpus_only(cpus):
    """Real pools, but a chosen number of processors."""
    saved = [(multiprocessing, "cpu_count", multiprocessing.cpu_count), (os, "cpu_count", os.cpu_count)]
    multiprocessing.cpu_count = lambda: cpus
    os.cpu_count = lambda: cpus
    try:
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


def orders(n, limit=4):
    """All orders of n workers (n <= limit), or rotations and reversals beyond."""
    if n <= limit:
        return list(itertools.permutations(range(n)))
    base = list(range(n))
    res = []
    for k in range(n):
        r = base[k:] + base[:k]
        res += [tuple(r), tuple(reversed(r))]
    return res
