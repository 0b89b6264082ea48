"""A controlled process pool: every assignment of chunks to workers and order of completion can be run.

It replaces multiprocessing.Pool. Like the real one it pickles the tasks chunk by chunk, runs each chunk in a
worker process (modelled by a copy of the objects and by the state of the random generator the worker inherits
when it is forked), and returns the results in the order of the tasks (map, imap, starmap) or of
completion (imap_unordered).

A schedule is a pair (order, owners): the order in which the chunks are executed, and the worker of each chunk.
"""
import copy
import gc
import itertools
import pickle
import random

from mc import rng


class Schedule:
    def __init__(self, order=None, owners=None):
        self.order = order  # permutation of the chunks (None: submission order)
        self.owners = owners  # worker of each chunk (None: one worker)
        self.chunks = 0
        self.workers = None
        self.pools = 0


_current = Schedule()


def use(schedule):
    global _current
    _current = schedule


def schedules(chunks, workers, permutations=True):
    """every order and every assignment (up to renaming the workers) of `chunks` chunks"""
    orders = itertools.permutations(range(chunks)) if permutations else [tuple(range(chunks))]
    owners = []

    def grow(prefix, used):
        if len(prefix) == chunks:
            owners.append(tuple(prefix))
            return
        for w in range(min(used + 1, workers)):
            grow(prefix + [w], max(used, w + 1))

    grow([], 0)
    for o in orders:
        for w in owners:
            yield o, w


class AsyncResult:
    def __init__(self, values, error=None):
        self.values = values
        self.error = error

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.values

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


class ControlledPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.processes = processes
        self.sched = _current
        self.sched.pools += 1
        self.worker_state = {}
        self.fork_state = self._get_state()
        self.initializer = initializer
        self.initargs = initargs

    # ---------------------------------------------------------------- random state of the processes
    def _get_state(self):
        ctl = rng.active()
        if ctl is None:
            return random.getstate()
        return None if ctl.state is None else list(ctl.state)

    def _set_state(self, state):
        ctl = rng.active()
        if ctl is None:
            random.setstate(state)
        else:
            ctl.state = state

    def _enter(self, worker):
        parent = self._get_state()
        if worker not in self.worker_state:
            state = copy.deepcopy(self.fork_state)
            if rng.active() is not None and state is None:
                # all workers inherit the same (unknown) state of the parent
                state = [("fork", self.sched.pools), 0]
            self.worker_state[worker] = state
            self._set_state(state)
            if self.initializer is not None:
                self.initializer(*self.initargs)
        else:
            self._set_state(self.worker_state[worker])
        return parent

    def _leave(self, worker, parent):
        self.worker_state[worker] = self._get_state()
        self._set_state(parent)

    # ---------------------------------------------------------------- execution
    def _run(self, func, calls, chunksize):
        """returns [(completion rank, chunk results)] by chunk; calls is a list of argument tuples"""
        chunks = [calls[i : i + chunksize] for i in range(0, len(calls), chunksize)]
        n = len(chunks)
        self.sched.chunks = max(self.sched.chunks, n)
        self.sched.workers = self.processes
        order = self.sched.order
        owners = self.sched.owners
        if order is None or len(order) != n:
            order = tuple(range(n))
        if owners is None or len(owners) != n:
            owners = (0,) * n
        out = [None] * n
        pickled = 0
        for rank, c in enumerate(order):
            payload = pickle.dumps((func, chunks[c]))
            pickled += len(payload)
            if pickled > 5e7:
                # large objects are only released by a collection
                pickled = 0
                gc.collect()
            parent = self._enter(owners[c])
            try:
                f, args = pickle.loads(payload)
                values = [f(*x) for x in args]
                out[c] = (rank, pickle.loads(pickle.dumps(values)))
            finally:
                self._leave(owners[c], parent)
        return out

    def _default_chunk(self, n):
        size, extra = divmod(n, (self.processes or 8) * 4)
        return max(1, size + bool(extra))

    def _ordered(self, func, calls, chunksize):
        return [v for _, vs in self._run(func, calls, chunksize) for v in vs]

    def map(self, func, iterable, chunksize=None):
        calls = [(x,) for x in iterable]
        return self._ordered(func, calls, chunksize or self._default_chunk(len(calls)))

    def starmap(self, func, iterable, chunksize=None):
        calls = [tuple(x) for x in iterable]
        return self._ordered(func, calls, chunksize or self._default_chunk(len(calls)))

    def imap(self, func, iterable, chunksize=1):
        return iter(self._ordered(func, [(x,) for x in iterable], chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        out = self._run(func, [(x,) for x in iterable], chunksize)
        return iter([v for _, vs in sorted(out, key=lambda e: e[0]) for v in vs])

    def apply(self, func, args=(), kwds={}):
        return self._ordered(lambda: None, [], 1) or func(*args, **kwds)

    def _async(self, compute, callback, error_callback):
        try:
            values = compute()
        except Exception as e:  # noqa
            if error_callback is not None:
                error_callback(e)
            return AsyncResult(None, e)
        if callback is not None:
            callback(values)
        return AsyncResult(values)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable, chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable, chunksize), callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        """each call is a chunk of its own; callbacks run at once (submission order)"""
        worker = self.sched.pools and (self.sched.chunks % max(1, min(2, self.processes or 2)))
        self.sched.chunks += 1

        def compute():
            payload = pickle.dumps((func, args, kwds))
            parent = self._enter(worker)
            try:
                f, a, k = pickle.loads(payload)
                return pickle.loads(pickle.dumps(f(*a, **k)))
            finally:
                self._leave(worker, parent)

        return self._async(compute, callback, error_callback)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class controlled_pool:
    """replace multiprocessing.Pool with the controlled pool"""

    def __init__(self, schedule=None, cpus=None):
        self.schedule = schedule or Schedule()
        self.cpus = cpus

    def __enter__(self):
        import multiprocessing
        import multiprocessing.pool

        import ramp.core.core as core

        global _current
        self.saved = []
        self.previous = _current
        use(self.schedule)
        real = (multiprocessing.Pool, multiprocessing.pool.Pool)
        for mod in (multiprocessing, multiprocessing.pool, core):
            for name in list(vars(mod)):
                if name == "Pool" and vars(mod)[name] in real or vars(mod)[name] in real and name != "ThreadPool":
                    self.saved.append((mod, name, vars(mod)[name]))
                    setattr(mod, name, ControlledPool)
        self.saved.append((multiprocessing, "get_context", multiprocessing.get_context))
        multiprocessing.get_context = lambda method=None: multiprocessing
        if self.cpus is not None:
            import os

            for mod, name in ((multiprocessing, "cpu_count"), (os, "cpu_count"), (core, "cpu_count")):
                if hasattr(mod, name):
                    self.saved.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, lambda: self.cpus)
        return self.schedule

    def __exit__(self, *a):
        use(self.previous)
        for mod, name, value in reversed(self.saved):
            setattr(mod, name, value)
