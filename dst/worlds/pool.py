"""Work spread over a simulated pool of processes. Decides C21."""
import concurrent.futures
import heapq
import logging
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import random

import soil.utils as sutils

RULE = "random tasks, options, numbers of workers, durations and failures; the simulated pool decides which worker takes each task and when it ends; non-trivial: at least three tasks in more than one worker that end in a different order"
COMPONENTS = {"real": ["soil.utils (run_parallel, run_and_return_exceptions)", "pickle"], "stub": ["pool of processes (simulated workers; functions, arguments and results go through pickle)", "log handler"]}
BUDGET = 5000000
ASSUMPTIONS = ["results are not exceptions and can be pickled", "workers are not killed from outside"]


class Odd(Exception):
    """Cannot be read back from its pickled form."""

    def __init__(self, a, b):
        super().__init__(f"{a}{b}")


class Held(Exception):
    """Cannot be pickled."""

    def __init__(self, text):
        super().__init__(text)
        self.handler = lambda: None


def gen(rng, prop, idx):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    if rng.random() < 0.004:
        n = rng.choice([70, 130, 260, 520, 1100])
    kinds = ["ok"] * 6 + ["fail", "fail", "cause", "odd", "held", "key", "assert", "none", "zero"]
    tasks = [{"kind": rng.choice(kinds), "time": rng.choice([1, 1, 2, 3, 5, 20, 0])} for _ in range(n)]
    if rng.random() < 0.3:
        tasks = [dict(t, kind="ok") for t in tasks]
    return {"tasks": tasks, "workers": rng.choice([1, 1, 2, 2, 3, 4, 8, 20]), "iterable": rng.choice(["list", "range", "gen", "tuple"]),
            "options": rng.choice([{}, {"a": 1}, {"a": [1, 2], "b": "x"}, {"label": None}]), "rounds": rng.choice([1, 1, 2]),
            "order": rng.randrange(1 << 30), "debug": rng.random() < 0.08}


W = None
REAL_CONTEXT_POOL = multiprocessing.context.BaseContext.Pool


def work(arg, **options):
    return W.execute(arg, options)


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.rng = random.Random(sc["order"])
        self.calls = []
        self.done = []
        self.pools = 0
        self.worker = None

    def execute(self, arg, options):
        t = self.sc["tasks"][arg]
        self.calls.append((arg, repr(sorted(options.items()))))
        self.ctx.event("task", arg, self.worker)
        kind = t["kind"]
        token = f"token-{arg}-"
        if kind == "ok":
            return ("result", arg)
        if kind == "none":
            return None
        if kind == "zero":
            return 0
        self.ctx.fault("failing task: " + kind)
        if kind == "fail":
            raise ValueError(token)
        if kind == "key":
            raise KeyError(token)
        if kind == "assert":
            assert False, token
        if kind == "cause":
            try:
                raise ValueError(token)
            except ValueError as ex:
                raise RuntimeError(token) from ex
        if kind == "odd":
            raise Odd(token, "x")
        raise Held(token)


def value(t, i):
    return {"ok": ("result", i), "none": None, "zero": 0}[t["kind"]]


OK = ("ok", "none", "zero")


class SimPool:
    """Workers take the tasks in order; the scheduler decides how long each of them takes."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or 8
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False
        W.pools += 1
        if initializer:
            initializer(*initargs)

    def _schedule(self, func, iterable, chunksize=1):
        """List of (end, index, task)"""
        if self.closed:
            raise ValueError("Pool not running")
        tasks = list(iterable)
        blob = pickle.dumps(func)
        free = [(0.0, w) for w in range(self.n)]
        heapq.heapify(free)
        out = []
        for i in range(0, len(tasks), chunksize):
            t, w = heapq.heappop(free)
            ends = []
            for j, task in enumerate(tasks[i:i + chunksize]):
                ix = task if isinstance(task, int) and 0 <= task < len(W.sc["tasks"]) else 0
                t += W.sc["tasks"][ix]["time"] if W.sc["tasks"] else 1
                t += W.rng.random()
                ends.append((t, i + j, w))
            for e in ends:
                out.append((t, e[1], w, tasks[e[1]]))
            heapq.heappush(free, (t, w))
        W.end = max([o[0] for o in out], default=0)
        return blob, out

    def _do(self, blob, task, w):
        W.worker = w
        try:
            res = pickle.loads(blob)(pickle.loads(pickle.dumps(task)))
            ok = True
        except Exception as ex:
            ok, res = False, ex
        finally:
            W.worker = None
        try:
            data = pickle.dumps((ok, res))
        except Exception as ex:
            return False, multiprocessing.pool.MaybeEncodingError(ex, res)
        try:
            return pickle.loads(data)
        except Exception as ex:
            W.ctx.fail("C21", "lost-result", f"the parent process cannot read a result ({ex!r}), and waits forever")

    def _run(self, func, iterable, ordered, chunksize=1):
        blob, plan = self._schedule(func, iterable, chunksize)
        W.order = [p[1] for p in sorted(plan, key=lambda x: (x[0], x[1]))]
        results = {}
        for end, i, w, task in sorted(plan, key=lambda x: (x[0], x[1])):
            results[i] = self._do(blob, task, w)
        seq = sorted(results) if ordered else list(results)
        for i in seq:
            ok, res = results[i]
            W.ctx.event("done", i)
            if not ok:
                raise res
            yield res

    def imap_unordered(self, func, iterable, chunksize=1):
        return _Iter(self._run(func, iterable, False, chunksize))

    def imap(self, func, iterable, chunksize=1):
        return _Iter(self._run(func, iterable, True, chunksize))

    def map(self, func, iterable, chunksize=None):
        return list(self._run(func, iterable, True, chunksize or 1))

    def starmap(self, func, iterable, chunksize=None):
        return list(self._run(_Star(func), iterable, True, chunksize or 1))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(lambda: self.map(func, iterable, chunksize), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.map(_Call(func, kwds), [args])[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Async(lambda: self.map(_Call(func, kwds), [args])[0], callback, error_callback)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Star:
    def __init__(self, f):
        self.f = f

    def __call__(self, args):
        return self.f(*args)


class _Call:
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, args):
        return self.f(*args, **self.kw)


class _Iter:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def next(self, timeout=None):
        return next(self.it)


class _Async:
    def __init__(self, f, callback, error_callback):
        try:
            self.value, self.ok = f(), True
            if callback:
                callback(self.value)
        except Exception as ex:
            self.value, self.ok = ex, False
            if error_callback:
                error_callback(ex)

    def get(self, timeout=None):
        if self.ok:
            return self.value
        raise self.value

    def ready(self):
        return True

    def wait(self, timeout=None):
        pass

    def successful(self):
        return self.ok


class SimExecutor:
    def __init__(self, max_workers=None, **kw):
        self.pool = SimPool(max_workers)

    def submit(self, fn, /, *args, **kwargs):
        fut = concurrent.futures.Future()
        r = self.pool.apply_async(fn, args, kwargs)
        if r.ok:
            fut.set_result(r.value)
        else:
            fut.set_exception(r.value)
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return self.pool._run(_Star(fn), list(zip(*iterables)), True)

    def shutdown(self, wait=True, cancel_futures=False):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            try:
                self.lines.append(record.getMessage() + (logging.Formatter().formatException(record.exc_info) if record.exc_info else ""))
            except Exception as ex:
                self.lines.append(f"(bad record: {ex!r})")


def iterable(kind, n):
    if kind == "list":
        return list(range(n))
    if kind == "tuple":
        return tuple(range(n))
    if kind == "gen":
        return (i for i in range(n))
    return range(n)


def run(sc, ctx):
    global W
    W = w = World(sc, ctx)
    saved = [(m, k, getattr(m, k)) for m, k in ((sutils, "Pool"), (multiprocessing, "Pool"), (multiprocessing.pool, "Pool"), (concurrent.futures, "ProcessPoolExecutor"),
                                                (sutils, "ProcessPoolExecutor")) if hasattr(m, k)]
    h = Handler()
    logging.getLogger("soil").addHandler(h)
    try:
        for m, k, _ in saved:
            setattr(m, k, SimExecutor if "Executor" in k else SimPool)
        multiprocessing.context.BaseContext.Pool = lambda self, *a, **kw: SimPool(*a, **kw)
        if sc["debug"]:
            os.environ["SOIL_DEBUG"] = "1"
        for _ in range(sc["rounds"]):
            round_(w, sc, ctx, h)
    finally:
        os.environ.pop("SOIL_DEBUG", None)
        logging.getLogger("soil").removeHandler(h)
        multiprocessing.context.BaseContext.Pool = REAL_CONTEXT_POOL
        for m, k, v in saved:
            setattr(m, k, v)


def round_(w, sc, ctx, h):
    tasks, n = sc["tasks"], len(sc["tasks"])
    w.calls = []
    w.order = []
    w.end = 0
    h.lines.clear()
    got = []
    parallel = sc["workers"] > 1 and not sc["debug"]
    want_opts = repr(sorted(sc["options"].items()))
    pools = w.pools
    error = None
    try:
        for r in sutils.run_parallel(work, iterable(sc["iterable"], n), num_processes=sc["workers"], **sc["options"]):
            got.append(r)
    except Exception as ex:
        error = ex
    ctx.event("results", repr(got))
    used_pool = w.pools > pools
    first_bad = next((i for i, t in enumerate(tasks) if t["kind"] not in OK), None)
    expect = [value(t, i) for i, t in enumerate(tasks) if t["kind"] in OK]
    calls = [c[0] for c in w.calls]
    ctx.check(all(c[1] == want_opts for c in w.calls), "C21", "options", lambda: f"tasks got the options {w.calls} instead of {want_opts}")
    if not parallel:
        last = n if first_bad is None else first_bad + 1
        ctx.check(calls == list(range(last)), "C21", "sequential-tasks", lambda: f"tasks {calls} were executed in sequence, out of {last}")
        exp = [value(t, i) for i, t in enumerate(tasks[:last]) if t["kind"] in OK]
        ctx.check(got == exp, "C21", "sequential-results", lambda: f"the results are {got} instead of {exp}")
        if first_bad is None:
            ctx.check(error is None, "C21", "sequential-error", lambda: f"unexpected error {error!r}")
        else:
            ctx.check(error is not None and f"token-{first_bad}-" in f"{error!r}{error}", "C21", "sequential-error", lambda: f"task {first_bad} failed, and the caller got {error!r}")
        return
    ctx.check(error is None, "C21", "parallel-error", lambda: f"the caller got {error!r}")
    ctx.check(sorted(calls) == list(range(n)), "C21", "tasks", lambda: f"tasks {sorted(calls)} were executed, out of {n}")
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, expect)), "C21", "results", lambda: f"the results are {got} instead of {expect}")
    for i, t in enumerate(tasks):
        hits = sum(1 for l in h.lines if f"token-{i}-" in l)
        if t["kind"] in OK:
            ctx.check(hits == 0, "C21", "false-report", f"task {i} did not fail, and was reported")
        else:
            ctx.check(hits == 1, "C21", "report", lambda: f"task {i} failed and was reported {hits} times: {h.lines}")
    ctx.sim_time += w.end
    if n >= 3 and used_pool and w.order != sorted(w.order):
        ctx.nontrivial = True
    ctx.count("completed out of order" if w.order != sorted(w.order) else "completed in order")
