"""A process pool with arbitrary scheduling."""
import copy
import itertools
import pickle


class _Later:
    """Asynchronous result: may be pending in any order, finitely long."""

    def __init__(self, pool, value, callback=None):
        self.pool = pool
        self._value = pool.cp(value)
        self.done = False
        self.callback = callback
        pool.pending.append(self)

    def _finish(self):
        if not self.done:
            self.done = True
            self.pool.pending.remove(self)
            if self.callback is not None:
                self.callback(self._value)

    def _progress(self):
        """Another task (or this one) finishes while one looks."""
        if self.done:
            return
        self.pool.looks += 1
        n = len(self.pool.pending)
        if self not in self.pool.pending:
            raise RuntimeError("the pool was terminated before this task")
        if self.pool.looks > 4:
            self.pool.pending[0]._finish()
            return
        k = self.pool.env.choice("finished%d" % self.pool.looks, n)
        self.pool.pending[k]._finish()

    def get(self, timeout=None):
        if timeout is not None and not self.ready():
            import multiprocessing
            raise multiprocessing.TimeoutError
        while not self.done:
            self._progress()
        return self._value

    def wait(self, timeout=None):
        self._progress()
        while timeout is None and not self.done:
            self._progress()

    def ready(self):
        self._progress()
        return self.done

    def successful(self):
        assert self.done
        return True


class PoolModel:
    """multiprocessing.Pool: tasks run in any order on copies of their
    arguments; tasks pickled together share the copies."""
    env = None
    made = None

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self.made.append(processes)
        self.k = 0
        self.looks = 0
        self.pending = []
        if initializer is not None:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
        return False

    def close(self):
        pass

    def join(self):
        while self.pending:
            self.pending[-1]._progress()

    def cp(self, x):
        return pickle.loads(pickle.dumps(x)) if self.pickled \
            else copy.deepcopy(x)

    def terminate(self):
        # tasks which are not finished are lost
        self.pending = []

    def _order(self, n):
        self.k += 1
        if n > 3:
            ps = [tuple(range(n)), tuple(range(n))[::-1]]
        else:
            ps = list(itertools.permutations(range(n)))
        return ps[self.env.choice("schedule%d" % self.k, len(ps))]

    def _run(self, f, tasks, chunksize=None):
        """-> results, order of their completion."""
        tasks = list(tasks)
        if self.pickled:
            f = self.cp(f)
        n = len(tasks)
        order = self._order(n)
        together = (chunksize or 2) > 1 and self.env.choice(
            "chunk%d" % self.k, 2)
        if together:
            # consecutive tasks are pickled together
            order = sorted(order)
            tasks = self.cp(tasks)
        out = [None] * n
        for i in order:
            a = tasks[i] if together else self.cp(tasks[i])
            out[i] = f(*a)
            if not together:
                out[i] = self.cp(out[i])
        if together:
            out = self.cp(out)
        return out, order

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, [tuple(x) for x in iterable], chunksize)[0]

    def map(self, func, iterable, chunksize=None):
        return self._run(func, [(x,) for x in iterable], chunksize)[0]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        out, order = self._run(func, [(x,) for x in iterable], chunksize)
        return iter([out[i] for i in order])

    def apply(self, func, args=(), kwds={}):
        a, k = self.cp((args, kwds))
        return self.cp(func(*a, **k))

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return _Later(self, self.starmap(func, iterable, chunksize),
                      callback)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return _Later(self, self.map(func, iterable, chunksize), callback)

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        return _Later(self, self.apply(func, args, kwds), callback)


class ExecutorModel(PoolModel):
    """concurrent.futures.ProcessPoolExecutor"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), **kw):
        PoolModel.__init__(self, max_workers, initializer, initargs)

    def __exit__(self, *a):
        self.shutdown()
        return False

    def shutdown(self, wait=True, cancel_futures=False):
        if wait and not cancel_futures:
            self.join()

    def map(self, func, *iterables, timeout=None, chunksize=1):
        return iter(self._run(func, list(zip(*iterables)), chunksize)[0])

    def submit(self, func, *args, **kw):
        f = _Later(self, self.apply(func, args, kw))
        f.result = f.get
        f.done_ = f.ready
        f.add_done_callback = lambda g: setattr(
            f, "callback", lambda v: g(f))
        return f


def _as_completed(fs, timeout=None):
    fs = list(fs)
    while fs:
        fs[0]._progress()
        for f in list(fs):
            if f.done:
                fs.remove(f)
                yield f


def _wait(fs, timeout=None, return_when=None):
    fs = set(fs)
    for f in _as_completed(fs):
        pass
    import types
    return types.SimpleNamespace(done=fs, not_done=set())


def install(env, module, pickled=False):
    """Replace the pools the module can reach; -> list of the numbers of
    processes of the pools made."""
    made = []
    # real values can be pickled
    kw = {"env": env, "made": made, "pickled": pickled and not env.symbolic}
    cls = type("Pool", (PoolModel,), kw)
    ex = type("ProcessPoolExecutor", (ExecutorModel,),
              kw)
    mod = env.q(module)

    class Context:
        Pool = staticmethod(cls)
        cpu_count = staticmethod(lambda: 2)

    names = {"Pool": cls, "ProcessPoolExecutor": ex,
             "as_completed": _as_completed,
             "get_context": lambda method=None: Context}
    for k, v in names.items():
        if hasattr(mod, k):
            env.patch(mod, k, v)
    mp = env.lib("multiprocessing")
    env.patch(mp, "Pool", cls)
    env.patch(mp, "get_context", names["get_context"])
    if hasattr(mp, "pool"):
        env.patch(mp.pool, "Pool", cls)
    fut = env.lib("concurrent.futures")
    env.patch(fut, "ProcessPoolExecutor", ex)
    env.patch(fut, "as_completed", _as_completed)
    env.patch(fut, "wait", _wait)
    return made
