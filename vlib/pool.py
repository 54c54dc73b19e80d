"""A scheduler that stands in for multiprocessing.Pool.

Like the real pool it pulls work items lazily while results are being consumed, ships a chunk as one pickle (so a worker
computes on the copy of the graph that existed when its chunk was sent), and may deliver finished chunks in any order.
Which of the enabled moves (pull an item, run a chunk, deliver a finished chunk) happens next is a seeded choice.
"""
import pickle


class StubPool:
    log = []  # moves of all pools of the current run

    def __init__(self, rng, bias):
        self.rng = rng
        self.bias = bias
        self.closed = False

    # -- scheduling ------------------------------------------------------------------------------------------------
    def _schedule(self, func, iterable, chunksize):
        it = iter(iterable)
        buf, sent, finished = [], [], []
        open_ = True
        serial = 0
        while open_ or buf or sent or finished:
            moves = []
            if open_:
                moves += ["pull"] * self.bias[0]
            if sent:
                moves += ["run"] * self.bias[1]
            if finished:
                moves += ["deliver"] * self.bias[2]
            m = self.rng.choice(moves) if moves else "flush"
            if m == "pull":
                try:
                    buf.append(next(it))
                except StopIteration:
                    open_ = False
                if buf and (len(buf) >= chunksize or not open_):
                    sent.append((serial, pickle.dumps((func, buf))))
                    self.log.append(("send", serial))
                    serial += 1
                    buf = []
            elif m == "run":
                i = self.rng.randrange(len(sent))
                s, payload = sent.pop(i)
                f, items = pickle.loads(payload)
                res = pickle.dumps([f(x) for x in items])
                finished.append((s, res))
                self.log.append(("run", s))
            elif m == "deliver":
                i = self.rng.randrange(len(finished))
                s, res = finished.pop(i)
                self.log.append(("deliver", s))
                for r in pickle.loads(res):
                    yield s, r
            else:
                break

    def imap_unordered(self, func, iterable, chunksize=1):
        for _, r in self._schedule(func, iterable, chunksize):
            yield r

    def map(self, func, iterable, chunksize=None):
        res = {}
        for s, r in self._schedule(func, list(iterable), chunksize or 1):
            res.setdefault(s, []).append(r)
        return [r for s in sorted(res) for r in res[s]]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def starmap(self, func, iterable, chunksize=None):
        return self.map(_Star(func), iterable, chunksize)

    def apply(self, func, args=(), kwds={}):
        return func(*pickle.loads(pickle.dumps(args)), **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = self.apply(func, args, kwds)
        if callback:
            callback(r)
        return _Done(r)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Star:
    def __init__(self, f):
        self.f = f

    def __call__(self, a):
        return self.f(*a)


class _Done:
    def __init__(self, r):
        self.r = r

    def get(self, timeout=None):
        return self.r

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class patched:
    """replaces every pool constructor causy could reach"""

    def __init__(self, rng, bias):
        self.rng, self.bias = rng, bias
        self.made = []

    def __enter__(self):
        import multiprocessing
        import multiprocessing.pool

        import torch.multiprocessing as tmp

        StubPool.log = []

        def make(*a, **k):
            p = StubPool(self.rng, self.bias)
            self.made.append(p)
            return p

        self.saved = [(m, m.Pool) for m in (multiprocessing, multiprocessing.pool, tmp)]
        for m, _ in self.saved:
            m.Pool = make
        return self

    def __exit__(self, *a):
        for m, p in self.saved:
            m.Pool = p
