"""A model of multiprocessing.Pool whose scheduling is decided by the explorer.

The model keeps what a caller can observe of the real pool: one feeder per pool takes the queued task
sequences one after the other and cuts them into chunks, at most `processes` of the oldest unfinished
chunks are in work, any of them may finish next, functions, arguments, results and exceptions are
pickled on their way, the modules' and classes' variables of the workers are those of the time when the pool was
made and of the initializer (their own from then on), an exception of the input iterator takes the place of the next chunk, and imap
delivers in input order while imap_unordered delivers in order of completion.
The conformance part of C10 and C11 runs the same calls on real pools and compares.
"""
import contextlib
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import pickle
import sys

REAL_POOL = multiprocessing.Pool
REAL_GET_CONTEXT = multiprocessing.get_context


class Deadlock(AssertionError):
    pass


class TaskSeq:
    def __init__(self, pool, func, chunks, ordered, star=False):
        self.pool, self.func, self.chunks, self.ordered, self.star = pool, func, chunks, ordered, star
        self.fed = 0
        self.done = {}            # chunk index -> (ok, value)
        self.completion = []      # chunk indices in order of completion
        self.exhausted = False
        self.next_out = 0

    def available(self):
        return self.next_out in self.done if self.ordered else len(self.completion) > self.next_out

    def pop_chunk(self):
        """next (ok, values); None at the end"""
        while not self.available():
            if self.exhausted and self.next_out >= self.fed:
                return None
            self.pool.progress()
        i = self.next_out if self.ordered else self.completion[self.next_out]
        self.next_out += 1
        return self.done[i]


class ModelIter:
    def __init__(self, seq):
        self.seq, self.buf = seq, []
        self.dead = False

    def __iter__(self):
        return self

    def __next__(self):
        while not self.buf:
            if self.dead:
                raise StopIteration
            got = self.seq.pop_chunk()
            if got is None:
                self.dead = True
                raise StopIteration
            ok, val = got
            if not ok:
                if self.seq.chunked:
                    self.dead = True
                raise val
            self.buf = list(val)
        return self.buf.pop(0)

    next = __next__


def chunked(it, size):
    it = iter(it)
    while True:
        x = tuple(itertools.islice(it, size))
        if not x:
            return
        yield x


_SPACES = [None, ()]
_MISSING = object()


def spaces():
    """the modules of the code under test, and their classes"""
    if _SPACES[0] != len(sys.modules):
        mods = [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'nlcodec']
        found = {id(x): x for m in mods for x in [m, *vars(m).values()]
                 if x is m or isinstance(x, type) and x.__module__.split('.')[0] == 'nlcodec'}
        _SPACES[:] = len(sys.modules), tuple(found.values())
    return _SPACES[1]


def globals_now():
    return [(ns, dict(vars(ns))) for ns in spaces()]


def are_globals(state):
    try:
        return all(vars(ns) == want for ns, want in state)
    except Exception:
        return False


def put_globals(state):
    for ns, want in state:
        cur = vars(ns)
        for k, v in [(k, v) for k, v in want.items() if k[:2] != '__' and cur.get(k, _MISSING) is not v]:
            setattr(ns, k, v)
        for k in [k for k in cur if k not in want and k[:2] != '__']:
            delattr(ns, k)


class ModelPool:
    """drop-in for multiprocessing.Pool; all scheduling through `chooser`"""
    created = 0

    def __init__(self, processes=None, initializer=None, initargs=(), *a, chooser=None, **kw):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        ModelPool.created += 1
        self.n = processes or 2
        self.chooser = chooser
        self.queue = []          # task sequences not fed to the end
        self.running = []        # (seq, chunk index, pickled task) in feeding order
        self.feeding = False
        self.closed = False
        self.globals = globals_now()     # a worker has the variables of the time of its start
        if initializer:
            with self.in_worker():
                initializer(*initargs)

    @contextlib.contextmanager
    def in_worker(self):
        """what the code sets in a worker stays there"""
        ours = None if are_globals(self.globals) else globals_now()
        if ours:
            put_globals(self.globals)
        try:
            yield
        finally:
            if not are_globals(self.globals):
                ours, self.globals = ours or self.globals, globals_now()
            if ours:
                put_globals(ours)

    # --- scheduling
    def progress(self):
        """one event chosen by the explorer: a chunk in work finishes, or one more chunk is fed"""
        opts = list(range(min(self.n, len(self.running))))
        feed = not self.feeding and bool(self.queue)
        if not opts and not feed:
            raise Deadlock('every thread waits for another one')
        c = self.chooser(len(opts) + (1 if feed else 0))
        if c < len(opts):
            self.finish(c)
        else:
            self.feed()

    def feed(self):
        seq = self.queue[0]
        self.feeding = True
        try:
            try:
                chunk = next(seq.chunks)
            except StopIteration:
                seq.exhausted = True
                self.queue.pop(0)
                return
            except Deadlock:
                raise
            except Exception as e:
                seq.exhausted = True
                self.queue.pop(0)
                self.running.append((seq, seq.fed, ('raise', pickle.dumps(e))))
                seq.fed += 1
                return
            try:
                task = pickle.dumps((seq.func, chunk))
            except Exception as e:      # the real pool reports what can not be pickled as the result
                seq.done[seq.fed] = (False, e)
                seq.completion.append(seq.fed)
                seq.fed += 1
                return
            self.running.append((seq, seq.fed, ('run', task)))
            seq.fed += 1
        finally:
            self.feeding = False

    def finish(self, c):
        seq, i, (what, data) = self.running.pop(c)
        if what == 'raise':
            res = (False, pickle.loads(data))
        else:
            func, chunk = pickle.loads(data)
            try:
                with self.in_worker():
                    val = [func(*x) for x in chunk] if seq.star else [func(x) for x in chunk]
                res = (True, pickle.loads(pickle.dumps(val)))
            except Deadlock:
                raise
            except Exception as e:
                try:
                    res = (False, pickle.loads(pickle.dumps(e)))
                except Exception:
                    res = (False, multiprocessing.pool.MaybeEncodingError(e, None))
        seq.done[i] = res
        seq.completion.append(i)

    def submit(self, func, iterable, chunksize, ordered, star=False):
        if self.closed:
            raise ValueError('Pool not running')
        seq = TaskSeq(self, func, chunked(iterable, chunksize), ordered, star)
        seq.chunked = chunksize > 1
        self.queue.append(seq)
        return seq

    # --- the public interface
    def imap(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError(f'Chunksize must be 1+, not {chunksize}')
        return ModelIter(self.submit(func, iterable, chunksize, True))

    def imap_unordered(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError(f'Chunksize must be 1+, not {chunksize}')
        return ModelIter(self.submit(func, iterable, chunksize, False))

    def _map(self, func, iterable, chunksize, star):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        seq = self.submit(func, items, max(1, chunksize), True, star)
        while not seq.exhausted or len(seq.done) < seq.fed:
            self.progress()
        out = []
        for i in range(seq.fed):
            ok, val = seq.done[i]
            if not ok:
                raise val
            out.extend(val)
        return out

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, False)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, True)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return ModelResult(lambda: self.map(func, iterable, chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return ModelResult(lambda: self.starmap(func, iterable, chunksize), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        seq = self.submit(_Apply(func, kwds), [tuple(args)], 1, True, True)
        while not seq.exhausted:
            self.feed()

        def get():
            while not seq.available():
                self.progress()
            ok, val = seq.done[0]
            if not ok:
                raise val
            return val[0]
        return ModelResult(get, callback, error_callback)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.queue, self.running = [], []

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Apply:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, *args):
        return self.func(*args, **self.kwds)


class ModelResult:
    def __init__(self, run, callback, error_callback):
        self.run, self.cb, self.ecb = run, callback, error_callback
        self.val = None

    def get(self, timeout=None):
        if self.val is None:
            try:
                self.val = (True, self.run())
                if self.cb:
                    self.cb(self.val[1])
            except Deadlock:
                raise
            except Exception as e:
                self.val = (False, e)
                if self.ecb:
                    self.ecb(e)
        if not self.val[0]:
            raise self.val[1]
        return self.val[1]

    def wait(self, timeout=None):
        try:
            self.get()
        except Deadlock:
            raise
        except Exception:
            pass

    def ready(self):
        return True

    def successful(self):
        self.wait()
        return self.val[0]


class ModelContext:
    def __init__(self, make, name=None):
        self.make, self.name = make, name

    def Pool(self, *a, **kw):
        return self.make(*a, **kw)

    def __getattr__(self, k):
        return getattr(REAL_GET_CONTEXT(self.name), k)


@contextlib.contextmanager
def model_pools(choose):
    """every pool made through multiprocessing is a model pool scheduled by choose(n)"""
    def make(*a, **kw):
        return ModelPool(*a, chooser=choose, **kw)

    def get_context(method=None):
        return ModelContext(make, method)
    base = multiprocessing.context.BaseContext
    old = (multiprocessing.Pool, multiprocessing.get_context, base.Pool)
    multiprocessing.Pool, multiprocessing.get_context = make, get_context
    base.Pool = lambda self, *a, **kw: make(*a, **kw)
    try:
        yield
    finally:
        multiprocessing.Pool, multiprocessing.get_context, base.Pool = old
