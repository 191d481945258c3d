"""Stands in for multiprocessing.Pool (and ProcessPoolExecutor) in the command line tools: workers are real
forks of the tool's process running the tool's real function, but only one runs at a time and a seeded
scheduler decides at every file system operation which one goes on, and which idle worker takes which task."""
import os, pickle, random, signal, socket, struct, sys, traceback

SIM = None          # the Sim of this process
CFG = {}            # seed, prob, ncpu
STATS = {'steps': 0, 'switches': 0, 'order': []}


class SimHang(BaseException):
    pass


class RemoteTraceback(Exception):
    pass


def mapstar(args):
    return list(map(*args))


def starmapstar(args):
    import itertools
    return list(itertools.starmap(args[0], args[1]))


class _Worker:
    __slots__ = ('id', 'pid', 'sock', 'task', 'dead')


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or CFG.get('ncpu', 4)
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.rng = random.Random(CFG.get('seed', 0))
        self.prob = CFG.get('prob', 0.3)
        self.initializer, self.initargs = initializer, initargs
        self.jobs = []          # outstanding MapResults in order
        self.queue = []         # (job, index, fn, payload)
        self.last = None
        self.closed = False
        self.workers = []
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(self.n):
            a, b = socket.socketpair()
            w = _Worker()
            w.id, w.task, w.dead = i + 1, None, False
            pid = os.fork()
            if pid == 0:
                a.close()
                for x in self.workers:
                    x.sock.close()
                self._work(i + 1, b)
            b.close()
            w.pid, w.sock = pid, a
            self.workers.append(w)
        CFG.setdefault('pools', []).append(self)

    # ---- worker side
    def _work(self, wid, sock):
        fd = sock.fileno()
        code = 1
        try:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            while True:
                hdr = _readn(fd, 5)
                if hdr[:1] == b'Q':
                    break
                if hdr[:1] != b'T':
                    continue
                func, args = pickle.loads(_readn(fd, struct.unpack('<I', hdr[1:])[0]))
                if self.initializer is not None:
                    self.initializer(*self.initargs)
                    self.initializer = None
                SIM.lib.sim_worker(wid, fd, fd)
                try:
                    res = (True, func(*args))
                except Exception as e:
                    res = (False, e)
                SIM.lib.sim_worker(wid, -1, -1)
                try:
                    data = pickle.dumps(res)
                except Exception as e:
                    from multiprocessing.pool import MaybeEncodingError
                    data = pickle.dumps((False, MaybeEncodingError(e, res[1])))
                _writen(fd, b'R' + struct.pack('<I', len(data)) + data)
            code = 0
        except SystemExit:
            code = 3
        except BaseException:
            traceback.print_exc()
            code = 4
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                pass
            os._exit(code)

    # ---- parent side
    def _runnable(self):
        r = [w for w in self.workers if w.task is not None]
        if self.queue:
            r += [w for w in self.workers if w.task is None and not w.dead]
        return r

    def _step(self):
        """Let one worker run up to its next file system operation"""
        r = self._runnable()
        if not r:
            return False
        if self.last in r and self.last.task is not None and self.rng.random() >= self.prob:
            w = self.last
        else:
            w = self.rng.choice(r)
        if w is not self.last:
            STATS['switches'] += 1
        STATS['steps'] += 1
        self.last = w
        fd = w.sock.fileno()
        H = SIM.H
        try:
            if w.task is None:
                t = self.queue.pop(0)
                w.task = t
                STATS['order'].append((w.id, t[1]))
                data = pickle.dumps((t[2], t[3]))
                _writen(fd, b'T' + struct.pack('<I', len(data)) + data)
            else:
                _writen(fd, b'G')
            m = _readn(fd, 1)
            if m == b'Y':
                _readn(fd, 1)
            else:
                n = struct.unpack('<I', _readn(fd, 4))[0]
                data = _readn(fd, n)
                t, w.task = w.task, None
                try:
                    res = pickle.loads(data)
                except Exception as e:      # the result handler thread of a real pool dies of this
                    raise SimHang("a result could not be read back: {!r}".format(e))
                t[0]._set(t[1], res)
        except EOFError:
            if H.crashed:
                os.kill(SIM.realpid(), signal.SIGKILL)
            w.dead = True
            raise SimHang("worker {} ended while working".format(w.id))
        return True

    def _submit(self, job, i, fn, args):
        if self.closed:
            raise ValueError("Pool not running")
        pickle.dumps((fn, args))
        self.queue.append((job, i, fn, args))

    def _progress(self):
        """work goes on while the parent does other things"""
        for _ in range(self.rng.randrange(0, 30) if self.prob else 0):
            if not self._step():
                break

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None, _star=mapstar):
        it = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(it), len(self.workers) * 4)
            if extra:
                chunksize += 1
        chunks = [it[i:i + chunksize] for i in range(0, len(it), chunksize)] if it else []
        job = _Result(self, len(chunks), True, callback, error_callback)
        for i, c in enumerate(chunks):
            self._submit(job, i, _star, ((func, c),))
        self._progress()
        return job

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.map_async(func, iterable, chunksize, callback, error_callback, _star=starmapstar)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        job = _Result(self, 1, False, callback, error_callback)
        self._submit(job, 0, _apply, (func, tuple(args), dict(kwds)))
        self._progress()
        return job

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        jobs = [self.map_async(func, [x]) for x in iterable]

        def gen():
            for j in jobs:
                yield j.get()[0]
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        jobs = [self.map_async(func, [x]) for x in iterable]

        def gen():
            left = list(jobs)
            while left:
                for j in left:
                    if j.ready():
                        break
                else:
                    if not self._step():
                        raise SimHang("no worker can go on")
                    continue
                left.remove(j)
                yield j.get()[0]
        return gen()

    def close(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        while self._step():
            pass
        for w in self.workers:
            self._quit(w)
        self.workers = []

    def _quit(self, w):
        try:
            _writen(w.sock.fileno(), b'Q\0\0\0\0')
            w.sock.recv(1)
        except OSError:
            pass
        w.sock.close()
        try:
            os.waitpid(w.pid, 0)
        except OSError:
            pass

    def terminate(self):
        self.closed = True
        self.queue = []
        for w in self.workers:
            try:
                os.kill(w.pid, signal.SIGKILL)
                os.waitpid(w.pid, 0)
            except OSError:
                pass
            w.sock.close()
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _apply(func, args, kwds):
    return func(*args, **kwds)


class _Result:
    def __init__(self, pool, n, ismap, callback, error_callback):
        self.pool, self.left, self.ismap = pool, n, ismap
        self.vals = [None] * n
        self.err = None
        self.cb, self.ecb = callback, error_callback

    def _set(self, i, res):
        ok, v = res
        if ok:
            self.vals[i] = v
        elif self.err is None:
            self.err = v
        self.left -= 1
        if self.left == 0:
            if self.err is None and self.cb:
                self.cb(self._value())
            elif self.err is not None and self.ecb:
                self.ecb(self.err)

    def _value(self):
        return sum(self.vals, []) if self.ismap else self.vals[0]

    def ready(self):
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("not ready")
        return self.err is None

    def wait(self, timeout=None):
        while self.left:
            if not self.pool._step():
                raise SimHang("no worker can go on, {} tasks are missing".format(self.left))

    def get(self, timeout=None):
        self.wait()
        if self.err is not None:
            raise self.err
        return self._value()


class SimExecutor:
    """concurrent.futures.ProcessPoolExecutor over the same workers"""
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.pool = SimPool(max_workers, initializer, initargs)

    def submit(self, fn, *args, **kw):
        from concurrent.futures import Future
        job = self.pool.apply_async(fn, args, kw)

        class F(Future):
            def result(s, timeout=None):
                return job.get()

            def exception(s, timeout=None):
                job.wait()
                return job.err

            def done(s):
                job.wait()
                return True
        f = F()
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        jobs = [self.pool.apply_async(fn, a) for a in zip(*its)]

        def gen():
            for j in jobs:
                yield j.get()
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.close()
        if self.pool.workers:
            self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def as_completed(fs, timeout=None):
    return iter(list(fs))


def _readn(fd, n):
    b = b''
    while len(b) < n:
        try:
            x = os.read(fd, n - len(b))
        except ConnectionResetError:
            x = b''
        if not x:
            raise EOFError
        b += x
    return b


def _writen(fd, b):
    while b:
        try:
            n = os.write(fd, b)
        except (BrokenPipeError, ConnectionResetError):
            raise EOFError
        b = b[n:]


def install():
    import multiprocessing, multiprocessing.context, multiprocessing.pool, concurrent.futures, concurrent.futures.process
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
    multiprocessing.cpu_count = lambda: CFG.get('ncpu', 4)
    os.cpu_count = lambda: CFG.get('ncpu', 4)
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.as_completed = as_completed
