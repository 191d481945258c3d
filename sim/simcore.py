"""In-process side of the simulator: the plan and journal shared with the LD_PRELOAD seam, forked
simulated processes, event log and violation reporting.  A run is a pure function of its case."""
import ctypes, errno, hashlib, json, mmap, os, pickle, re, resource, shutil, signal, struct, sys, traceback

OPS = ['openr', 'openw', 'read', 'write', 'close', 'fsync', 'rename', 'unlink', 'mkdir', 'trunc',
       'chmod', 'list', 'link', 'rmdir']
OPBIT = {n: 1 << i for i, n in enumerate(OPS)}
ALLOPS = (1 << len(OPS)) - 1
MUTATING = sum(OPBIT[x] for x in ('openw', 'write', 'close', 'fsync', 'rename', 'unlink', 'mkdir', 'trunc', 'chmod', 'link', 'rmdir'))
ACTIONS = ['none', 'err', 'short', 'crash_before', 'crash_after', 'torn', 'sigint', 'limit']


_long = re.compile(r'\d{9,}')


class Violation(Exception):
    def __init__(self, kind, msg, key=None):
        super().__init__("{}: {}".format(kind, msg))
        self.kind = kind
        self.msg = msg
        self.key = key

    def __reduce__(self):
        return Violation, (self.kind, self.msg, self.key)


class InvalidCase(Exception):
    """The case makes no sense (only arises while minimising)."""


class Rule(ctypes.Structure):
    _fields_ = [('opmask', ctypes.c_uint32), ('nth', ctypes.c_uint32), ('count', ctypes.c_uint32),
                ('action', ctypes.c_uint32), ('arg', ctypes.c_int32), ('hits', ctypes.c_uint32),
                ('fired', ctypes.c_uint32), ('suffix', ctypes.c_uint32), ('sub', ctypes.c_char * 96)]


class Clk(ctypes.Structure):
    _fields_ = [('at', ctypes.c_uint32), ('pad', ctypes.c_uint32), ('delta', ctypes.c_int64)]


class Hdr(ctypes.Structure):
    _fields_ = [('magic', ctypes.c_uint32), ('enabled', ctypes.c_uint32), ('nrules', ctypes.c_uint32), ('opseq', ctypes.c_uint32),
                ('yield_on', ctypes.c_uint32), ('crashed', ctypes.c_uint32), ('escapes', ctypes.c_uint32), ('listseed', ctypes.c_uint32),
                ('clock_ns', ctypes.c_uint64), ('clock_step', ctypes.c_uint64),
                ('clock_reads', ctypes.c_uint32), ('nclk', ctypes.c_uint32), ('clk', Clk * 16),
                ('rnd', ctypes.c_uint64),
                ('arena_used', ctypes.c_uint32), ('arena_cap', ctypes.c_uint32), ('overflow', ctypes.c_uint32), ('fakepid', ctypes.c_uint32),
                ('yields', ctypes.c_uint32), ('sigints', ctypes.c_uint32), ('shortreads', ctypes.c_uint32), ('pad2', ctypes.c_uint32),
                ('root', (ctypes.c_char * 256) * 4), ('lastescape', ctypes.c_char * 256), ('rules', Rule * 32)]


class Rec:
    __slots__ = ('op', 'ret', 'err', 'wid', 'extra', 'p1', 'p2', 'data', 'died')

    def __repr__(self):
        return "{}{}({}{}){}".format(self.op, "!" if self.died else "", self.p1, " -> " + self.p2 if self.p2 else "",
                                      " = {}{}".format(self.ret, " " + errno.errorcode.get(self.err, str(self.err)) if self.err else ""))


class Outcome:
    """What a simulated process did: kind is ok, exc, exit, crash or hang"""
    kind = None; value = None; exc = None; code = 0; out = ''; err = ''; journal = (); where = None; fired = (); tb = ''; extra = None

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        return "<{} {} {!r}>".format(self.kind, self.code, self.exc)


def lib_frame(tb):
    """True if the innermost frame of the traceback that is either ours or the repository's is the repository's"""
    last = None
    for f in traceback.extract_tb(tb):
        if '/repo/' in f.filename or f.filename.startswith('/repo'):
            last = 'repo'
        elif f.filename.startswith(VERIF):
            last = 'verif'
    return last == 'repo'

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sim:
    def __init__(self, scratch, shm=None):
        self.scratch = scratch
        self.root = os.path.join(scratch, 'r')
        self.hdir = os.path.join(scratch, 'h')
        self.log = hashlib.sha256()
        self.nev = 0
        self.trace = None           # a list when the replay wants the whole trace
        self.stats = {}
        self.simtime = 0
        self.states = set()
        self.allev = 0
        shm = shm or os.environ.get('SIM_SHM')
        self.H = None
        if shm:
            fd = os.open(shm, os.O_RDWR)
            self.mm = mmap.mmap(fd, 0)
            os.close(fd)
            self.H = Hdr.from_buffer(self.mm)
            self.lib = ctypes.CDLL(os.environ['SIM_LIB'])
            assert self.H.magic == 0x51D17001, "preload library is not active"
            assert self.lib.sim_sizeof() == ctypes.sizeof(Hdr)
            self.aoff = self.lib.sim_arena_off()

    def realpid(self):
        en = self.H.enabled
        self.H.enabled = 0
        p = os.getpid()
        self.H.enabled = en
        return p

    # ---- bookkeeping
    def count(self, k, n=1):
        if n:
            self.stats[k] = self.stats.get(k, 0) + n

    def event(self, *a):
        s = _long.sub('#', repr(a).replace(self.scratch, '$S'))
        self.log.update(s.encode('utf-8', 'surrogatepass'))
        self.nev += 1
        if self.trace is not None:
            self.trace.append(s if len(s) < 600 else s[:600] + '...')

    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).replace(self.scratch, '$S').encode('utf-8', 'surrogatepass')).hexdigest()[:16])

    def norm(self, s):
        return s.replace(self.root, '$R').replace(self.scratch, '$S')

    # ---- tree helpers (outside any fault plan)
    def fresh(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.hdir, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(self.hdir)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def put(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
        return p

    def get(self, rel):
        try:
            with open(self.path(rel), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def snapshot(self, sub='', temps=False):
        """{relative path: bytes} of all files under root/sub"""
        res = {}
        base = self.path(sub) if sub else self.root
        for d, dn, fn in os.walk(base):
            for f in fn:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    res[os.path.relpath(p, base)] = b'->' + os.readlink(p).encode()
                    continue
                with open(p, 'rb') as h:
                    res[os.path.relpath(p, base)] = h.read()
        return res

    def restore(self, snap, sub=''):
        base = self.path(sub) if sub else self.root
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        for k, v in snap.items():
            self.put(os.path.join(sub, k) if sub else k, v)

    def versions(self):
        """(relative path, bytes) after every completed save of a tool run with versions=True"""
        d = os.path.join(self.hdir, 'ver')
        if not os.path.isdir(d):
            return
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), 'rb') as h:
                p, b = h.read().split(b'\0', 1)
            yield p.decode(), b

    # ---- the plan
    def plan(self, rules=(), listseed=0, clock=None, clk=(), step=1000, pid=4242, rnd=1, yield_on=0, refs=None):
        H = self.H
        H.enabled = 0
        H.nrules = len(rules)
        H.opseq = H.crashed = H.escapes = H.clock_reads = H.arena_used = H.overflow = H.yields = H.sigints = H.shortreads = 0
        H.lastescape = b''
        H.listseed = listseed
        H.clock_ns = int(clock * 1000000000) if clock is not None else 0
        self.clock0 = H.clock_ns
        H.clock_step = step
        H.nclk = len(clk)
        for i, (at, d) in enumerate(clk):
            H.clk[i].at = at
            H.clk[i].delta = int(d * 1000000000)
        H.fakepid = pid
        H.rnd = rnd
        H.yield_on = yield_on
        H.root[0].value = self.root.encode()
        H.root[1].value = (refs or '').encode()
        H.root[2].value = self.hdir.encode()
        assert len(rules) <= 32
        for i, r in enumerate(rules):
            R = H.rules[i]
            ops = r.get('ops', 'all')
            R.opmask = ALLOPS if ops == 'all' else MUTATING if ops == 'mut' else sum(OPBIT[o] for o in ops.split('+'))
            R.nth = r.get('nth', 1)
            R.count = r.get('count', 1)
            R.action = ACTIONS.index(r['act'])
            a = r.get('arg', 0)
            R.arg = getattr(errno, a) if isinstance(a, str) else a
            R.hits = R.fired = 0
            sub = r.get('sub', '')
            R.suffix = {'$': 1, '^': 2}.get(sub[:1], 0)
            R.sub = sub.lstrip('$^').encode()
        self.rules = rules

    def journal(self):
        res = []
        H = self.H
        pos = self.aoff
        end = pos + H.arena_used
        while pos < end:
            tot, op, ret, err, wid, extra, l1, l2, dl = struct.unpack_from('<IIiIIIIII', self.mm, pos)
            q = pos + 36
            r = Rec()
            r.died = bool(op & 0x100)
            r.op = OPS[op & 0xff]
            r.ret, r.err, r.wid, r.extra = ret, err, wid, extra
            r.p1 = self.mm[q:q + l1].decode('utf-8', 'surrogateescape'); q += l1
            r.p2 = self.mm[q:q + l2].decode('utf-8', 'surrogateescape') if l2 else ''; q += l2
            r.data = self.mm[q:q + dl]
            res.append(r)
            pos += tot
        if H.overflow:
            raise RuntimeError("journal overflow")
        return res

    def endplan(self):
        """Collect what happened under the plan"""
        H = self.H
        H.enabled = 0
        j = self.journal()
        for r in j:
            self.event('op', r.op, r.ret if r.op not in ('openr', 'openw') else r.ret >= 0, r.err, r.wid, r.p1, r.p2,
                       hashlib.sha1(r.data).hexdigest()[:12] if r.data else '', r.died)
        self.count('ops', H.opseq)
        fired = []
        for i, r in enumerate(self.rules):
            n = H.rules[i].fired
            fired.append(n)
            if n:
                a = r.get('arg', 0)
                name = 'fault:{}{}@{}'.format(r['act'], ':' + a if isinstance(a, str) else '', r.get('ops', 'all'))
                self.count(name, n)
        if H.clock_ns:
            self.simtime += abs(H.clock_ns - self.clock0) + sum(abs(H.clk[i].delta) for i in range(H.nclk) if H.clk[i].at < H.clock_reads)
            self.count('clock_reads', H.clock_reads)
        if H.escapes:
            self.count('escapes', H.escapes)
        self.hits = [H.rules[i].hits for i in range(len(self.rules))]
        self.escape = H.lastescape.decode() if H.escapes else None
        return j, fired

    # ---- simulated processes
    def proc(self, fn, *args, cpu=30, capture=True, **plan):
        """Run fn(*args) in a forked process under the plan; report its fate."""
        self.plan(**plan)
        rfd, wfd = os.pipe()
        of, ef = os.path.join(self.hdir, 'out'), os.path.join(self.hdir, 'err')
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.close(rfd)
                os.setpgid(0, 0)
                res = self._child(fn, args, of, ef, cpu, capture)
                self.H.enabled = 0
                data = pickle.dumps(res)
                with os.fdopen(wfd, 'wb') as f:
                    f.write(data)
                code = 0
            except (Violation, InvalidCase) as e:
                self.H.enabled = 0
                os.write(wfd, b'?' + pickle.dumps(e))
            except BaseException:
                self.H.enabled = 0
                try:
                    os.write(wfd, b'!' + traceback.format_exc().encode())
                except OSError:
                    pass
            finally:
                os._exit(code)
        os.close(wfd)
        data = b''
        with os.fdopen(rfd, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)      # any left over workers
        except OSError:
            pass
        o = Outcome()
        crashed = bool(self.H.crashed)
        self.H.enabled = 0
        o.journal, o.fired = self.endplan()
        o.hits = self.hits
        o.escape = self.escape
        o.crashed = crashed
        if crashed:
            o.kind = 'crash'
            o.code = 137
            self.count('crashes')
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            o.kind = 'hang'
        elif data[:1] == b'?':
            raise pickle.loads(data[1:])
        elif data[:1] == b'!' or not data:
            raise RuntimeError("harness failure in simulated process: {} {}".format(st, data[1:].decode(errors='replace')))
        else:
            o.kind, o.value, o.exc, o.code, o.where, o.tb, o.extra = pickle.loads(data)
        if capture:
            for n, p in (('out', of), ('err', ef)):
                try:
                    with open(p, 'rb') as f:
                        setattr(o, n, self.norm(f.read().decode('utf-8', 'replace')))
                except OSError:
                    pass
        self.event('proc', o.kind, o.code, self.norm(str(o.exc)) if o.exc else None, o.out)
        if o.escape:
            raise Violation('escape', "code under test tried to change {} outside its tree".format(self.norm(o.escape)))
        return o

    def _child(self, fn, args, of, ef, cpu, capture):
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        if capture:
            for n, p in ((1, of), (2, ef)):
                fd = os.open(p, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o666)
                os.dup2(fd, n)
                os.close(fd)
            import io
            sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'w', closefd=False)), encoding='utf-8', errors='surrogateescape')
            sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, 'w', closefd=False)), encoding='utf-8', errors='backslashreplace', line_buffering=True)
        kind, value, exc, code, where, tb = 'ok', None, None, 0, None, ''
        self.extra = None
        self.H.enabled = 1
        try:
            value = fn(*args)
        except Violation:
            self.H.enabled = 0
            raise
        except SystemExit as e:
            kind = 'exit'
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if not isinstance(e.code, (int, type(None))):
                print(e.code, file=sys.stderr)
        except BaseException as e:
            kind = 'hang' if type(e).__name__ in ('SimHang', 'SimDeadlock') else 'exc'
            code = 1
            exc = "{}: {}".format(type(e).__name__, e)
            where = 'repo' if lib_frame(e.__traceback__) else 'other'
            tb = traceback.format_exc()
            if capture:
                print(tb, file=sys.stderr)
        if capture:
            try:
                sys.stdout.flush()
                sys.__stdout__.flush()
                sys.stderr.flush()
            except Exception:
                pass
        self.H.enabled = 0
        return (kind, value, exc, code, where, tb, self.extra)

    # ---- inline plans (no fork): used where the process itself must survive the faults
    def inline(self, fn, *args, **plan):
        """Run fn under the plan in this process. Returns (value, exception)"""
        self.plan(**plan)
        old = signal.signal(signal.SIGINT, signal.default_int_handler)
        v = e = None
        self.H.enabled = 1
        try:
            v = fn(*args)
        except BaseException as x:
            e = x
        finally:
            self.H.enabled = 0
            signal.signal(signal.SIGINT, old)
        self.lastjournal, self.lastfired = self.endplan()
        self.event('inline', self.norm(repr(e)) if e is not None else None)
        if self.escape:
            raise Violation('escape', "code under test tried to change {} outside its tree".format(self.norm(self.escape)))
        return v, e


def powerloss_states(before, journal, root, rng=None, maxn=12):
    """Trees a machine losing power at the end of the journal may come back with.  before: {abspath: bytes}
    at the start.  Metadata operations persist in order (any prefix not ordered before by an fsync);
    data not synced when power went may be lost wholly or from any point on.  Yields {abspath: bytes}."""
    # inodes: content events; names: metadata events
    ops = []
    inode = {}          # path -> inode id
    content = {}        # inode -> list of (kind, off, data) applied
    nid = [0]
    names0 = {}
    base = {}
    for p, d in before.items():
        nid[0] += 1
        names0[p] = nid[0]
        base[nid[0]] = d
    cur = dict(names0)
    data_ev = []        # (seq, inode, 'w'/'t', off, bytes)
    meta_ev = []        # (seq, fn)
    synced = {}         # inode -> seq upto which data is durable
    barrier = 0         # metadata with seq < barrier is durable
    for seq, r in enumerate(journal):
        if r.err or r.ret < 0:
            continue
        if r.op == 'openw':
            flags = r.extra
            existed = struct.unpack('<i', r.data)[0] if r.data else 1
            if not existed or r.p1 not in cur:
                nid[0] += 1
                i = nid[0]
                base[i] = b''
                cur[r.p1] = i
                meta_ev.append((seq, 'create', r.p1, i))
            elif flags & os.O_TRUNC:
                data_ev.append((seq, cur[r.p1], 't', 0, b''))
        elif r.op == 'write':
            if r.p1 in cur:
                data_ev.append((seq, cur[r.p1], 'w', r.extra, r.data))
        elif r.op == 'trunc':
            if r.p1 in cur:
                data_ev.append((seq, cur[r.p1], 't', r.extra, b''))
        elif r.op == 'fsync':
            if r.p1 in cur:
                synced[cur[r.p1]] = seq
                barrier = seq
        elif r.op == 'rename':
            if r.p1 in cur:
                i = cur.pop(r.p1)
                cur[r.p2] = i
                meta_ev.append((seq, 'rename', r.p1, r.p2))
        elif r.op == 'unlink':
            if r.p1 in cur:
                cur.pop(r.p1)
                meta_ev.append((seq, 'unlink', r.p1, None))
    mandatory = sum(1 for m in meta_ev if m[0] < barrier)
    inodes = sorted({d[1] for d in data_ev})

    def build(k, choice):
        names = dict(names0)
        for m in meta_ev[:k]:
            if m[1] == 'create':
                names[m[2]] = m[3]
            elif m[1] == 'rename':
                if m[2] in names:
                    names[m[3]] = names.pop(m[2])
            else:
                names.pop(m[2], None)
        res = {}
        for p, i in names.items():
            buf = bytearray(base[i])
            for seq, ino, kind, off, d in data_ev:
                if ino != i:
                    continue
                durable = seq < synced.get(i, -1)
                if not durable:
                    c = choice(i)
                    if c == 'none':
                        continue
                    if c == 'part':
                        d = d[:len(d) // 2]
                if kind == 't':
                    del buf[off:]
                else:
                    if len(buf) < off:
                        buf.extend(b'\0' * (off - len(buf)))
                    buf[off:off + len(d)] = d
            res[p] = bytes(buf)
        return res
    for k in range(mandatory, len(meta_ev) + 1):
        for c in ('none', 'part', 'all'):
            yield (k, c), build(k, lambda i: c)
