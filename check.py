#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--n N]   seeded search for one property
   check.py --replay FILE                          rerun a recorded violation exactly
   check.py --build                                build the interposition library"""
import copy, hashlib, importlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
sys.path.insert(0, SIM)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SHM_SIZE = 48 << 20


def build():
    src = os.path.join(SIM, 'simshim.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:12]
    for d in (os.path.join(HERE, 'build'), os.path.join(tempfile.gettempdir(), 'sldr-sim-build')):
        out = os.path.join(d, 'simshim-%s.so' % tag)
        if os.path.exists(out):
            return out
        try:
            os.makedirs(d, exist_ok=True)
            tmp = out + '.%d' % os.getpid()
            for cc in ('gcc', 'clang', 'cc'):
                if shutil.which(cc) and subprocess.run([cc, '-O2', '-shared', '-fPIC', '-o', tmp, src, '-ldl']).returncode == 0:
                    os.replace(tmp, out)
                    return out
        except OSError:
            continue
    sys.exit("cannot build the interposition library")


class HarnessError(Exception):
    pass


class Host:
    """One zygote interpreter with its own scratch tree and shared plan"""
    def __init__(self, base, name, lib, hashseed, heap=0):
        self.dir = os.path.join(base, name)
        os.makedirs(self.dir)
        self.shm = os.path.join(self.dir, 'shm')
        with open(self.shm, 'wb') as f:
            f.truncate(SHM_SIZE)
        env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': self.dir, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
               'PYTHONPATH': '/repo/lib', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(base, 'pyc'),
               'PYTHONHASHSEED': str(hashseed), 'SIM_SHM': self.shm, 'SIM_LIB': lib, 'LD_PRELOAD': lib, 'SIM_HEAP': str(heap),
               'LANGTAGSPATH': os.path.join(SIM, 'langtags.json')}
        cmd = [PY, os.path.join(SIM, 'host.py'), os.path.join(self.dir, 's')]
        sr = shutil.which('setarch')
        if sr and subprocess.run([sr, '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            cmd = [sr, '-R'] + cmd
        os.makedirs(os.path.join(self.dir, 's'))
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=os.path.join(self.dir, 's'))
        l = self.p.stdout.readline()
        if b'ready' not in l:
            raise HarnessError("host did not start")
        self.n = 0

    def run(self, prop, case, trace=False, cpu=120, wall=400):
        self.n += 1
        self.p.stdin.write(json.dumps({'id': self.n, 'prop': prop, 'case': case, 'trace': trace, 'cpu': cpu, 'wall': wall}).encode() + b'\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise HarnessError("host died")
        return json.loads(l)

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Farm:
    def __init__(self, n, hashseed, variants=()):
        """n hosts with the same hash seed, and for each of them one host per (hash seed, heap) of variants"""
        self.lib = build()
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (4 << 30) else None
        self.base = tempfile.mkdtemp(prefix='sldrsim', dir=root)
        ths = []
        errs = []
        seeds = [(hashseed, 0)] * n + list(variants) * n
        every = [None] * len(seeds)

        def mk(i):
            try:
                every[i] = Host(self.base, 'h%d' % i, self.lib, *seeds[i])
            except BaseException as e:
                errs.append(e)
        self.every = every
        for i in range(len(seeds)):
            t = threading.Thread(target=mk, args=(i,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if errs:
            self.close()
            raise errs[0]
        self.hosts = every[:n]
        self.group = {h: every[n + k * len(variants):n + (k + 1) * len(variants)] for k, h in enumerate(self.hosts)}

    def close(self):
        for h in self.every:
            if h:
                h.stop()
        shutil.rmtree(self.base, ignore_errors=True)

    def each(self, fn):
        """fn(host, k) on every host in parallel until it returns False"""
        errs = []

        def loop(h, k):
            try:
                while fn(h, k):
                    pass
            except BaseException as e:
                errs.append(e)
        ths = [threading.Thread(target=loop, args=(h, k)) for k, h in enumerate(self.hosts)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]


def verdict(prop, res):
    """None if the case passed, else (kind, message)"""
    if 'harness' in res:
        raise HarnessError(res['harness'])
    if 'hang' in res:
        return ('hang', 'the run does not end (%s limit)' % res['hang'])
    if res.get('ok'):
        return None
    return (res['kind'], res['msg'])


# ---- minimisation

LISTS = ('ops', 'rules', 'c', 'm', 'e', 'docs', 'edits', 'props', 'lines', 'cuts', 'faults', 'locs', 'acts', 'files', 'after', 'clk', 'branches', 'bodies', 'rows')
DROP = ('a', 'm', 'e', 'style', 'x')


def candidates(case, prop):
    """Simpler cases, biggest steps first"""
    paths = []

    def walk(v, p):
        if isinstance(v, dict):
            for k in sorted(v):
                if isinstance(v[k], list) and k in LISTS and v[k]:
                    paths.append((p + (k,), len(v[k])))
                walk(v[k], p + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                walk(x, p + (i,))
    walk(case, ())
    paths.sort(key=lambda x: (len(x[0]), -x[1]))

    def at(c, p):
        for k in p:
            c = c[k]
        return c
    for p, n in paths:
        size = n
        while size >= 1:
            for s in range(0, n, size):
                if size == n and p[-1] in ('ops', 'docs', 'branches') and n > 1:
                    continue
                c = copy.deepcopy(case)
                l = at(c, p)
                del l[s:s + size]
                yield c
            size //= 2
    if hasattr(prop, 'simplify'):
        yield from prop.simplify(case)
    # scalars
    def scal(v, p):
        if isinstance(v, dict):
            for k in sorted(v):
                scal(v[k], p + (k,))
            if 't' in v:
                for k in ('a',):
                    for k2 in list(v.get(k, {})) if isinstance(v.get(k), dict) else []:
                        if k2 not in ('type', 'id', 'name'):
                            drops.append(p + (k, k2))
                if isinstance(v.get('x'), str) and len(v['x']) > 1 and v['t'] != 'cr':
                    texts.append(p + ('x',))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                scal(x, p + (i,))
    drops, texts = [], []
    scal(case, ())
    for p in drops:
        c = copy.deepcopy(case)
        del at(c, p[:-1])[p[-1]]
        yield c
    for p in texts:
        c = copy.deepcopy(case)
        at(c, p[:-1])[p[-1]] = 'x'
        yield c
    if isinstance(case.get('style'), dict) and case['style']:
        for k in list(case['style']):
            if case['style'][k]:
                c = copy.deepcopy(case)
                c['style'][k] = 0 if k not in ('ind', 'nl', 'ns') else {'ind': '\t', 'nl': '\n', 'ns': 'top'}[k]
                if c != case:
                    yield c


def minimise(farm, prop, pid, case, kind, evaluate, budget):
    end = time.monotonic() + budget
    best = case
    tried = set()
    evals = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        gen = candidates(best, prop)
        while time.monotonic() < end and not progress:
            batch = []
            for c in gen:
                s = json.dumps(c, sort_keys=True)
                if s in tried:
                    continue
                tried.add(s)
                batch.append(c)
                if len(batch) == len(farm.hosts):
                    break
            if not batch:
                break
            out = [None] * len(batch)

            def one(h, k):
                if k < len(batch):
                    try:
                        out[k] = evaluate(h, batch[k])
                    except HarnessError:
                        out[k] = None
                return False
            farm.each(one)
            evals += len(batch)
            for c, o in zip(batch, out):
                if o and o[0] == kind:
                    best = c
                    progress = True
                    break
    return best, evals


def known_findings():
    res = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8') as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', l)
                if m:
                    res[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return res


def rss_guard():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_check(pid, tier, n=None, only=None):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = importlib.import_module('props.' + pid.lower())
    total = n or prop.N[tier]
    variants = getattr(prop, 'VARIANTS', 0)
    if isinstance(variants, dict):
        variants = variants[tier]
    cap = getattr(prop, 'CAP', {}).get(tier, 420 if tier == 'quick' else 6 * 3600)
    ncpu = min(8, os.cpu_count() or 1)
    hashseed = 1 + (seed * 7919) % 4000000000
    vlist = [(1 + (hashseed * (k + 3)) % 4294967295, k + 1) for k in range(variants or 0)]
    farm = Farm(ncpu, hashseed, vlist)
    known = known_findings()
    agg = {'stats': {}, 'simtime': 0, 'events': 0, 'runs': 0, 'invalid': 0}
    states, fps, samples, bad, kn, mismatch = set(), set(), [], [], {}, []
    lock = threading.Lock()
    idx = [0]
    stop = [None]
    selfcheck = {}

    def mkcase(i):
        r = random.Random('%s/%d/%d' % (pid, seed, i))
        c = prop.gen(r, i, tier)
        return json.loads(json.dumps(c))

    def note(i, case, res):
        agg['runs'] += 1
        if res.get('invalid'):
            agg['invalid'] += 1
        for k, v in res.get('stats', {}).items():
            agg['stats'][k] = agg['stats'].get(k, 0) + v
        agg['simtime'] += res.get('simtime', 0)
        agg['events'] += res.get('nev', 0)
        states.update(res.get('states', ()))
        if res.get('nontrivial'):
            fps.add(res.get('ev'))
        if len(samples) < 3 and res.get('nontrivial'):
            samples.append({'index': i, 'case': case, 'events': res.get('nev'), 'note': res.get('note')})

    def work(h, k):
        with lock:
            i = idx[0]
            if i >= total or (stop[0] is not None and i > stop[0]) or time.monotonic() - t0 > cap:
                return False
            idx[0] += 1
        case = mkcase(i)
        res = h.run(pid, case)
        v = verdict(prop, res)
        if v is None and variants:
            v = variant(h, case, res)
        with lock:
            note(i, case, res)
            if v is None:
                for kk in (res.get('known') or []):
                    kn.setdefault(kk, i)
                if i % 37 == 0 and len(selfcheck) < 8:
                    selfcheck[i] = (case, res.get('ev'), h)
            else:
                key = res.get('key')
                if key and (pid, key) in known:
                    kn.setdefault(key, i)
                else:
                    bad.append((i, case, v))
                    if stop[0] is None or i < stop[0]:
                        stop[0] = i
        return True

    def variant(h, case, res):
        """the same case in processes with other hash seeds and heaps must give the same output"""
        for vh in farm.group[h]:
            v = variant_one(prop, pid, vh, case, res)
            agg['variants'] = agg.get('variants', 0) + 1
            if v:
                return v
        return None

    try:
        farm.each(work)
        # determinism: the same case again on another host must take the same course
        for i, (case, ev, h) in selfcheck.items():
            other = farm.hosts[(farm.hosts.index(h) + 1) % len(farm.hosts)]
            r2 = other.run(pid, case)
            if r2.get('ev') != ev:
                mismatch.append(i)
        viol = None
        if bad:
            bad.sort(key=lambda x: x[0])
            i, case, v = bad[0]

            def evaluate(h, c):
                res = h.run(pid, c, cpu=60, wall=120)
                vv = verdict(prop, res)
                if vv is None and variants and v[0] == 'process-dependent':
                    vv = variant(h, c, res)
                if vv and res.get('key') and (pid, res['key']) in known:
                    return None
                return vv
            budget = float(os.environ.get('SIM_SHRINK', 60 if tier == 'quick' else 300))
            small, evals = (case, 0) if v[0] == 'hang' else minimise(farm, prop, pid, case, v[0], evaluate, budget)
            res = farm.hosts[0].run(pid, small, trace=True)
            v2 = verdict(prop, res) or (variant(farm.hosts[0], small, res) if variants else None)
            if v2 is None:
                small, v2 = case, v
                res = farm.hosts[0].run(pid, small, trace=True)
            rdir = os.path.join(HERE, 'replays')
            try:
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, '%s-seed%d-%d.json' % (pid, seed, i))
                f = open(rp, 'w')
            except OSError:
                rp = os.path.join(tempfile.gettempdir(), '%s-seed%d-%d.json' % (pid, seed, i))
                f = open(rp, 'w')
            with f:
                json.dump({'property': pid, 'seed': seed, 'index': i, 'kind': v2[0], 'message': v2[1], 'hashseed': hashseed, 'variants': vlist, 'case': small, 'original_case': case,
                           'minimisation_runs': evals, 'events': res.get('ev'), 'trace': res.get('trace')}, f, indent=1, ensure_ascii=False)
            viol = (i, v2, rp)
    finally:
        farm.close()
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(agg['stats'].items()) if k.startswith('fault:')}
    other = {k: v for k, v in sorted(agg['stats'].items()) if not k.startswith('fault:')}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.LEVEL if hasattr(prop, 'LEVEL') else 'exploration',
          'coverage': {
              'evaluations': agg['runs'], 'distinct_nontrivial': len(fps), 'rule': prop.RULE,
              'samples': samples, 'simulated_runs': agg['runs'], 'planned_runs': total, 'invalid_cases': agg['invalid'],
              'seeds_per_hour': int(agg['runs'] * 3600 / max(wall, .001)), 'simulated_time_s': agg['simtime'] / 1e9,
              'faults_injected': faults, 'counters': other, 'events': agg['events'],
              'distinct_states': len(states), 'state_measure': getattr(prop, 'STATES', 'distinct event logs (system calls, outcomes, outputs)'),
              'variant_runs': agg.get('variants', 0),
              'determinism_rechecks': len(selfcheck), 'determinism_mismatches': mismatch,
              'real_components': prop.REAL, 'stub_components': getattr(prop, 'STUB', 'none'),
              'known_findings_seen': sorted(kn)},
          'assumptions': getattr(prop, 'ASSUME', []), 'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in sorted(kn):
        print('KNOWN-FINDING: property={} {}'.format(pid, known.get((pid, k), k)))
    print('{}: {} runs ({} distinct), {} events, faults {}, {:.1f} s'.format(pid, agg['runs'], len(fps), agg['events'], sum(faults.values()), wall))
    if mismatch:
        print('note: runs {} did not repeat exactly'.format(mismatch))
    if viol:
        print('{} (run {}): {}'.format(viol[1][0], viol[0], viol[1][1]))
        print('VIOLATION property={} replay={}'.format(pid, viol[2]))
        return 1
    return 0


def variant_one(prop, pid, vh, case, res):
    r2 = vh.run(pid, case)
    v = verdict(prop, r2)
    if v:
        return ('process-dependent', 'with another hash seed and heap layout: {}: {}'.format(*v))
    if r2.get('out') != res.get('out'):
        return ('process-dependent', 'output under another hash seed and heap layout differs: ' + first_diff(r2.get('out'), res.get('out')))
    return None


def first_diff(a, b):
    sa, sb = json.dumps(a, ensure_ascii=False, sort_keys=True), json.dumps(b, ensure_ascii=False, sort_keys=True)
    for i, (x, y) in enumerate(zip(sa, sb)):
        if x != y:
            return '...{!r} / ...{!r}'.format(sa[max(0, i - 80):i + 80], sb[max(0, i - 80):i + 80])
    return 'lengths {} / {}'.format(len(sa), len(sb))


def replay(path):
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    pid = d['property']
    prop = importlib.import_module('props.' + pid.lower())
    farm = Farm(1, d['hashseed'], [tuple(x) for x in d.get('variants') or ()])
    try:
        res = farm.hosts[0].run(pid, d['case'], trace=True)
        v = verdict(prop, res)
        if v is None:
            for h in farm.group[farm.hosts[0]]:
                v = variant_one(prop, pid, h, d['case'], res)
                if v:
                    break
    finally:
        farm.close()
    for t in res.get('trace') or []:
        print('  ', t)
    print('same course as recorded:', res.get('ev') == d.get('events'))
    if v:
        print('{}: {}'.format(*v))
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    print('no violation')
    return 0


def main():
    rss_guard()
    a = sys.argv[1:]
    if a and a[0] == '--build':
        print(build())
        return 0
    if a and a[0] == '--replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    n = None
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--n' in a:
        n = int(a[a.index('--n') + 1])
    return run_check(a[0], tier, n)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except HarnessError as e:
        print("harness error:", e, file=sys.stderr)
        sys.exit(2)
