"""Runs one of the repository's command line tools as the main program of a simulated process, with the
network, external commands and process pools behind seams."""
import io, json, os, random, sys, types

import simpool

SCRIPTS = '/repo/scripts'


class Net:
    """The simulated network: answers[url-prefix] = list of behaviours consumed in order (the last one stays).
    behaviour: {'body': text} | {'status': 500, 'body':..} | {'fail': 'reset'|'timeout'|'dns'} | {'cut': n}"""
    def __init__(self, cfg):
        self.cfg = cfg or {}
        self.calls = 0

    def answer(self, url):
        self.calls += 1
        for p, bs in self.cfg.items():
            if url.startswith(p):
                return bs[min(self.calls - 1, len(bs) - 1)]
        return {'status': 404, 'body': ''}


def record_versions(sim):
    """Keep what every completed save left in its file"""
    from sldr.ldml import ETWriter
    d = os.path.join(sim.hdir, 'ver')
    os.makedirs(d, exist_ok=True)
    orig = ETWriter.save_as

    def save_as(self, fname, *a, **kw):
        res = orig(self, fname, *a, **kw)
        en = sim.H.enabled
        sim.H.enabled = 0
        try:
            with open(fname, 'rb') as f:
                data = f.read()
            with open(os.path.join(d, '%d-%d' % (os.getpid(), len(os.listdir(d)))), 'wb') as f:
                f.write(os.path.relpath(fname, sim.root).encode() + b'\0' + data)
        finally:
            sim.H.enabled = en
        return res
    ETWriter.save_as = save_as


def run_tool(sim, name, argv, cwd=None, pool=None, net=None, cmds=None, versions=False):
    """Body of a simulated process (use through sim.proc)"""
    simpool.SIM = sim
    simpool.CFG.clear()
    simpool.CFG.update(pool or {})
    simpool.STATS.update(steps=0, switches=0, order=[])
    was = sim.H.enabled
    sim.H.enabled = 0
    simpool.install()
    network = Net(net)
    import requests, urllib.request, urllib.error, subprocess

    def get(url, *a, **kw):
        b = network.answer(url)
        f = b.get('fail')
        if f == 'timeout':
            raise requests.exceptions.Timeout("simulated timeout")
        if f:
            raise requests.exceptions.ConnectionError("simulated " + f)
        r = requests.Response()
        r.status_code = b.get('status', 200)
        body = b.get('body', '').encode('utf-8')
        if 'cut' in b:
            body = body[:b['cut']]
        r._content = body
        r.encoding = 'utf-8'
        r.url = url
        return r
    requests.get = get
    requests.Session.get = lambda self, url, *a, **k: get(url)

    def urlopen(req, *a, **kw):
        url = req if isinstance(req, str) else req.full_url
        b = network.answer(url)
        f = b.get('fail')
        if f == 'timeout':
            raise TimeoutError("simulated timeout")
        if f:
            raise urllib.error.URLError("simulated " + f)
        st = b.get('status', 200)
        body = b.get('body', '').encode('utf-8')
        if st >= 400:
            raise urllib.error.HTTPError(url, st, "simulated", {}, io.BytesIO(body))
        r = io.BytesIO(body)
        r.status = r.code = st
        r.url = url
        return r
    urllib.request.urlopen = urlopen

    def check_output(cmd, *a, **kw):
        for pfx, out in (cmds or {}).items():
            if ' '.join(cmd).startswith(pfx):
                if isinstance(out, int):
                    raise subprocess.CalledProcessError(out, cmd)
                return out.replace('%args', ';'.join(os.path.relpath(a, sim.root) for a in cmd if a.startswith(sim.root))).encode('utf-8')
        raise FileNotFoundError(2, "No such file or directory", cmd[0])
    subprocess.check_output = check_output

    def run(cmd, *a, **kw):
        out = check_output(cmd)
        return subprocess.CompletedProcess(cmd, 0, out.decode() if kw.get('text') or kw.get('universal_newlines') else out, b'')
    subprocess.run = run

    if versions:
        record_versions(sim)
    path = os.path.join(SCRIPTS, name)
    with open(path, 'rb') as f:
        code = compile(f.read(), path, 'exec')
    m = types.ModuleType('__main__')
    m.__file__ = path
    m.__builtins__ = __builtins__
    sys.modules['__main__'] = m
    sys.argv = [path] + list(argv)
    sys.path[0:0] = [SCRIPTS]
    if cwd:
        os.chdir(cwd)
    sim.H.enabled = was
    try:
        exec(code, m.__dict__)
    finally:
        en = sim.H.enabled
        sim.H.enabled = 0
        for p in simpool.CFG.get('pools', []):
            p.terminate()
        sim.H.enabled = en
    return None


def tool(sim, name, argv, cwd=None, pool=None, net=None, cmds=None, versions=False, **plan):
    """Run a tool to its end (or death) in a simulated process."""
    if pool:
        plan.setdefault('yield_on', 1 if pool.get('prob', 0.3) else 0)
    o = sim.proc(run_and_report, sim, name, argv, cwd, pool, net, cmds, versions, **plan)
    if o.extra:
        sim.count('pool_steps', o.extra[0])
        sim.count('pool_switches', o.extra[1])
    return o


def run_and_report(sim, name, argv, cwd, pool, net, cmds, versions):
    try:
        run_tool(sim, name, argv, cwd, pool, net, cmds, versions)
    finally:
        s = simpool.STATS
        sim.extra = (s['steps'], s['switches'], tuple(s['order']))
