"""A zygote interpreter: imports the library once, then forks a fresh process for every case."""
import sys, os, json, signal, resource, time, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]
sys.dont_write_bytecode = True
sys.setswitchinterval(1000.)       # never switch threads on a timer


def warm():
    """import whatever the code under test uses, so that forks are cheap"""
    import simpre
    simpre.load()


def perturb(n):
    """Another heap layout: addresses of later objects come out in another order"""
    if n:
        import random
        r = random.Random(n)
        keep = [bytearray(r.choice((16, 40, 56, 72, 120, 300, 500))) for _ in range(20000)] + [[None] * r.randrange(1, 12) for _ in range(20000)]
        r.shuffle(keep)
        del keep[::2]
        perturb.keep = keep


def child(sim, prop, case, wfd, trace):
    from simcore import Violation, InvalidCase, lib_frame
    res = {}
    sim.trace = [] if trace else None
    try:
        perturb(int(os.environ.get('SIM_HEAP', '0')))
        sim.fresh()
        out = prop.run(sim, case) or {}
        res = {'ok': True, 'out': out.get('out'), 'nontrivial': bool(out.get('nontrivial', True)), 'note': out.get('note'), 'known': out.get('known')}
    except Violation as e:
        res = {'ok': False, 'kind': e.kind, 'msg': sim.norm(e.msg), 'key': e.key}
    except InvalidCase as e:
        res = {'ok': True, 'invalid': str(e), 'nontrivial': False}
    except BaseException as e:
        if lib_frame(e.__traceback__) and not isinstance(e, MemoryError):
            res = {'ok': False, 'kind': 'exception:' + type(e).__name__, 'msg': sim.norm(traceback.format_exc()[-1500:])}
        elif isinstance(e, Exception) and (isinstance(e, RecursionError) or not isinstance(e, (OSError, MemoryError, ImportError, RuntimeError))):
            # what the code gave is not of the form that it has to have (never so on a tree whose properties hold)
            res = {'ok': False, 'kind': 'unusable-result:' + type(e).__name__, 'msg': sim.norm(traceback.format_exc()[-1500:])}
        else:
            res = {'harness': traceback.format_exc()}
    if sim.H is not None:
        sim.H.enabled = 0
    res['stats'] = sim.stats
    res['simtime'] = sim.simtime
    res['ev'] = sim.log.hexdigest()[:20]
    res['nev'] = sim.nev
    res['states'] = sorted(sim.states)[:200]
    if trace:
        res['trace'] = sim.trace
    data = json.dumps(res).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def main():
    scratch = sys.argv[1]
    proto_out = os.dup(1)
    os.dup2(2, 1)
    from simcore import Sim
    warm()
    import importlib, gc
    sim = Sim(scratch)
    gc.collect()
    gc.freeze()
    os.write(proto_out, b'{"ready": true}\n')
    inp = os.fdopen(os.dup(0), 'rb')
    props = {}
    for line in inp:
        req = json.loads(line)
        if 'prop' in req and req['prop'] not in props:
            props[req['prop']] = importlib.import_module('props.' + req['prop'].lower())
            gc.collect()
            gc.freeze()
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            os.close(proto_out)
            os.setpgid(0, 0)
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 0)
            lim = int(req.get('cpu', 120))
            resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            try:
                child(sim, props[req['prop']], req['case'], wfd, req.get('trace'))
            finally:
                os._exit(0)
        os.close(wfd)
        data = b''
        dead = False
        end = time.monotonic() + float(req.get('wall', 300))
        import select
        while True:
            r, _, _ = select.select([rfd], [], [], max(0, end - time.monotonic()))
            if not r:
                dead = True
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            data += b
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if sim.H is not None:
            sim.H.enabled = 0
        if data and not dead:
            try:
                res = json.loads(data)
            except ValueError:
                res = {'harness': 'bad result'}
        elif dead:
            res = {'hang': 'wall'}
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            res = {'hang': 'cpu'}
        else:
            res = {'harness': 'no result, status %d' % st}
        res['id'] = req['id']
        os.write(proto_out, json.dumps(res).encode() + b'\n')


if __name__ == '__main__':
    main()
