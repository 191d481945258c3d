"""Documents open in one process do not affect each other"""
import random
import gen as G
import model, simthread
from props.util import *
from props import scripts

ID = 'C05'
N = {'quick': 1100, 'thorough': 40000}
RULE = ("A case is two to four scripts of library operations, each on documents of its own (load, edit, search, normalise, merge, flatten, serialise with different options). "
        "Each script runs alone in a fresh process; then all of them run in one process, interleaved operation by operation in a seeded order or as threads switched at seeded source "
        "lines, including their first use of the library. What each script observes must be the same. Non-trivial: at least two scripts were interleaved.")
REAL = ['sldr.ldml', 'sldr.ldml_merge', 'sldr.py3xmlparser', 'real Python threads']
STUB = 'thread switches and locks created by the library are decided by the seeded scheduler'
STATES = 'distinct interleavings (sequences of operations or of thread switches with their source lines)'
ASSUME = ['merge and overlay take over elements of the document merged in; scripts do not go on using such documents']
LOCS = ['aa_Latn_ET', 'ab_Latn', 'bb', 'aa']


def gen(r, i, tier):
    n = r.choice([2, 2, 3, 4])
    sc = []
    for k in range(n):
        loc = LOCS[k]
        sc.append({'loc': loc, 'doc': G.doc(r, loc, rich=r.choice([.2, .6]), alts=r.choice([.1, .4]), uparrow=r.choice([0, .1])), 'style': G.style(r), 'ops': scripts.gen_ops(r, loc)})
    c = {'sc': sc, 'anc': [{'loc': l, 'doc': G.doc(r, l, rich=.4)} for l in ('root', 'aa', 'aa_Latn', 'ab') if r.random() < .7], 'how': r.choice(['ops', 'threads', 'threads'])}
    c['docs'] = []
    if c['how'] == 'ops':
        o = [k for k in range(n) for _ in sc[k]['ops']]
        r.shuffle(o)
        if r.random() < .2:
            o.sort(key=lambda k: r.random() < .5)
        c['order'] = o
    else:
        c.update(seed=r.randrange(1 << 30), prob=r.choice([.001, .01, .05, .3]))
    return c


def simplify(case):
    import copy
    if len(case['sc']) > 2:
        for i in range(len(case['sc'])):
            c = copy.deepcopy(case)
            del c['sc'][i]
            if 'order' in c:
                c['order'] = [o - (o > i) for o in c['order'] if o != i]
            yield c
    for i, s in enumerate(case['sc']):
        for j in range(1, len(s['ops'])):
            c = copy.deepcopy(case)
            del c['sc'][i]['ops'][j]
            yield c
    if 'prob' in case:
        for s in range(3):
            for p in (.001, .01, .1):
                if p != case['prob']:
                    yield dict(case, prob=p, seed=s)
    if 'order' in case and case['order'] != sorted(case['order']):
        yield dict(case, order=sorted(case['order']))
        yield dict(case, order=sorted(case['order'], reverse=True))


def run(sim, case):
    dirs = [sim.path('l')]
    for a in case['anc']:
        sim.put('l/%s.xml' % a['loc'], G.xml(a['doc']))
    datas = []
    for s in case['sc']:
        datas.append(G.xml(s['doc'], s['style']))
        sim.put('l/%s.xml' % s['loc'], datas[-1])

    def mk(i, obs):
        s = case['sc'][i]
        return scripts.script(s['ops'], datas[i], s['loc'], dirs, obs.append)
    n = len(case['sc'])

    def drain(g, obs):
        try:
            for _ in g:
                pass
        except Exception as e:
            obs.append(('raised', type(e).__name__))

    def alone(i):
        obs = []
        drain(mk(i, obs), obs)
        return obs
    ref = []
    for i in range(n):
        o = sim.proc(alone, i)
        need(o.ok, 'alone', "script {} alone: {}", i, o.tb)
        ref.append(o.value)
        for x in o.value:
            if x[0] in ('ser', 'flat', 'unflat', 'merged', 'etwrite') and x[1]:
                try:
                    model.parse(x[1])
                except model.BadXml as e:
                    raise Violation('malformed', "script {} alone: {} gives {}: {}".format(i, x[0], e, x[1][:400]))

    sim.count('scripts', n)
    sim.count('scripts_raising', sum(1 for x in ref if x and x[-1][0] == 'raised'))
    sim.count('raised_' + '/'.join(sorted({x[-1][1] for x in ref if x and x[-1][0] == 'raised'})), 1)

    def together_ops():
        obs = [[] for _ in range(n)]
        gs = [mk(i, obs[i]) for i in range(n)]
        done = set()
        for i in case['order']:
            if i >= n or i in done:
                continue
            try:
                next(gs[i])
            except StopIteration:
                done.add(i)
            except Exception as e:
                obs[i].append(('raised', type(e).__name__))
                done.add(i)
        for i in range(n):
            if i not in done:
                drain(gs[i], obs[i])
        return obs, tuple(case['order'])

    def together_threads():
        obs = [[] for _ in range(n)]
        S = simthread.Sched(case['seed'], case['prob'])
        res = S.run([lambda i=i: drain(mk(i, obs[i]), obs[i]) for i in range(n)])
        for v, e in res:
            if e is not None:
                raise e
        return obs, tuple(S.switches)
    o = sim.proc(together_ops if case['how'] == 'ops' else together_threads, cpu=100)
    need(o.kind != 'hang', 'hang', "{}", o.exc)
    need(o.ok, 'together', "{}", o.tb)
    obs, order = o.value
    sim.event('order', order)
    sim.state(order)
    sim.count('switches', len(order))
    for i in range(n):
        a, b = ref[i], obs[i]
        for k in range(max(len(a), len(b))):
            x, y = a[k] if k < len(a) else None, b[k] if k < len(b) else None
            if x != y:
                raise Violation('interference', "script {} ({}): observation {} is {} instead of {} when run alone".format(i, case['how'], k, cut(y, x), cut(x, y)))
    return {'nontrivial': n > 1}


def cut(a, b):
    a, b = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...' + a[max(0, k - 80):k + 120] + '...'
