"""Batch output does not depend on scheduling, worker count or listing order"""
import os, random
import gen as G
from props.util import *
from props import toolkit as tk

ID = 'C06'
N = {'quick': 240, 'thorough': 6000}
VARIANTS = {'quick': 1, 'thorough': 3}
RULE = ("A case is a tree of locale files and a command line of ldmlflatten, cldrimport, fixsldr or sldrcoverage. It is run with one worker and sorted listings, then under seeded worker counts, "
        "schedules of the pool (switches at every file system operation, any worker takes any chunk) and listing orders, without multiprocessing, and locale by locale, and the whole case "
        "again in processes with other hash seeds and heap layouts; files, report lines and exit status must be the same. Non-trivial: some schedule had at least two workers at work.")
REAL = ['ldmlflatten, cldrimport, fixsldr, sldrcoverage and all of the library they use', 'worker processes are real forks']
STUB = 'pool scheduling, directory order, clock and hg decided by the simulator'
STATES = 'distinct (tool, order in which workers took tasks, number of switches) and listing orders'
ASSUME = ['no locale of these batches fails (C07 has those that do)']
TOOLS = ['ldmlflatten', 'cldrimport', 'fixsldr', 'sldrcoverage']
FLAG = {'sldrcoverage': '-S'}


def gen(r, i, tier):
    tool = TOOLS[i % 4]
    n = r.randint(2, 8)
    if i % 26 == 0:
        tool = 'ldmlflatten'
        sc = tk.flatten(r, 4, single=False, opts=False, old=False)
        cimport(r, sc)
        return {'sc': sc, 'runs': [], 'single': True, 'alone': [], 'imp': True, 'seed': 1}
    sc = {'ldmlflatten': tk.flatten, 'cldrimport': tk.cldr, 'fixsldr': tk.fix, 'sldrcoverage': tk.coverage}[tool](r, n, single=False)
    if tool == 'fixsldr' and r.random() < .3:       # the same name in two places
        pass
    runs = []
    for _ in range(3 if tier == 'quick' else 6):
        runs.append({'pool': tk.poolcfg(r, r.choice([.05, .3, .8])), 'listseed': r.randrange(1, 1 << 30)})
        runs[-1]['pool']['ncpu'] = r.choice([2, 2, 3, 4, 7])
    return {'sc': sc, 'runs': runs, 'single': True, 'alone': [r.random(), r.random()], 'seed': r.randrange(1 << 30)}


def cimport(r, sc):
    """collations that import others"""
    for f in sc['files']:
        if f.get('doc') and f['p'].startswith('in'):
            d = f['doc']
            d['c'] = [c for c in d['c'] if c['t'] != 'collations']
            b = os.path.basename(f['p'])[:-4]
            d['c'].append(G.N('collations', c=[G.N('collation', {'type': 'standard'}, c=[G.N('cr', None, '&a<b' if b == 'root' else '[import und-u-co-standard]&c<d')])]))


def names(sc):
    res = []
    for f in sc['files']:
        if f.get('doc') and f['p'].split('/')[0] in ('in', 'in2', 'common'):
            res.append(f['p'])
    return sorted(res)


def outcome(sim, o):
    return (o.kind, o.code, o.out, tuple(sorted(o.err.splitlines())))


def run(sim, case):
    sc = case['sc']
    tool = sc['tool']

    def go(argv=None, keep=None, **kw):
        tk.setup(sim, sc)
        if keep is not None:
            for p in names(sc):
                if p not in keep:
                    os.unlink(sim.path(p))
        o = tk.run(sim, sc, **dict(kw, argv=argv))
        if o.kind == 'hang':
            raise Violation('hang', tool)
        return o, {k: v for k, v in sim.snapshot().items()}
    base = {'seed': 1, 'prob': 0, 'ncpu': 1}
    o0, f0 = go(pool=base)
    if o0.kind not in ('ok', 'exit'):
        raise Violation('undisturbed', "{} fails with nothing wrong: {} {} {}".format(tool, o0.kind, o0.exc, (o0.tb or '')[-400:]))
    outs = {k for k in f0 if any(k.startswith(d + '/') for d in sc['out'])}
    multi = False

    def compare(what, o, f, report=True):
        for k in sorted(set(f0) | set(f)):
            if f0.get(k) != f.get(k):
                raise Violation('files', "{}: {}: {} is {} instead of {}".format(tool, what, k, brief(f.get(k), f0.get(k)), brief(f0.get(k), f.get(k))),
                                'flatten-import-single-vs-pool' if case.get('imp') and what == 'without multiprocessing' else None)
        if report and outcome(sim, o) != outcome(sim, o0):
            raise Violation('report', "{}: {}: outcome {} instead of {}".format(tool, what, cut(outcome(sim, o), outcome(sim, o0)), cut(outcome(sim, o0), outcome(sim, o))))
    for v in case['runs']:
        o, f = go(pool=v['pool'], listseed=v['listseed'])
        compare("{} workers, schedule {}, listing order {}".format(v['pool']['ncpu'], v['pool']['seed'], v['listseed']), o, f)
        if o.extra and o.extra[1]:
            multi = True
        sim.state(tool, o.extra)
        sim.state('list', v['listseed'])
    if case['single']:
        a = tk.argv(sim, sc) + [FLAG.get(tool, '-s')]
        o, f = go(argv=a)
        compare('without multiprocessing', o, f)
    nm = names(sc)
    for x in case['alone']:
        if not nm:
            break
        p = nm[int(x * len(nm))]
        loc = os.path.basename(p)[:-4]
        a = tk.argv(sim, sc)
        if tool == 'cldrimport':
            if '-r' in a:
                a.remove('-r')
            o, f = go(argv=a, keep={q for q in nm if os.path.basename(q)[:-4] == loc})
        elif tool == 'fixsldr':
            o, f = go(argv=a + ['-l', sim.path(p)])
        else:
            a = [y for i, y in enumerate(a) if y != '-l' and (i == 0 or a[i - 1] != '-l')]
            if a != tk.argv(sim, sc):
                continue
            o, f = go(argv=a + ['-l', loc])
        if tool == 'sldrcoverage':
            rows = rep(o0, f0)
            row = rep(o, f)
            need(row == [q for q in rows if q.startswith(('langtag,', loc + ','))], 'alone', "sldrcoverage for {} alone reports {} instead of {}", loc, row, rows)
            continue
        for k in outs:
            if os.path.basename(k) == loc + '.xml':
                if f.get(k) != f0.get(k):
                    raise Violation('alone', "{}: {} processed alone is {} instead of {}".format(tool, k, brief(f.get(k), f0.get(k)), brief(f0.get(k), f.get(k))))
    return {'nontrivial': multi or case.get('imp'), 'out': [sorted((k, v.decode('utf-8', 'replace')) for k, v in f0.items() if k in outs), outcome(sim, o0)]}


def rep(o, f):
    t = f.get('out/report.csv')
    t = t.decode('utf-8') if t is not None else o.out
    return [x for x in t.splitlines() if x]


def cut(a, b):
    a, b = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...' + a[max(0, k - 100):k + 200] + '...'


def brief(b, other):
    return 'missing' if b is None else cut(b, other or b'')
