"""An interrupted batch run, run again, ends where an uninterrupted one would"""
import os, random
import gen as G
import model
from simcore import powerloss_states
from props.util import *
from props import toolkit as tk

ID = 'C08'
N = {'quick': 170, 'thorough': 10000}
RULE = ("A case is a tree of locale files and a command line of ldmlflatten, cldrimport, fixsldr or ldmlnormalize. The undisturbed run is journalled; then, for a seeded selection of its system calls, "
        "the run is killed there (before, after, or in the middle of a write; under a seeded schedule of its workers), looked at, possibly killed again when run anew, and at last run to the end, with the result compared to the undisturbed one. "
        "The finished command is then run once more. Non-trivial: at least one kill took effect.")
REAL = ['ldmlflatten, cldrimport, fixsldr, ldmlnormalize and all of the library they use', 'worker processes are real forks, all killed together']
STUB = 'the moment of death, pool scheduling, directory order, clock and process ids decided by the simulator'
STATES = 'distinct (tool, which files were already new at the kill)'
ASSUME = ['inputs are not changed between the runs', 'files left over that no tool takes for locale files are ignored']
LEVEL = 'fault_enumeration'
TOOLS = ['ldmlflatten', 'cldrimport', 'ldmlnormalize', 'fixsldr']


def gen(r, i, tier):
    tool = TOOLS[i % 4]
    n = r.randint(1, 6)
    sc = tk.scenario(r, tool, n)
    if tool in ('cldrimport',) and r.random() < .5 and '-r' not in sc['argv']:
        sc['argv'].append('-r')
    return {'sc': sc, 'seed': r.randrange(1 << 30), 'points': 10 if tier == 'quick' else 40, 'loss': 2}


def locs(sim):
    return {k: v for k, v in sim.snapshot().items() if tk.isloc(k) or (k.endswith('.ldml') and not tk.istemp(k))}


def run(sim, case):
    sc = case['sc']
    tool = sc['tool']
    r = random.Random(case['seed'])
    tk.setup(sim, sc)
    before = locs(sim)
    o0 = tk.run(sim, sc, versions=True)
    if o0.kind not in ('ok', 'exit') or o0.code:
        raise Violation('undisturbed', "{} fails with nothing wrong: {} {} {}".format(tool, o0.kind, o0.exc, o0.err[-300:]))
    want = locs(sim)
    j = o0.journal
    vers = {}
    for p, v in sim.versions():
        vers.setdefault(p, set()).add(v)
    o = tk.run(sim, sc, pid=4900)
    need(o.kind == o0.kind and o.code == o0.code, 'rerun', "{} run again after it finished: {} {}", tool, o.kind, (o.tb or '')[-300:])
    same('rerun', "{} run again after it finished".format(tool), want, locs(sim))
    if not any(x.op not in ('openr', 'read', 'list') for x in j):
        return {'nontrivial': False}

    def partial(what):
        now = locs(sim)
        for k in sorted(set(before) | set(want) | set(now)):
            v = now.get(k)
            if v is None:
                need(k not in before or k not in want, 'lost', "{}: {} is gone", what, k)
            elif v != before.get(k) and v != want.get(k) and v not in vers.get(k, ()):
                raise Violation('partial', "{}: {} is neither as before nor as the full run leaves it: {}".format(what, k, brief(v, want.get(k) or before.get(k))))
        sim.state(tool, tuple(sorted(k for k in now if now[k] != before.get(k))))

    def finish(what):
        o = tk.run(sim, sc, pid=r.randrange(5000, 30000), pool=dict(sc['pool'], seed=r.randrange(1 << 30)) if sc.get('pool') else None)
        need(o.kind == o0.kind and o.code == o0.code, 'rerun', "{}, then run again: {} {} {}", what, o.kind, o.code, (o.err or o.out)[-500:])
        same('rerun', what + ', then run again', want, locs(sim))

    killed = 0
    ks = list(range(1, len(j) + 1))
    muts = [k for k in ks if j[k - 1].op not in ('openr', 'read', 'list')]
    pts = sorted(set(r.sample(muts, min(len(muts), case['points'])) + r.sample(ks, min(len(ks), 2))))
    for k in pts:
        act = r.choice(['crash_before', 'crash_after', 'torn' if j[k - 1].op == 'write' else 'crash_after'])
        tk.setup(sim, sc)
        o = tk.run(sim, sc, rules=[{'ops': 'all', 'nth': k, 'act': act, 'arg': 500}], pid=4242)
        if o.kind != 'crash':
            continue
        killed += 1
        what = "{} killed at call {} ({}, {})".format(tool, k, act, o.journal[-1].op if o.journal else '')
        partial(what)
        if r.random() < .3:
            o = tk.run(sim, sc, rules=[{'ops': 'mut' if r.random() < .7 else 'all', 'nth': r.randint(1, len(muts)), 'act': r.choice(['crash_before', 'crash_after', 'torn']), 'arg': 300}],
                       pid=4242 if r.random() < .5 else 4243)
            if o.kind == 'crash':
                what += ' and again at {}'.format(o.journal[-1].op)
                killed += 1
                partial(what)
        finish(what)
    # the machine goes down
    base = {sim.path(k): v for k, v in before.items()}
    for _ in range(case['loss']):
        n = r.choice(muts)
        for tag, st in powerloss_states(base, j[:n], sim.root):
            if r.random() < .5:
                continue
            tk.setup(sim, sc)
            for k in before:
                if sim.path(k) not in st:
                    os.unlink(sim.path(k))
            for p, v in st.items():
                sim.put(os.path.relpath(p, sim.root), v)
            sim.count('fault:power-loss')
            what = "{}: power lost after {} calls ({} directory changes durable, unsynced data {})".format(tool, n, *tag)
            partial(what)
            finish(what)
    return {'nontrivial': killed > 0}


def same(kind, what, want, now):
    for k in sorted(set(want) | set(now)):
        if want.get(k) != now.get(k):
            raise Violation(kind, "{}: {} is {} instead of {}".format(what, k, brief(now.get(k), want.get(k)), brief(want.get(k), now.get(k))))


def brief(b, other):
    if b is None:
        return 'missing'
    o = other or b''
    k = next((i for i, (x, y) in enumerate(zip(b, o)) if x != y), min(len(b), len(o)))
    return '...' + repr(b[max(0, k - 80):k + 120].decode('utf-8', 'replace')) + '...'
