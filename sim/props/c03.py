"""Saving replaces a file atomically"""
import os, random
import gen as G
import model, simthread
from simcore import powerloss_states
from props.util import *
from props import toolkit as tk

ID = 'C03'
N = {'quick': 420, 'thorough': 12000}
RULE = ("A case is a save by the library (over an existing file, through a link, or to a new name) or a run of one of the nine locale-writing tools. The undisturbed run "
        "is journalled; then every system call boundary (library saves) or a seeded selection of them (tools) is run again with the process killed there, a write torn, "
        "a call failing once or persistently, writes cut short; and the machine losing power at every prefix of the journal with unsynced data wholly, half or not at all lost. "
        "Non-trivial: at least one fault was injected into a run that writes.")
REAL = ['sldr.ldml save_as/atomic_open/serialize_xml', 'all locale-writing scripts', 'CPython codecs/io/shutil down to system calls']
STUB = 'system call results and process death decided by the interposition library; power loss computed from the journal of real system calls; worker pool scheduled by the simulator; network and hg answers canned'
ASSUME = ['directory operations reach the disk in order; data reaches it at fsync at the latest (ext4-like ordering without journalled data)',
          'a tool that saves one file several times may be interrupted between its saves']
LEVEL = 'fault_enumeration'
ERRS = ['ENOSPC', 'EIO', 'EDQUOT', 'EROFS', 'EACCES', 'EINTR', 'EMFILE', 'ENOMEM']


def gen(r, i, tier):
    k = 'lib' if i % 3 else 'tool'
    c = {'k': k, 'seed': r.randrange(1 << 30)}
    if i % 21 == 1:
        c['k'] = 'race'
        c['prob'] = r.choice([.02, .1, .4])
    if c['k'] != 'tool':
        c['docs'] = [{'doc': G.doc(r, 'aa', rich=r.choice([.1, .6, 1]), alts=.2), 'style': {'ind': r.choice(['\t', '  '])}} for _ in range(3)]
        if r.random() < .3:     # more than one buffer's worth
            d = c['docs'][1]['doc']
            d['c'] = [x for x in d['c'] if x['t'] != 'characters'] + [G.N('characters', c=[G.N('exemplarCharacters', {'type': 't%d' % j}, 'z' * 900) for j in range(r.choice([10, 20, 60]))])]
        c['link'] = r.random() < .2
        c['new'] = r.random() < .2
        c['how'] = r.choice(['ldml', 'ldml', 'merge', 'topns', 'same'])
    else:
        tool = list(tk.MAKERS)[(i // 3) % len(tk.MAKERS)]
        c['sc'] = tk.scenario(r, tool, r.randint(1, 4))
        c['points'] = 16 if tier == 'quick' else 60
    return c


def plans(r, j, every, n):
    """faults over the operations of a journal"""
    res = []
    for k, rec in enumerate(j):
        at = k + 1
        res.append([{'ops': 'all', 'nth': at, 'act': 'crash_before'}])
        mut = rec.op not in ('openr', 'read', 'list')
        if not mut:
            continue
        if rec.op == 'write' and len(rec.data) > 1:
            res.append([{'ops': 'all', 'nth': at, 'act': 'torn', 'arg': r.choice([1, 250, 500, 999])}])
            res.append([{'ops': 'all', 'nth': at, 'act': 'short', 'arg': r.choice([1, 500])}, {'ops': 'write', 'nth': 1, 'act': 'none'}])
            res.append([{'ops': 'write', 'act': 'limit', 'arg': max(1, len(rec.data) // r.choice([2, 3, 20])), 'count': 0}, {'ops': 'all', 'nth': at + r.randrange(1, 9), 'act': r.choice(['err', 'crash_before', 'torn']), 'arg': 'ENOSPC'}])
        res.append([{'ops': 'all', 'nth': at, 'act': 'err', 'arg': r.choice(ERRS)}])
        res.append([{'ops': 'mut', 'nth': 1 + sum(1 for x in j[:k] if x.op not in ('openr', 'read', 'list')), 'act': 'err', 'arg': r.choice(['ENOSPC', 'EIO', 'EROFS']), 'count': 0}])
        res.append([{'ops': 'all', 'nth': at, 'act': 'sigint'}])
    for p in res:
        for rule in p:
            if rule['act'] in ('torn',) and isinstance(rule.get('arg'), str):
                rule['arg'] = 500
    if not every and len(res) > n:
        res = r.sample(res, n)
    return res


def judge(what, before, now, allowed, created):
    for p, old in before.items():
        v = now.get(p)
        if v is None:
            raise Violation('missing', "{}: {} is gone".format(what, p))
        if v not in allowed.get(p, (old,)):
            raise Violation('torn', "{}: {} holds neither the previous nor the new document: {} bytes (was {}, to be {}): {!r}...".format(
                what, p, len(v), len(old), [len(x) for x in allowed.get(p, ()) if x != old], v[-80:]))
    for p, v in now.items():
        if p not in before and tk.isloc(p) and v not in allowed.get(p, ()):
            raise Violation('torn', "{}: new file {} is not complete: {} bytes, {!r}...".format(what, p, len(v), v[-80:]))


def run(sim, case):
    r = random.Random(case['seed'])
    return {'lib': lib, 'tool': tool, 'race': race}[case['k']](sim, case, r)


def lib(sim, case, r):
    if len(case['docs']) < 2:
        raise InvalidCase("two documents needed")
    old = G.xml(case['docs'][0]['doc'], case['docs'][0].get('style'))
    new = G.xml(case['docs'][1]['doc'], case['docs'][1].get('style'))
    how = case['how']

    def start():
        sim.fresh()
        if not case['new']:
            sim.put('real/aa.xml' if case['link'] else 'd/aa.xml', old)
        os.makedirs(sim.path('d'), exist_ok=True)
        if case['link'] and not case['new']:
            os.symlink(sim.path('real/aa.xml'), sim.path('d/aa.xml'))
        sim.put('d/ab.xml', old)
    p = sim.path('d/aa.xml')

    def save():
        if how == 'same' and not case['new']:
            l = ldml(p)
            n = l.ensure_path('characters/exemplarCharacters[@type="added"]')[0]
            n.text = 'new & text'
        else:
            l = ldml(new, merge=how == 'merge')
        l.save_as(p, **({'topns': False} if how == 'topns' else {}))

    def files():
        return {k: v for k, v in sim.snapshot().items() if not v.startswith(b'->')}
    start()
    before = files()
    o = sim.proc(save)
    if not o.ok:
        raise Violation('save-failed', "saving failed with nothing wrong: {}".format(o.tb or o.exc))
    after = files()
    target = 'real/aa.xml' if case['link'] and not case['new'] else 'd/aa.xml'
    want = sim.get('d/aa.xml')
    if want == before.get(target):
        raise InvalidCase("nothing changes")
    if how != 'same':
        check_same('content', 'plain save', expect(new), want)
    allowed = {k: (v,) for k, v in before.items()}
    allowed[target] = tuple(x for x in (before.get(target), after.get(target)) if x is not None)
    if case['link'] and not case['new'] and target in after and after[target] == before[target]:
        allowed['d/aa.xml'] = (want,)       # the link itself was replaced
    j = o.journal
    for rules in plans(r, j, True, 0):
        start()
        o = sim.proc(save, rules=rules)
        what = "save with {}".format(rules[0] if len(rules) == 1 else rules)
        now = files()
        judge(what, before, now, allowed, ())
        got = sim.get('d/aa.xml')
        if o.ok:
            need(got == want, 'lost-save', "{}: save_as returned normally but the file does not hold the new content", what)
        elif got is None and not case['new']:
            raise Violation('missing', "{}: no file".format(what))
        if o.kind == 'hang':
            raise Violation('hang', what)
        sim.state(o.kind, got == want, rules[0]['act'], o.where)
    # power loss
    ab = {sim.path(k): v for k, v in before.items()}
    for n in range(1, len(j) + 1):
        for tag, st in powerloss_states(ab, j[:n], sim.root):
            now = {os.path.relpath(k, sim.root): v for k, v in st.items()}
            judge("power lost after {} of {} calls ({} of the directory changes durable, unsynced data: {})".format(n, len(j), *tag), before, now, allowed, ())
            sim.count('fault:power-loss')
    return {'nontrivial': True}


def tool(sim, case, r):
    sc = case['sc']
    tk.setup(sim, sc)
    before = {k: v for k, v in sim.snapshot().items() if tk.isloc(k)}
    vers = {}
    o = tk.run(sim, sc, versions=True)
    if o.kind not in ('ok', 'exit'):
        raise Violation('undisturbed', "{} fails with nothing wrong: {} {}".format(sc['tool'], o.exc, (o.tb or '')[-400:]))
    after = {k: v for k, v in sim.snapshot().items() if tk.isloc(k)}
    for p, v in sim.versions():
        vers.setdefault(p, []).append(v)
    allowed = {}
    for k in set(before) | set(after) | set(vers):
        allowed[k] = tuple({x for x in [before.get(k), after.get(k)] + vers.get(k, []) if x is not None})
    removed = {k for k in before if k not in after}
    must = {k: v for k, v in before.items() if k not in removed}
    for k, v in after.items():
        if v != before.get(k):
            try:
                model.parse(v)
            except model.BadXml as e:
                raise Violation('content-malformed', "{} wrote {} which is not well-formed: {}".format(sc['tool'], k, e))
    j = o.journal
    if not any(x.op not in ('openr', 'read', 'list') for x in j):
        return {'nontrivial': False}
    for rules in plans(r, j, False, case['points']):
        tk.setup(sim, sc)
        o = tk.run(sim, sc, rules=rules)
        what = "{} with {}".format(sc['tool'], rules[0] if len(rules) == 1 else rules)
        if o.kind == 'hang':
            raise Violation('hang', what)
        now = {k: v for k, v in sim.snapshot().items() if tk.isloc(k)}
        judge(what, must, now, allowed, ())
        sim.state(sc['tool'], o.kind, rules[0]['act'], tuple(sorted(k for k in now if now[k] != before.get(k))))
    ab = {sim.path(k): v for k, v in before.items()}
    ns = sorted({r.randint(1, len(j)) for _ in range(6)} | {len(j)})
    for n in ns:
        for tag, st in powerloss_states(ab, j[:n], sim.root):
            now = {os.path.relpath(k, sim.root): v for k, v in st.items()}
            judge("{}: power lost after {} of {} calls ({} of the directory changes durable, unsynced data: {})".format(sc['tool'], n, len(j), *tag), must, now, allowed, ())
            sim.count('fault:power-loss')
    return {'nontrivial': True}


def race(sim, case, r):
    """two threads save different documents over the same file while a third reads it"""
    if len(case['docs']) < 3:
        raise InvalidCase("three documents needed")
    d = [G.xml(x['doc'], x.get('style')) for x in case['docs']]
    p = sim.put('aa.xml', d[0])
    alone = []
    for k in (1, 2):
        ldml(d[k]).save_as(sim.path('t.xml'))
        alone.append(sim.get('t.xml'))
    ok = [d[0]] + alone
    bad = []
    S = simthread.Sched(case['seed'], case['prob'])

    def reader():
        for _ in range(60):
            S.point()
            S.switch()
            b = sim.get('aa.xml')
            if b not in ok:
                bad.append(b)

    def writer(k):
        def f():
            ldml(d[k]).save_as(p)
        return f
    res = S.run([writer(1), writer(2), reader])
    for v, e in res:
        if e is not None:
            raise Violation('race', "a concurrent save failed: {!r}".format(e))
    sim.event('switches', S.switches)
    sim.count('thread_switches', len(S.switches))
    need(not bad, 'torn', "a reader saw {!r}", bad[:1] and bad[0][-100:])
    need(sim.get('aa.xml') in alone, 'torn', "after two concurrent saves the file is neither document")
    return {'nontrivial': True}
