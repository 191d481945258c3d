"""One failing locale in a batch neither disturbs the others nor goes unreported"""
import os, random, re
import gen as G
from props.util import *
from props import toolkit as tk

ID = 'C07'
N = {'quick': 560, 'thorough': 12000}
RULE = ("A case is a tree of locale files, a command line of ldmlflatten, cldrimport or fixsldr and a subset of locales made to fail: their input damaged, its open or any of its reads failing, "
        "or any call of the save of their output failing (once or for good), or the directory it needs. Each is run under several seeded schedules of the worker pool, and without multiprocessing. "
        "Every locale's output file must be what the undisturbed run gives or, named on the console, what was there before. Non-trivial: some fault fired or some input was damaged.")
REAL = ['ldmlflatten, cldrimport, fixsldr and all of the library they use', 'worker processes are real forks']
STUB = 'system call results, pool scheduling, directory order decided by the simulator; damaged bytes put on disk'
STATES = 'distinct (tool, kinds of failure, outcome, locales that failed)'
ASSUME = ['a locale is named if its name (for fixsldr its path) comes first among the locale names in some line of output']
TOOLS = ['ldmlflatten', 'cldrimport', 'fixsldr']
INS = ('in', 'in2', 'common')
ERRS = ['EIO', 'EACCES', 'ENOSPC', 'ENOMEM', 'EMFILE', 'EDQUOT', 'EROFS']


def gen(r, i, tier):
    tool = TOOLS[i % 3]
    n = r.randint(2, 8)
    sc = {'ldmlflatten': tk.flatten, 'cldrimport': tk.cldr, 'fixsldr': tk.fix}[tool](r, n, single=False)
    ins = sorted(f['p'] for f in sc['files'] if f.get('doc') and f['p'].split('/')[0] in INS)
    locs = sorted({os.path.basename(p)[:-4] for p in ins})
    faults = []
    for l in r.sample(locs, min(len(locs), r.choice([1, 1, 1, 2, 3, len(locs)]))):
        k = r.choice(['cut', 'junk', 'read', 'read', 'write', 'write', 'write', 'mkdir'])
        if tool == 'fixsldr' and l == 'en' and k in ('cut', 'junk', 'read'):
            k = 'write'
        f = {'k': k, 'l': l}
        if k in ('cut', 'junk'):
            f['p'] = r.choice([p for p in ins if os.path.basename(p)[:-4] == l])
            f['x'] = r.random()
        elif k == 'read':
            f['p'] = r.choice([p for p in ins if os.path.basename(p)[:-4] == l])
            f['rule'] = {'ops': r.choice(['openr', 'read', 'read+openr']), 'nth': r.choice([1, 1, 2]), 'count': 0 if r.random() < .7 else 1, 'act': 'err', 'arg': r.choice(['EIO', 'EACCES', 'EMFILE', 'ENOMEM'])}
        elif k == 'write':
            f['rule'] = {'ops': r.choice(['openw', 'write', 'fsync', 'rename', 'write+fsync+close', 'mut']), 'nth': r.choice([1, 1, 1, 2, 3]), 'count': 0 if r.random() < .7 else 1, 'act': 'err', 'arg': r.choice(ERRS)}
        else:
            f['rule'] = {'ops': 'mkdir', 'nth': 1, 'count': 0, 'act': 'err', 'arg': r.choice(ERRS)}
        faults.append(f)
    runs = [{'pool': tk.poolcfg(r), 'listseed': r.randrange(1 << 30)} for _ in range(2 if tier == 'quick' else 5)]
    return {'sc': sc, 'faults': faults, 'runs': runs, 'single': r.random() < .6}


def run(sim, case):
    sc = case['sc']
    tool = sc['tool']
    ins = [f['p'] for f in sc['files'] if f.get('doc') and f['p'].split('/')[0] in INS]
    locs = sorted({os.path.basename(p)[:-4] for p in ins})
    tk.setup(sim, sc)
    before = sim.snapshot()
    o0 = tk.run(sim, sc)
    if o0.kind not in ('ok', 'exit') or o0.code:
        raise Violation('undisturbed', "{} fails with nothing wrong: {} {} {} {}".format(tool, o0.kind, o0.code, o0.out[-300:], (o0.tb or o0.err)[-400:]))
    want = sim.snapshot()
    base_named = named(tool, o0.out + '\n' + o0.err, locs)
    files = sorted({k for k in list(before) + list(want) if tk.isloc(k) and k.startswith('out/')})
    damaged, hurt, rules = set(), set(), []
    for f in case['faults']:
        l = f['l']
        if l not in locs or f.get('p', ins[0]) not in ins:
            raise InvalidCase("no such locale")
        if f['k'] in ('cut', 'junk'):
            damaged.add(l)
        elif f['k'] == 'read':
            rules.append(dict(f['rule'], sub='$/' + f['p']))
        elif f['k'] == 'write':
            rules.append(dict(f['rule'], sub='^' + l + '.xml'))
        else:
            rules.append(dict(f['rule'], sub='$/out/' + l[0].lower()))
        hurt.add(l)
    made = {os.path.basename(k)[:-4] for k in want if tk.isloc(k) and k.startswith('out/')}
    attempts = sorted(set(locs) if '-l' not in sc['argv'] else {a for i, a in enumerate(sc['argv']) if i and sc['argv'][i - 1] == '-l'})

    for l in attempts:
        need(l in made or l in base_named, 'undisturbed', "{} with nothing wrong gives nothing for {} and does not say so: {!r}", tool, l, o0.out[-300:])
    need(tool == 'ldmlflatten' or not base_named, 'undisturbed', "{} names {} with nothing wrong: {!r}", tool, base_named, o0.out[-300:])

    def may_fail(l):
        for f in case['faults']:
            if f['l'] == l or (f['k'] == 'mkdir' and f['l'][0].lower() == l[0].lower()):
                return True
            if tool == 'ldmlflatten' and f['k'] in ('cut', 'junk', 'read') and (f['l'] == 'root' or f['l'].split('_')[0] == l.split('_')[0]):
                return True
        return False
    fired = bool(damaged)
    runs = [('parallel', v) for v in case['runs']] + ([('single', None)] if case['single'] else [])
    for mode, v in runs:
        tk.setup(sim, sc)
        for f in case['faults']:
            if f['k'] == 'cut':
                b = sim.get(f['p'])
                sim.put(f['p'], b[:max(1, min(int(len(b) * f['x']), b.rindex(b'</ldml')))])
            elif f['k'] == 'junk':
                b = sim.get(f['p'])
                c = int(len(b) * f['x'])
                j = b[:c] + b'<&>' + b[c:]
                sim.put(f['p'], j if f['x'] < .8 and not wellformed(j) else b'\xff\x00' + b)
        if mode == 'single':
            o = tk.run(sim, sc, rules=rules, argv=tk.argv(sim, sc) + ['-s'])
        else:
            o = tk.run(sim, sc, rules=rules, pool=v['pool'], listseed=v['listseed'])
        what = "{} ({}{}) with {}".format(tool, mode, '' if v is None else ', {} workers, schedule {}'.format(v['pool']['ncpu'], v['pool']['seed']),
                                          '; '.join('{} {} {}'.format(f['k'], f.get('p', f['l']), f.get('rule', '')) for f in case['faults']))
        need(o.kind != 'hang', 'hang', "{} does not end", what)
        if any(o.fired):
            fired = True
        text = o.out + '\n' + o.err
        now = sim.snapshot()
        nm = named(tool, text, locs)
        failed = set()
        stopped = mode == 'single' and (o.kind == 'exc' or o.code)
        if mode == 'parallel':
            need(o.kind in ('ok', 'exit'), 'batch-died', "{}: the tool died: {}", what, (o.tb or '')[-400:])
        for k in files:
            l = os.path.basename(k)[:-4]
            new, old, got = want.get(k), before.get(k), now.get(k)
            if got == new and not (new == old and l in damaged):
                continue
            if got != new and got != old:
                raise Violation('wrong-file', "{}: {} is {} instead of {} (or what was there before)".format(what, k, brief(got, new), brief(new, got)))
            failed.add(l)
            if l not in attempts and mode == 'parallel' and got != new:
                raise Violation('disturbed', "{}: {} was not part of the batch and is {}".format(what, k, brief(got, new)))
            if not may_fail(l) and got != new and not stopped:
                raise Violation('disturbed', "{}: {} is {} instead of {}, though nothing it depends on failed".format(what, k, brief(got, new), brief(new, got)))
            if mode == 'parallel' and l in attempts and l not in nm and l not in base_named:
                raise Violation('unreported', "{}: nothing says that {} failed; output was {!r}".format(what, l, text[-400:]))
        for l in damaged & set(attempts):
            need(l in nm or stopped, 'unreported', "{}: nothing says that {} failed; output was {!r}", what, l, text[-400:])
        for l in nm - base_named - failed:
            need(may_fail(l) or stopped, 'wrong-report', "{}: {} is reported though nothing it depends on failed; output was {!r}", what, l, text[-400:])
        if failed and mode == 'single' and (failed & set(attempts)) - base_named:
            need(stopped or any(l in nm for l in failed), 'unreported', "{}: nothing says that {} failed; output was {!r}", what, sorted(failed), text[-400:])
            if stopped:
                need(any(l in text for l in locs if may_fail(l)), 'unreported', "{}: the tool stops without naming a failing locale: {!r}", what, text[-600:])
        if (failed & set(attempts)) - base_named:
            need((o.kind, o.code, o.out, o.err) != (o0.kind, o0.code, o0.out, o0.err), 'unreported', "{}: {} failed and the run looks like one where nothing did", what, sorted(failed))
        sim.state(tool, mode, o.kind, o.code, sorted(failed), [f['k'] for f in case['faults']])
        sim.count('failed_locales', len(failed))
        sim.count('ok_locales', len(attempts) - len(failed & set(attempts)))
    for f in case['faults']:
        if f['k'] in ('cut', 'junk'):
            sim.count('fault:damaged-input:' + f['k'])
    return {'nontrivial': fired}


def wellformed(b):
    from xml.parsers import expat
    try:
        expat.ParserCreate().Parse(b, True)
        return True
    except expat.ExpatError:
        return False


def named(tool, text, locs):
    """the locales that come first in some line, not counting mentions as part of a path (for fixsldr, whose
    locales are paths, counting those)"""
    res = set()
    for l in text.splitlines():
        if tool != 'fixsldr':
            l = re.sub(r"[\w$'\"./\\-]*/[\w$.'\"/\\-]*", ' ', l)
        m = re.search(r'(?<![\w])(' + '|'.join(sorted(locs, key=len, reverse=True)) + r')(?=\.xml|\W|$)', l)
        if m:
            res.add(m.group(1))
    return res


def brief(b, other):
    if b is None:
        return 'missing'
    o = other or b''
    k = next((i for i, (x, y) in enumerate(zip(b, o)) if x != y), min(len(b), len(o)))
    return '...' + repr(b[max(0, k - 80):k + 120].decode('utf-8', 'replace')) + '...'
