"""Reference data is loaded completely or not at all"""
import contextlib, hashlib, io, os, random, re
import gen as G
import model, simthread
from props.util import *

ID = 'C11'
N = {'quick': 480, 'thorough': 20000}
RULE = ("A case is a history of operations in one process that has not used the library yet: load and save a document touching element, attribute and value orders of the whole DTD, flatten along parent locales, build a tailoring, read the default collation table, "
        "look up language tags, read the subtag registry. Some are in trouble: an open or read of a data file fails (once or several times), a signal arrives at a system call, KeyboardInterrupt or MemoryError is raised at a chosen source line of the library, "
        "or two to four of them start at the same time as threads switched at chosen lines. A troubled operation must fail, report it, or give what a fresh process gives; every operation after it must give what a fresh process gives. Non-trivial: some trouble took effect.")
REAL = ['sldr.ldml (metadata, DTD, time zones, supplemental data)', 'sldr.ducet', 'sldr.collation', 'sldr.langtags_full', 'sldr.iana', 'the shipped data files', 'real threads']
STUB = 'system call results, signals, exceptions at source lines, thread switches decided by the simulator'
STATES = 'distinct (operations so far, trouble, source line or call it took effect at)'
ASSUME = ['a missing data file (ENOENT) is not a failure to read it: langtags.txt may legitimately be absent', 'reading the DUCET reports failure by printing an ERROR line and returning an empty table']
KINDS = ['load', 'load', 'flat', 'coll', 'ducet', 'tags', 'iana']
FILES = {'load': ['sil.dtd', 'tzones.csv', 'supplementalMetadata.xml'], 'flat': ['supplementalData.xml', 'sil.dtd', 'supplementalMetadata.xml', 'tzones.csv'], 'coll': ['allkeys.txt'], 'ducet': ['allkeys.txt'],
         'tags': ['langtags.txt'], 'iana': ['language-subtag-registry.txt']}
ERRS = ['EIO', 'EACCES', 'EMFILE', 'ENOMEM', 'ENFILE', 'EISDIR']
FIX = {'en': b'<ldml><identity><language type="en"/></identity><layout><orientation><characterOrder>en</characterOrder><lineOrder>en</lineOrder></orientation></layout></ldml>',
       'en_001': b'<ldml><identity><language type="en"/><territory type="001"/></identity><layout><orientation><characterOrder>en_001</characterOrder></orientation></layout></ldml>',
       'root': b'<ldml><identity><language type="root"/></identity><delimiters><quotationStart>r</quotationStart></delimiters></ldml>',
       'en_AU': b'<ldml><identity><language type="en"/><territory type="AU"/></identity></ldml>'}


def wide(r):
    """a document with elements, attributes and values from all over the DTD, in no order"""
    with open('/repo/lib/sldr/sil.dtd', encoding='utf-8') as f:
        t = f.read()
    t = re.sub(r'<!--.*?-->', '', t, flags=re.S)
    kids = {m.group(1): [x for x in re.findall(r'[\w:-]+', m.group(2)) if x not in ('alias', 'special', 'PCDATA', 'EMPTY', 'ANY')] for m in re.finditer(r'<!ELEMENT\s+(\S+)\s+([^>]*)>', t)}
    ats = {}
    for m in re.finditer(r'<!ATTLIST\s+(\S+)\s+(\S+)\s+(\([^)]*\)|\S+)', t):
        ats.setdefault(m.group(1), []).append((m.group(2), [x.strip() for x in m.group(3)[1:-1].split('|')] if m.group(3).startswith('(') else None))

    def mk(tag, depth):
        a = {}
        for n, v in r.sample(ats.get(tag, []), min(3, len(ats.get(tag, [])))):
            if n not in ('draft', 'alt', 'references', 'validSubLocales', 'standard') and ':' not in n and 'xml' not in n:
                a[n] = r.choice(v) if v else 'v%d' % r.randrange(4)
        ks = kids.get(tag, [])
        ks = r.sample(ks, min(len(ks), 6 if depth else 12)) if depth < 4 else []
        c, seen = [], set()
        for k in ks * 2:
            x = mk(k, depth + 1)
            key = (k, repr(sorted(x.get('a', {}).items())))
            if key not in seen and ':' not in k:
                if not any(y['t'] == k and (not y.get('a') or not x.get('a')) for y in c):
                    seen.add(key)
                    c.append(x)
        r.shuffle(c)
        return G.N(tag, a, None if c else 'x', c)
    d = mk('ldml', 0)
    d.pop('a', None)
    d['c'] = [c for c in d['c'] if c['t'] not in ('identity', 'alias', 'fallback')]
    z = G.N('zone', {'type': 'Europe/Paris'}, None, [G.N('exemplarCity', None, 'p')])
    d['c'].append(G.N('dates', None, None, [G.N('timeZoneNames', None, None, [z, G.N('zone', {'type': 'Africa/Abidjan'}, None, [G.N('exemplarCity', None, 'a')])])])) if not any(c['t'] == 'dates' for c in d['c']) else None
    d['c'].append(G.N('identity', None, None, [G.N('language', {'type': 'aa'})]))
    return d


def trouble(r, k):
    x = r.random()
    if x < .4:
        return {'t': 'io', 'rules': [{'ops': r.choice(['openr', 'read', 'read', 'read+openr']), 'nth': r.choice([1, 1, 2, 3, r.randint(1, 60)]), 'count': r.choice([1, 1, 2, 0]), 'act': 'err', 'arg': r.choice(ERRS), 'sub': '$' + r.choice(FILES[k])}]}
    if x < .55:
        return {'t': 'sig', 'rules': [{'ops': r.choice(['openr', 'read', 'close', 'all']), 'nth': r.choice([1, 2, 3, r.randint(1, 100)]), 'count': 1, 'act': 'sigint', 'sub': r.choice(FILES[k]) if r.random() < .7 else ''}]}
    return {'t': 'raise', 'nth': int(10 ** r.uniform(0, {'load': 4.3, 'flat': 4.3, 'coll': 5.5, 'ducet': 5.5, 'tags': 6, 'iana': 5.7}[k])), 'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])}


def gen(r, i, tier):
    acts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < .3:
            ks = [r.choice(['load', 'flat', 'load']) for _ in range(r.choice([2, 2, 3, 4]))]
            if r.random() < .5:
                ks = [ks[0]] * len(ks)
            elif r.random() < .3:       # many source lines
                ks = [r.choice(['coll', 'ducet', 'tags', 'iana'])] * 2
            a = {'k': ks, 'seed': r.randrange(1 << 30), 'prob': r.choice([.0003, .003, .03])}
            if r.random() < .3:
                a['trouble'] = trouble(r, ks[0])
                if a['trouble']['t'] != 'io':
                    del a['trouble']
            acts.append(a)
        else:
            k = r.choice(KINDS)
            acts.append({'k': [k], 'trouble': trouble(r, k) if r.random() < .85 else None})
        if r.random() < .3:
            acts.append({'k': [r.choice(KINDS)], 'trouble': None})
    return {'acts': acts, 'docs': [{'doc': wide(r)}], 'tagseed': r.randrange(1000)}


def simplify(case):
    for i, a in enumerate(case['acts']):
        if len(a['k']) > 2:
            for j in range(len(a['k'])):
                acts = list(case['acts'])
                acts[i] = dict(a, k=a['k'][:j] + a['k'][j + 1:])
                yield dict(case, acts=acts)


def digest(x):
    return hashlib.sha1(repr(x).encode('utf-8', 'surrogatepass')).hexdigest()


def ops(sim, case):
    data = G.xml(case['docs'][0]['doc'])
    for k, v in FIX.items():
        sim.put('l/%s.xml' % k, v)
    r = random.Random(case['tagseed'])
    with open('/repo/lib/sldr/langtags.txt', encoding='utf-8') as f:
        lines = f.readlines()
    tags = [x.lstrip('*') for l in r.sample(lines, 40) for x in l.split() if x != '=']

    def load():
        return ser(ldml(data), norm=True)

    def flat():
        from sldr.ldml_merge import flattenlocale
        l = flattenlocale('en_AU', dirs=[sim.path('l')])
        return ser(l, norm=True)

    def coll():
        from sldr.collation import Collation
        c = Collation()
        c.convertSimple(['b/B', 'a/A', 'ng', 'z/Z', 'd dd', 'c', 'ɛ'])
        c.minimise('abcdefz')
        return c.asICU()

    def ducet():
        from sldr.ducet import readDucet, ducetCompare
        d = readDucet()
        return digest(sorted(d.items())), ducetCompare(d, 'a', 'b'), ducetCompare(d, 'A', 'a')

    def tags_():
        from sldr.langtags_full import LangTags, LangTag
        l = LangTags()
        return len(l), [(t, l[t].allforms() if t in l else None) for t in tags], [str(LangTag(t).analyse()) for t in tags[:5]]

    def iana():
        from sldr.iana import Iana
        i = Iana()
        return digest(sorted((k, sorted((a, sorted(b.items())) for a, b in v.items())) for k, v in vars(i).items() if isinstance(v, dict)))
    return {'load': load, 'flat': flat, 'coll': coll, 'ducet': ducet, 'tags': tags_, 'iana': iana}


def run(sim, case):
    fns = ops(sim, case)
    kinds = sorted({k for a in case['acts'] for k in a['k']} | {'load'})
    if not set(kinds) <= set(fns):
        raise InvalidCase("no such operation")
    ref = {}
    for k in kinds:
        o = sim.proc(fns[k], refs='/repo/lib/sldr')
        need(o.ok, 'fresh', "{} in a fresh process: {}", k, o.tb)
        ref[k] = o.value
    hits = 0
    sofar = []

    def judge(k, v, e, said, what, took):
        if e is not None:
            return 'failed'
        if v == ref[k]:
            return 'ok'
        if took and 'ERROR' in said and k in ('coll', 'ducet'):
            return 'reported'
        raise Violation('partial-data', "{}: {} gives {} instead of {}".format(what, k, cut(v, ref[k]), cut(ref[k], v)))

    for n, a in enumerate(case['acts']):
        t = a.get('trouble')
        what = "step {}: {} {}".format(n, a['k'], t or '')
        said = io.StringIO()
        rules = t.get('rules', ()) if t else ()
        where = None
        if len(a['k']) > 1:
            S = simthread.Sched(a['seed'], a['prob'], maxsteps=20000000)

            def go():
                with contextlib.redirect_stdout(said):
                    return S.run([fns[k] for k in a['k']])
            res, e = sim.inline(go, rules=rules, refs='/repo/lib/sldr')
            if e is not None:
                raise Violation('threads', "{}: {!r}".format(what, e))
            took = bool(rules) and sim.lastfired[0]
            sim.count('switches', len(S.switches))
            sim.event('switches', digest(S.switches))
            where = (digest(S.switches), took)
            hits += len(S.switches) > 0
            for k, (v, x) in zip(a['k'], res):
                if x is not None and not took:
                    raise Violation('threads', "{}: {} raised {!r} though nothing failed".format(what, k, x))
                judge(k, v, x, said.getvalue(), what, took)
        else:
            k = a['k'][0]
            R = None
            if t and t['t'] == 'raise':
                R = simthread.Raiser(t['nth'], {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[t['exc']])

            def go():
                with contextlib.redirect_stdout(said):
                    return R.run(fns[k]) if R else fns[k]()
            v, e = sim.inline(go, rules=rules, refs='/repo/lib/sldr')
            took = (R is not None and R.where is not None) or bool(rules and (sim.lastfired[0]))
            if R is not None and R.where:
                sim.count('fault:exception-at-line:' + t['exc'])
                where = R.where
            elif rules:
                where = [(x.op, x.p1) for x in sim.lastjournal][-1:]
            hits += bool(took)
            if e is not None and not took:
                raise Violation('not-usable', "{}: {} after {} raised {!r} though nothing failed now".format(what, k, sofar, e))
            o = judge(k, v, e, said.getvalue(), what + ' after ' + repr(sofar), took)
            sim.count('outcome-' + (o if took else 'calm'))
        sofar.append((a['k'], t and t['t']))
        sim.state(sofar, where)
    for k in kinds:
        said = io.StringIO()

        def go():
            with contextlib.redirect_stdout(said):
                return fns[k]()
        v, e = sim.inline(go, refs='/repo/lib/sldr')
        if e is not None:
            raise Violation('not-usable', "afterwards: {} after {} raised {!r}".format(k, sofar, e))
        judge(k, v, e, said.getvalue(), 'afterwards, following {}'.format(sofar), False)
    return {'nontrivial': hits > 0}


def cut(a, b):
    a, b = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...' + a[max(0, k - 80):k + 150] + '...'
