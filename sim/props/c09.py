"""Branches edited independently merge without losing anybody's edit"""
import copy, os, random
import gen as G
import model
from props.util import *
from props import toolkit as tk

ID = 'C09'
N = {'quick': 1500, 'thorough': 60000}
RULE = ("Net cases: two to four nodes start from one base document, each with a working file on disk, and make edits (changed, added, removed items, sections and attributes) on items of their own; nodes send their working "
        "documents to each other through a simulated network that drops, duplicates, delays and reorders them, a received document is merged three-way against the base and saved, and processes are killed during merges. "
        "After every merge the file must hold exactly the base with the edits known to the node, and once the network heals all nodes must hold the same bytes. "
        "Clash cases: two branches change the same items; the receiving side's value stays, and a comment records all three; merging again changes nothing. Non-trivial: at least one merge of differing documents.")
REAL = ['sldr.ldml_merge merge/_align/clash, load, normalise, save', 'scripts/ldmlmerge in a tenth of the runs']
STUB = 'network between the nodes; system call results and process death by the interposition library'
STATES = 'distinct (node, set of edits merged) situations'
ASSUME = ['changes of @draft alone, collation rule text and alternates of clashing items are not part of the clash workload']


def X(d):
    """All documents declare the same namespaces: what is compared is content"""
    return G.xml(d, {'fixns': True})


def leafpaths(d):
    res = []

    def w(n, p):
        for i, c in enumerate(n.get('c', ())):
            if c.get('c'):
                w(c, p + [i])
            elif 'x' in c:
                res.append(p + [i])
    w(d, [])
    return res


def get(d, p):
    for i in p:
        d = d['c'][i]
    return d


def ident(n):
    return [n['t'], sorted((k, v) for k, v in n.get('a', {}).items() if k not in ('alt', 'draft'))]


def gen(r, i, tier):
    d = G.doc(r, 'aa', rich=r.choice([.4, .7, 1]), alts=r.choice([0, .1, .3]), draft=r.choice([0, .3]), collations=False, comments=0, special=r.random() < .5)
    while len(leafpaths(d)) < 4:
        d = G.doc(r, 'aa', rich=1, alts=.1, collations=False, comments=0)
    qs = quotes(r, d) if r.random() < .5 else []
    alike = r.random() < .2
    if alike:       # the same change in different places
        for p in leafpaths(d):
            get(d, p)['x'] = 'same'
    groups = {}
    for p in leafpaths(d):
        groups.setdefault((tuple(p[:-1]), repr(ident(get(d, p)))), []).append(p)
    ks = sorted(groups, key=repr)
    r.shuffle(ks)
    c = {'docs': [{'doc': d}], 'ud': r.random() < .7, 'tool': i % 10 == 3, 'pseed': r.randrange(1 << 30)}
    if i % 3 == 2:
        c['k'] = 'clash'
        c['winner'] = r.choice([None, None, 'this', 'other'])
        c['edits'] = []
        for j, k in enumerate(ks[:r.randint(1, 5)]):
            alts = len(groups[k]) > 1 or 'alt' in get(d, groups[k][0]).get('a', {})
            p = r.choice(groups[k])
            kind = r.choice(['both', 'both', 'same', 'tdel', 'odel', 't', 'o'])
            if alts and kind not in ('t', 'o'):
                kind = 'o'
            c['edits'].append({'k': kind, 'p': p, 'g': groups[k], 't': 'T%d &' % j, 'o': 'O%d "' % j})
        for j, (p, a, v) in enumerate(qs):
            if r.random() < .5:
                kind = r.choice(['aboth', 'asame', 'atdel', 'aodel', 'at', 'ao', 'abdel'])
                c['edits'].append({'k': kind, 'p': p, 'a': a, 't': 't%d<' % j, 'o': 'o%d' % j})
        return c
    c['k'] = 'net'
    n = r.choice([2, 2, 3, 4])
    c['n'] = n
    ed = []
    secs = set()
    if r.random() < .3 and len(d['c']) > 3:
        s = r.randrange(1, len(d['c']))
        secs.add(s)
        ed.append({'w': r.randrange(n), 'k': 'dels', 'p': [s]})
    for j, k in enumerate(ks[:r.randint(2, 9)]):
        if k[0] and k[0][0] in secs:
            continue
        p = r.choice(groups[k])
        q = get(d, p)
        x = r.random()
        w = r.randrange(n)
        if x < .5:
            ed.append({'w': w, 'k': 'text', 'p': p, 'x': 'E%d' % j + r.choice(['', ' & <', '\u00a0'])})
        elif x < .7:
            ed += [{'w': w, 'k': 'del', 'p': q2, 'g': j} for q2 in groups[k]]
        elif x < .9 and q.get('a', {}).get('type'):
            ed.append({'w': w, 'k': 'add', 'p': p[:-1], 'n': G.N(q['t'], {'type': 'new%d' % j, **({'draft': r.choice(G.DRAFTS)} if r.random() < .3 else {})}, 'N%d' % j)})
        else:
            ed.append({'w': w, 'k': 'text', 'p': p, 'x': 'E%d' % j})
    for j, (p, a, v) in enumerate(qs):
        if p[0] not in secs and r.random() < .5:
            ed.append({'w': r.randrange(n), 'k': 'attr', 'p': p, 'a': a, 'x': r.choice(['A%d' % j, 'A%d"' % j, None])})
    have = {x['t'] for x in d['c']}
    new = [x for x in G.doc(r, 'aa', rich=1, alts=.1, collations=False, comments=0, special=False)['c'] if x['t'] not in have and x['t'] != 'identity']
    for x in new[:2]:
        if r.random() < .3:
            parts = [x]
            if r.random() < .5:     # several nodes add parts of it
                y = x
                while len(y['c']) == 1 and y['c'][0].get('c'):
                    y = y['c'][0]
                parts, seen = [], []
                for k in y['c']:
                    if ident(k) not in seen:
                        seen.append(ident(k))
                        parts.append(part(x, y, [z for z in y['c'] if ident(z) == ident(k)]))
            for z in parts:
                ed.append({'w': r.randrange(n), 'k': 'add', 'p': [], 'n': z})
    if r.random() < .2:
        idn = [i for i, x in enumerate(d['c'][0]['c']) if x['t'] == 'special']
        if idn:
            ed.append({'w': r.randrange(n), 'k': 'attr', 'p': [0, idn[0], 0], 'a': 'revid', 'x': 'r%d' % r.randrange(9)})
    if alike:
        for e in ed:
            if e['k'] == 'text':
                e['x'] = 'E'
    c['edits'] = ed
    acts = []
    gs = sorted({group(e, m) for m, e in enumerate(ed)})
    work = [g for g in gs]
    r.shuffle(work)
    for g in work:
        acts.append(['work', g])
        for _ in range(r.choice([0, 1, 2])):
            x = r.random()
            if x < .45:
                a, b = r.sample(range(n), 2)
                acts.append(['send', a, b])
            elif x < .85:
                acts.append(['deliver', r.randrange(100), r.random() < .25])
            elif x < .93:
                acts.append(['drop', r.randrange(100)])
            else:
                acts.append(['crash', r.randrange(100), r.randint(1, 14), r.choice(['crash_before', 'crash_after', 'torn'])])
    c['acts'] = acts
    return c


def quotes(r, d):
    """Elements whose data is in attributes. Returns [(path, attribute, value)]"""
    i = next((i for i, x in enumerate(d['c']) if x['t'] == 'delimiters'), None)
    if i is None:
        i = len(d['c'])
        d['c'].append(G.N('delimiters', c=[G.N('quotationStart', None, 'q')]))
    sp = {'t': 'special', 'c': []}
    for t, kt, key, opt in r.sample([('sil:matched-pairs', 'sil:matched-pair', ('open', 'close'), ['paraClose', 'note']), ('sil:quotation-marks', 'sil:quotation', ('level',), ['open', 'close', 'continue', 'type']),
                                     ('sil:punctuation-patterns', 'sil:punctuation-pattern', ('context', 'pattern'), ['note', 'hint'])], r.randint(1, 3)):
        sp['c'].append(G.N(t, c=[G.N(kt, dict([(k, str(m + 1)) for k in key] + [(o, 'v%d%s' % (m, o)) for o in opt if r.random() < .7])) for m in range(r.randint(1, 2))]))
        sp['c'][-1]['opt'] = opt
    d['c'][i]['c'].append(sp)
    res = []
    for a, x in enumerate(sp['c']):
        opt = x.pop('opt')
        for b, y in enumerate(x['c']):
            res += [([i, len(d['c'][i]['c']) - 1, a, b], o, y['a'].get(o)) for o in opt]
    return res


def part(x, y, kids):
    return dict(x, c=kids if x is y else [part(x['c'][0], y, kids)])


def group(e, m):
    return 'g%d' % e['g'] if 'g' in e else 'e%d' % m


def apply(d, edits):
    d = copy.deepcopy(d)
    dels = []
    try:
        for e in edits:
            if e['k'] == 'add':
                add(get(d, e['p']), e['n'])
            elif e['k'] in ('del', 'dels'):
                dels.append((get(d, e['p'][:-1]), get(d, e['p'])))
            elif e['k'] == 'attr':
                if e['x'] is None:
                    get(d, e['p'])['a'].pop(e['a'], None)
                else:
                    get(d, e['p']).setdefault('a', {})[e['a']] = e['x']
            else:
                get(d, e['p'])['x'] = e['x']
    except (IndexError, KeyError):
        raise InvalidCase("no such place")
    for p, c in dels:
        p['c'] = [x for x in p['c'] if x is not c]
    return d


def add(p, n):
    """n into p; a section that is there already takes what is in n"""
    for c in p.setdefault('c', []):
        if 'x' not in c and 'x' not in n and ident(c) == ident(n):
            for k in n.get('c', ()):
                add(c, k)
            return
    p['c'].append(copy.deepcopy(n))


def run(sim, case):
    d = case['docs'][0]['doc']
    ud = case['ud']
    if not leafpaths(d):
        raise InvalidCase("empty")

    def L(b, **kw):
        return ldml(b, merge=True, usedrafts=ud, **kw)

    def canon(doc):
        return ser(L(X(doc)), norm=True, usedrafts=True)

    def merge(work, other, base, out, winner=None, **plan):
        """work, other, base are files; like scripts/ldmlmerge"""
        if case['tool']:
            a = [work, base, other, '-o', out]
            if winner:
                a += ['-w', winner]
            return tk.simtool.tool(sim, 'ldmlmerge', a, cwd=sim.root, **plan)

        def go():
            t, b, o = L(work, winner=winner), L(base), L(other)
            t.merge(o, b, default='proposed')
            t.normalise(usedrafts=True)
            t.save_as(out)
        return sim.proc(go, **plan)
    if case['tool'] and not ud:
        ud = True
    raw = X(d) if ud else canon(d)      # saving drops drafts that say nothing, which only matters where drafts are compared as content
    base = sim.put('base.xml', raw)
    if case['k'] == 'clash':
        return clash(sim, case, d, L, canon, merge, base)
    n = case['n']
    ed = case['edits']
    byg = {}
    for m, e in enumerate(ed):
        byg.setdefault(group(e, m), []).append(e)
    work = [sim.put('n%d/aa.xml' % k, raw) for k in range(n)]
    know = [frozenset() for _ in range(n)]
    own = [frozenset() for _ in range(n)]
    net = []            # (destination, bytes, edits)
    done = set()
    merges = 0

    def doc_of(gs):
        return apply(d, [e for m, e in enumerate(ed) if group(e, m) in gs])

    def check(k, what):
        want = canon(doc_of(know[k]))
        got = sim.get('n%d/aa.xml' % k)
        if not know[k] and got == raw:
            return
        if got != want:
            t1, t2 = model.parse(want), model.parse(got)
            raise Violation('merge', "{}: node {} should hold the base with edits {}: {}".format(
                what, k, sorted(know[k]), model.diff(t1, t2) or model.diff_comments(t1, t2) or 'order or layout differs: ' + brief(got, want)))
        sim.state(k, sorted(know[k]))

    def deliver(m, what, **plan):
        nonlocal merges
        k, data, es = m
        other = sim.put('msg.xml', data)
        o = merge(work[k], other, base, work[k], **plan)
        if o.kind == 'crash':
            got = sim.get('n%d/aa.xml' % k)
            prev = know[k]
            if got is not None and got == canon(doc_of(prev | es)):
                know[k] = prev | es
            check(k, what + ', killed')
            return
        need(o.kind in ('ok', 'exit') and not o.code, 'merge-failed', "{}: {}", what, (o.tb or o.err or '')[-600:])
        merges += es - know[k] != set()
        know[k] |= es
        check(k, what)

    def heal():
        for a in range(n):
            for b in range(n):
                if a != b:
                    deliver((b, sim.get('n%d/aa.xml' % a), know[a]), 'after healing: {} to {}'.format(a, b))
    for a in case['acts']:
        if a[0] == 'work':
            es = byg.get(a[1])
            if not es:
                continue
            done.add(a[1])
            k = es[0]['w']
            own[k] |= {a[1]}
            deliver((k, X(doc_of(own[k])) if ud else canon(doc_of(own[k])), own[k]), 'node {} makes edit {}'.format(k, a[1]))
        elif a[0] == 'send':
            if a[1] < n and a[2] < n:
                net.append((a[2], sim.get('n%d/aa.xml' % a[1]), know[a[1]]))
        elif a[0] == 'drop':
            if net:
                net.pop(a[1] % len(net))
                sim.count('fault:message-lost')
        elif net:
            j = a[1] % len(net)
            if j != 0:
                sim.count('fault:message-reordered')
            if a[0] == 'deliver':
                m = net[j]
                if a[2]:
                    sim.count('fault:message-duplicated')
                else:
                    net.pop(j)
                deliver(m, 'delivery to {}'.format(m[0]))
            else:
                deliver(net[j], 'delivery to {}'.format(net[j][0]), rules=[{'ops': 'mut', 'nth': a[2], 'act': a[3], 'arg': 500}])
    heal()
    heal()
    alldone = frozenset(done)
    for k in range(n):
        need(know[k] == alldone, 'harness', "{} {}", know[k], alldone)
    fin = {sim.get('n%d/aa.xml' % k) for k in range(n)}
    if len(fin) > 1 and done:
        a, b = sorted(fin)[:2]
        raise Violation('diverged', "nodes hold different documents: {} / {}".format(brief(a, b), brief(b, a)))
    return {'nontrivial': merges > 0}


def clash(sim, case, d, L, canon, merge, base):
    T, O = copy.deepcopy(d), copy.deepcopy(d)
    te, oe, clashes = [], [], []
    win = case['winner']
    want = []
    try:
        for e in case['edits']:
            k = e['k']
            x = get(d, e['p'])
            if 'a' in e:
                bv = x.get('a', {}).get(e['a'])
                if e['t'] == bv or e['o'] == bv:
                    raise InvalidCase("no change")
                ed = lambda v: {'k': 'attr', 'p': e['p'], 'a': e['a'], 'x': v}
                tv, ov, wv = {'aboth': (e['t'], e['o'], e['t']), 'asame': (e['t'],) * 3, 'atdel': (None, e['o'], e['o']), 'aodel': (e['t'], None, None if win == 'other' and bv is not None else e['t']),
                              'at': (e['t'], bv, e['t']), 'ao': (bv, e['o'], e['o']), 'abdel': (None, None, None)}[k]
                te.append(ed(tv))
                oe.append(ed(ov))
                want.append(ed(wv))
                if k == 'aboth':
                    clashes.append((e['t'], e['o'], bv or 'None'))
                continue
            if 'x' not in x or x['x'] in (e['t'], e['o']):
                raise InvalidCase("not a leaf")
            tt, oo = {'k': 'text', 'p': e['p'], 'x': e['t']}, {'k': 'text', 'p': e['p'], 'x': e['o']}
            dels = [{'k': 'del', 'p': g} for g in e['g']]
            if k == 'both':
                te.append(tt)
                oe.append(oo)
                want.append(tt)
                clashes.append((e['t'], e['o'], x['x']))
            elif k == 'same':
                te.append(tt)
                oe.append(tt)
                want.append(tt)
            elif k == 'tdel':
                te += dels
                oe.append(oo)
                want.append(oo)
            elif k == 'odel':
                te.append(tt)
                oe += dels
                want += dels if win == 'other' else [tt]
            elif k == 't':
                te.append(tt)
                want.append(tt)
            else:
                oe.append(oo)
                want.append(oo)
    except (IndexError, KeyError):
        raise InvalidCase("no such place")
    w = sim.put('t.xml', X(apply(d, te)))
    oth = sim.put('o.xml', X(apply(d, oe)))
    o = merge(w, oth, base, sim.path('m.xml'), winner=win)
    need(o.kind in ('ok', 'exit') and not o.code, 'merge-failed', "{}", (o.tb or o.err or '')[-600:])
    got = sim.get('m.xml')
    a, b = model.parse(canon(apply(d, want))), model.parse(got)
    x = model.diff(a, b)
    need(not x, 'clash', "winner {}: {}", win, x)
    cs = sorted(c.strip().replace('- ', '-') for c in model.comments(b))
    for t, oo, bb in clashes:
        hit = [c for c in cs if all(clean(v) in c for v in (t, oo, bb))]
        need(len(hit) == 1, 'clash-comment', "{} of the comments {} records {!r} / {!r} / {!r}", len(hit), cs, t, oo, bb)
    need(len(cs) == len(clashes), 'clash-comment', "comments {} for {} clashes", cs, len(clashes))
    for e in case['edits']:
        if e['k'] == 'both':
            at = [n for n in walk(b) if not n.kids and n.text == model.clean(e['t'])]
            need(any(any(clean(e['o']) in c.replace('- ', '-') for c in n.before) for n in at), 'clash-comment', "the comment on {!r} is not at that item", e['t'])
        elif e['k'] == 'aboth':
            at = [n for n in walk(b) if n.at.get(e['a']) == e['t']]
            need(any(any(clean(e['o']) in c.replace('- ', '-') for c in n.before) for n in at), 'clash-comment', "the comment on @{}={!r} is not at that item", e['a'], e['t'])
    o = merge(sim.path('m.xml'), oth, base, sim.path('m2.xml'), winner=win)
    need(o.kind in ('ok', 'exit') and not o.code, 'merge-failed', "again: {}", (o.tb or o.err or '')[-600:])
    need(sim.get('m2.xml') == got, 'not-idempotent', "merging the same branch again: {} instead of {}", brief(sim.get('m2.xml'), got), brief(got, sim.get('m2.xml')))
    sim.state(win, [e['k'] for e in case['edits']])
    return {'nontrivial': bool(clashes) or len(want) > 0}


def clean(s):
    return model.clean(s).split('\n')[0].replace('- ', '-').strip()


def walk(e):
    yield e
    for c in e.kids:
        yield from walk(c)


def brief(b, other):
    k = next((i for i, (x, y) in enumerate(zip(b, other)) if x != y), min(len(b), len(other)))
    return '...' + repr(b[max(0, k - 80):k + 120].decode('utf-8', 'replace')) + '...'
