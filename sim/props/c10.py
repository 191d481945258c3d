"""A flattened locale has each item from its nearest ancestor"""
import copy, hashlib, os, re
import gen as G
import model
from props.util import *
from props import toolkit as tk

ID = 'C10'
N = {'quick': 1500, 'thorough': 30000}
RULE = ("A case is a directory tree of related locales (one or two directories, some locales missing, scripts and explicit fallbacks given or not) and a history: files are changed, removed, put back, damaged; between these, locales are flattened and unflattened "
        "in the same process, by the library, by ldmlflatten or only where something in the chain changed, with reads of files failing at chosen calls. Every result is compared with the nearest-ancestor value of every item worked out independently "
        "from the bytes of the files; when a file of the chain cannot be read or parsed there must be no result. Non-trivial: some result inherited an item or some ancestor failed.")
REAL = ['sldr.ldml_merge flattenlocale/overlay/difference, load, normalise, save', 'scripts/ldmlflatten in some steps']
STUB = 'system call results by the interposition library'
STATES = 'distinct (locale, files of its chain that exist or are damaged, operation)'
ASSUME = ['alternates belong to their item: only the primary value of an item is compared', 'identity is left out of the comparison of items, except that it must be the locale\'s own', 'collations come all from the nearest file that has a collations element (the default collation is an item as any other); sil:modified is not compared',
          '@draft is not compared (what it says depends on the document it stands in)', 'fonts go by their types: a type has the fonts of the nearest file that has any for it, and fonts for the default (or no) type leave nothing further to inherit', 'a parent locale is the one supplementalData.xml gives, or else the tag without its last part, and root is the last']
FAM = [['root', 'aa', 'aa_Latn', 'aa_Latn_DJ', 'aa_Arab', 'aa_DJ'], ['root', 'en', 'en_001', 'en_150', 'en_AT', 'en_AU'], ['root', 'sr', 'sr_Latn', 'sr_Latn_RS', 'sr_ME', 'sr_Cyrl_ME'],
       ['root', 'es', 'es_419', 'es_AR', 'pt', 'pt_PT', 'pt_AO'], ['root', 'zh', 'zh_Hant', 'zh_Hant_HK', 'zh_Hant_MO', 'yue'], ['root', 'no', 'nb', 'nb_NO', 'ht', 'fr', 'fr_HT']]
DIST = ('type', 'numberSystem', 'id', 'name')
ANY = ('', None)
ERRS = ['EIO', 'EACCES', 'ENOMEM', 'EMFILE']
_par = {}


def parents():
    """straight from the data file"""
    if not _par:
        from xml.etree import ElementTree as et
        for p in et.parse('/repo/lib/sldr/supplementalData.xml').getroot().find('parentLocales').findall('parentLocale'):
            for l in p.get('locales').split():
                _par.setdefault(l, p.get('parent'))
    return _par


def chain(loc, fallback=None):
    def up(l):
        return parents().get(l) or ('_'.join(l.split('_')[:-1]) or 'root')
    res = []
    for f in fallback if fallback else [up(loc)]:
        while f != 'root':
            if f not in res:
                res.append(f)
            f = up(f)
    return res + ['root'] if loc != 'root' else []


def mkdoc(r, loc, plain=False):
    while True:
        d = G.doc(r, loc, rich=r.choice([.3, .6, 1]), alts=r.choice([0, .15]), draft=r.choice([0, .2]), special=False, collations=r.random() < .25, comments=r.choice([0, .1]),
                  uparrow=r.choice([0, 0, .15]), script=r.choice([None, None, 'Latn', 'Arab']) if loc != 'root' and not plain else None)
        if len(d['c']) > 1:
            break
    if r.random() < .3 and '_' in loc and not plain:
        d['c'].append(G.N('fallback', None, ' '.join(r.sample([x for x in ['aa', 'en', 'en_150', 'aa_Latn', 'pt_PT', 'no'] if x != loc and loc not in chain(x)], r.choice([1, 2])))) if r.random() < .4 else G.N('layout', c=[G.N('orientation', c=[G.N('lineOrder', None, 'ttb')])]))
        if [c['t'] for c in d['c']].count('layout') > 1:
            d['c'].pop()
    if r.random() < .4:
        x = G.N('sil:external-resources', c=[
            G.N('sil:font', dict({'name': n}, **dict(({'types': t} if t else {}), **({'features': 'f=1'} if r.random() < .2 else {}))), c=[G.N('sil:url', None, 'http://f/%s%d' % (n, r.choice([0, 0, 1])))])
            for n, t in zip(r.sample(['A', 'B', 'C', 'D'], r.choice([0, 1, 1, 2, 3])), r.sample([None, 'default', 'ui', 'ui', 'kbd', 'ui kbd', 'default ui', 'doc', 'doc ui', 'emphasis', 'doc kbd'], 4))] +
            [G.N('sil:kbd', {'id': i, 'type': 'kmp'}, c=[G.N('sil:url', None, 'http://k/%d' % r.randrange(2))]) for i in r.sample('jk', r.choice([0, 1, 1, 2]))])
        s = next((c for c in d['c'] if c['t'] == 'special'), None)
        if x.get('c') and s:
            s['c'].append(x)
        elif x.get('c'):
            d['c'].append(G.N('special', c=[x]))
    return d


def akin(r, d, o):
    """d gets sections much like those of o"""
    if d is o:
        return
    for s in o['c']:
        if s['t'] in ('identity', 'fallback', 'special') or r.random() < .4:
            continue
        s = copy.deepcopy(s)
        if s['t'] == 'collations':
            if r.random() < .6:
                s['c'] = [c for c in s['c'] if r.random() < .7]
            for c in s['c']:
                if r.random() < .3:
                    (c['c'][0] if c.get('c') else c)['x'] = 'x%d' % r.randrange(2)
        for n in G.walk(s):
            new = []
            for c in n.get('c', ()):
                x = r.random()
                if 'x' in c and not c.get('c') and x < .3:
                    if 'alt' not in c.get('a', {}):
                        if x < .2 and not any(y['t'] == c['t'] and y.get('a', {}).get('alt') == 'zz' for y in n['c']):
                            new.append(G.N(c['t'], dict(c.get('a', {}), alt='zz'), 'zz%d' % r.randrange(3)))
                        elif x < .25:
                            c['x'] = 'other%d' % r.randrange(3)
                    elif x < .1:
                        continue
                    elif x < .2:
                        c['x'] = 'other%d' % r.randrange(3)
                new.append(c)
            if new:
                n['c'] = new
        d['c'] = [c for c in d['c'] if c['t'] != s['t']] + [s]


def gen(r, i, tier):
    fam = r.choice(FAM)
    two = r.random() < .3
    plain = r.random() < .4         # no scripts, no explicit fallbacks
    puts = []
    for l in fam:
        if r.random() < .8:
            puts.append([r.choice([0, 1]) if two else 0, l, mkdoc(r, l, plain), r.random() < .3])
    if len(puts) > 1 and r.random() < .5:
        for p in r.sample(puts, r.randint(1, len(puts) - 1)):
            akin(r, p[2], r.choice(puts)[2])
        if r.random() < .1:     # carelessly copied
            i = copy.deepcopy(puts[0][2]['c'][0])
            for p in puts:
                if p[2]['c'][0]['t'] == i['t'] == 'identity':
                    p[2]['c'][0] = copy.deepcopy(i)
    acts = []
    nact = r.randint(2, 7)
    for _ in range(nact):
        x = r.random()
        l = r.choice(fam[1:])
        if x < .3:
            acts.append(['flat', l, r.choice(['lib', 'lib', 'lib', 'tool'])])
        elif x < .42:
            acts.append(['fault', l, r.choice(fam), {'ops': r.choice(['openr', 'read', 'read']), 'nth': r.choice([1, 1, 1, 2, 3]), 'count': r.choice([0, 1]), 'act': 'err', 'arg': r.choice(ERRS)}])
        elif x < .5:
            acts.append(['round', l])
        elif x < .57 if plain else x < .52:
            acts.append(['tree', r.choice(['lib', 'lib', 'tool'])])
        elif x < .7:
            acts.append(['put', r.choice([0, 1]) if two else 0, r.choice(fam), None, r.random() < .3])
            acts[-1][3] = mkdoc(r, acts[-1][2], plain)
            if r.random() < .6:
                acts.append(['inc', None])
        elif x < .8:
            acts.append(['rm', r.choice(fam)])
        elif x < .9:
            acts.append(['edit', r.choice(fam), r.random(), r.choice(['text', 'del'])])
            if r.random() < .6:
                acts.append(['inc', None])
        else:
            acts.append(['junk', r.choice(fam), r.random(), r.choice(['cut', 'bad'])])
            if r.random() < .4:
                acts.append(['flatall'])
            if r.random() < .6:
                acts.append(['mend'])
    acts.append(['flatall'])
    return {'fam': fam, 'two': two, 'puts': puts, 'acts': acts}


def leafmap(e, path=()):
    out = {}
    for c in e.kids:
        if not path and c.tag in ('identity', 'fallback') or c.tag in (FONT, 'collation'):
            continue
        k = path + ((c.tag, tuple(sorted((a, v) for a, v in c.at.items() if a in DIST))),)
        if c.kids:
            out.update(leafmap(c, k))
        elif c.text and 'alt' not in c.at:
            out[k] = (c.text, tuple(sorted((a, v) for a, v in c.at.items() if a not in DIST and a != 'draft')))
        elif c.text:
            out.setdefault(k, ANY)      # an item that only has alternates
    return out


def collations(e):
    def flat(n):
        return (n.tag, n.text, tuple(sorted((a, v) for a, v in n.at.items() if a not in ('draft', MODIFIED))), tuple(sorted((flat(c) for c in n.kids if 'alt' not in c.at), key=repr)))
    cs = [c for s in e.kids if s.tag == 'collations' for c in s.kids if c.tag == 'collation']
    return {(('collation', ()),): (sorted((flat(c) for c in cs), key=repr), ())} if cs else {}


def fonts(e):
    """type -> its fonts"""
    out = {}
    for s in e.kids:
        for x in s.kids if s.tag == 'special' else ():
            for f in x.kids:
                if f.tag == FONT:
                    d = (tuple(sorted((a, v) for a, v in f.at.items() if a not in ('types', 'draft'))), tuple(u.text for u in f.kids))
                    for t in f.at.get('types', '').split() or ['default']:
                        out.setdefault(t, set()).add(d)
    return {((FONT, (('types', t),)),): (sorted(v), ()) for t, v in out.items()}


DEFAULT = ((model._cn(G.SIL + '}font'), (('types', 'default'),)),)
FONT = DEFAULT[0][0]
MODIFIED = model._cn(G.SIL + '}modified')


def altmap(e, path=()):
    out = {}
    for c in e.kids:
        if not path and c.tag in ('identity', 'fallback'):
            continue
        k = path + ((c.tag, tuple(sorted((a, v) for a, v in c.at.items() if a in DIST or a == 'alt'))),)
        if c.kids:
            out.update(altmap(c, k))
        elif 'alt' in c.at:
            out[k] = c.text
    return out


def ident(e):
    return next((model.key(c) for c in e.kids if c.tag == 'identity'), None)


def script(e):
    sp = t = None
    for i in e.kids:
        if i.tag == 'identity':
            for c in i.kids:
                if c.tag == 'script':
                    t = c.at.get('type')
                if c.tag == 'special':
                    for x in c.kids:
                        if x.tag == model._cn(G.SIL + '}identity'):
                            sp = x.at.get('script')
    return sp if sp is not None else t


class ToolFails(Violation):
    def __init__(self, msg):
        super().__init__('tool-fails', 'ldmlflatten: ' + msg[-1000:])


class Tree:
    def __init__(self, sim, two):
        self.sim = sim
        self.nd = 2 if two else 1
        self.cur = [{} for _ in range(2)]       # locale -> (relative path, bytes, damaged)
        for d in range(self.nd):
            os.makedirs(sim.path('d%d' % d), exist_ok=True)
        self.dirs = [sim.path('d%d' % d) for d in range(self.nd)]

    def put(self, d, loc, data, alpha=False, damaged=False):
        d %= self.nd
        self.rm1(d, loc)
        p = 'd%d/%s%s.xml' % (d, loc[0] + '/' if alpha else '', loc)
        self.sim.put(p, data)
        self.cur[d][loc] = (p, data, damaged)

    def rm1(self, d, loc):
        if loc in self.cur[d]:
            os.remove(self.sim.path(self.cur[d].pop(loc)[0]))

    def find(self, loc):
        for d in range(self.nd):
            if loc in self.cur[d]:
                return d, self.cur[d][loc]
        return None

    def doc(self, loc):
        f = self.find(loc)
        return None if f is None else model.parse(f[1][1], uparrows=False)

    def chainfiles(self, loc):
        own = self.doc(loc)
        fb = next((c.text.split() for c in own.kids if c.tag == 'fallback'), None)
        return [f for f in chain(loc, fb) if self.find(f)]

    def expect(self, loc, hops=None):
        """item map, or None if some file that matters cannot be used"""
        if self.find(loc)[1][2]:
            return None
        own = self.doc(loc)
        m = leafmap(own)
        m.update(fonts(own))
        m.update(collations(own))
        blocked = any(c.tag == 'collations' for c in own.kids)
        n0 = len(m)
        if any(self.find(f)[1][2] for f in self.chainfiles(loc)):
            return None
        for f in self.chainfiles(loc):
            o = self.doc(f)
            if script(o) is not None and script(o) != script(own):
                continue
            fs = {} if DEFAULT in m else fonts(o)
            cs = {} if blocked else collations(o)
            blocked = blocked or any(c.tag == 'collations' for c in o.kids)
            for k, v in list(leafmap(o).items()) + list(fs.items()) + list(cs.items()):
                m.setdefault(k, v)
        if hops is not None:
            hops.append(len(m) - n0)
        return m


def run(sim, case):
    from sldr.ldml_merge import flattenlocale
    T = Tree(sim, case['two'])
    docs = {}
    inherited = []
    failed = 0
    out = {}
    changed = set()
    for p in case['puts'] + [[0] + a[2:4] for a in case['acts'] if a[0] == 'put']:
        for c in p[2].get('c', ()):
            if c['t'] == 'fallback' and any(p[1] == f or p[1] in chain(f) for f in c.get('x', '').split()):
                raise InvalidCase("a locale that falls back to itself")
    for p in case['puts']:
        T.put(p[0], p[1], G.xml(p[2]), p[3])
    os.makedirs(sim.path('out'), exist_ok=True)

    def out_of(l):
        l.normalise()
        p = sim.path('o.xml')
        l.save_as(p)
        return sim.get('o.xml')

    def flat(loc, rev='f', how='lib', **kw):
        def go():
            x = flattenlocale(loc, dirs=T.dirs, rev=rev, **kw)
            return None if x is None else out_of(x)
        if how == 'lib':
            return go()
        a = ['-o', sim.path('out'), '-l', loc]
        for d in T.dirs:
            a += ['-i', d]
        old = sim.path('out', loc + '.xml')
        if os.path.exists(old):
            os.remove(old)
        o = tk.simtool.tool(sim, 'ldmlflatten', a, cwd=sim.root, pool={'seed': len(loc), 'prob': 0, 'ncpu': 2})
        got = sim.get('out/%s.xml' % loc)
        if got is None or o.kind == 'exc' or o.code:
            raise ToolFails(o.out + o.err)
        return got

    def compare(loc, got, want, what):
        sim.event(what, model_hash(got))
        t = model.parse(got)
        g = leafmap(t)
        g.update(fonts(t))
        g.update(collations(t))
        need(ident(t) == ident(T.doc(loc)), 'identity', "{}: identity is not the locale's own: {}", what, quote(got, 300))
        if g == want:
            return
        for k in want:
            if k not in g:
                raise Violation('missing', "{}: {} should be {!r}; it is missing".format(what, show(k), want[k][0]))
            if g[k] != want[k] and ANY not in (g[k], want[k]):
                raise Violation('wrong-ancestor', "{}: {} should be {!r} (nearest in {}), is {!r}".format(what, show(k), want[k], [loc] + T.chainfiles(loc), g[k]))
        for k in [k for k in g if k not in want]:
            raise Violation('extra', "{}: {} ({!r}) comes from none of {}".format(what, show(k), g[k][0], [loc] + T.chainfiles(loc)))

    def check(loc, how, what):
        nonlocal failed
        if T.find(loc) is None:
            return None
        want = T.expect(loc, inherited)
        try:
            got = flat(loc, how=how)
        except Exception as e:
            if want is None:
                failed += 1
                sim.event('refused', type(e).__name__)
                return None
            raise
        if got is None:
            need(T.find(loc)[1][2], 'missing', "{}: there is nothing for this locale", what)
            failed += 1
            return None
        if want is None:
            raise Violation('half-inherited', "{}: gives {} though {} cannot be read".format(what, quote(got, 200), [f for f in [loc] + T.chainfiles(loc) if T.find(f)[1][2]]))
        compare(loc, got, want, what)
        sim.state(loc, how, [f for f in T.chainfiles(loc)], changed and sorted(changed))
        return got

    for n, a in enumerate(case['acts']):
        k = a[0]
        what = "step {}: {} {}".format(n, k, a[1] if len(a) > 1 and isinstance(a[1], str) else '')
        if k == 'put':
            T.put(a[1], a[2], G.xml(a[3]), a[4])
            changed.add(a[2])
        elif k == 'rm':
            f = T.find(a[1])
            if f:
                T.rm1(f[0], a[1])
                changed.add(a[1])
        elif k == 'edit':
            f = T.find(a[1])
            if f and not f[1][2]:
                t = f[1][1]
                ls = [m for m in _leaves(t)]
                if ls:
                    m = ls[int(a[2] * len(ls))]
                    t = t[:m.start(1)] + (b'edit%d' % n) + t[m.end(1):] if a[3] == 'text' else t[:m.start()] + t[m.end():]
                    T.put(f[0], a[1], t, '/' in f[1][0][3:])
                    changed.add(a[1])
        elif k == 'junk':
            f = T.find(a[1])
            if f and not f[1][2]:
                b = f[1][1]
                c = max(1, int(a[2] * b.rindex(b'</ldml')))
                docs[a[1]] = (f[0], b)
                T.put(f[0], a[1], b[:c] if a[3] == 'cut' else b + b'<x', '/' in f[1][0][3:], True)
                sim.count('fault:damaged-file')
                changed.add(a[1])
        elif k == 'mend':
            for l, (d, b) in docs.items():
                if l in T.cur[d] and T.cur[d][l][2]:
                    T.put(d, l, b)
                    changed.add(l)
            docs.clear()
        elif k == 'flat':
            check(a[1], a[2], what)
        elif k == 'flatall':
            for l in case['fam']:
                check(l, 'lib', what + l)
        elif k == 'fault':
            if T.find(a[1]) is None or T.expect(a[1]) is None:
                continue
            rule = dict(a[3], sub='^' + a[2] + '.xml')
            got, e = sim.inline(flat, a[1], rules=[rule])
            if sim.lastfired[0]:
                failed += 1
                need(isinstance(e, Exception) or got is None and a[2] == a[1], 'half-inherited', "{}: reading {} failed ({}) and yet there is a result: {}", what, a[2], a[3]['arg'], quote(got or b'', 200))
            else:
                if e is not None:
                    raise e
                need(got is not None, 'missing', "{}: there is nothing for this locale", what)
                compare(a[1], got, T.expect(a[1]), what)
            check(a[1], 'lib', what + ' once it can be read')
        elif k == 'round':
            l = a[1]
            f = T.find(l)
            g1 = check(l, 'lib', what)
            if g1 is None:
                continue
            want = T.expect(l)
            un = flat(l, rev='r')
            T.put(f[0], l, un)
            alts = altmap(model.parse(f[1][1], uparrows=False))

            def kept(g, m):
                h = altmap(model.parse(g))
                for k in alts:
                    if h.get(k) != alts[k]:
                        raise Violation('alternate-lost', "{}: {} should be {!r}, is {!r}".format(m, show(k), alts[k], h.get(k)))
            g = flat(l)
            compare(l, g, want, what + ': unflattened, then flattened')
            kept(g, what + ': unflattened, then flattened')
            alts = altmap(model.parse(g1))
            T.put(f[0], l, g1)
            un = flat(l, rev='r')
            T.put(f[0], l, un)
            g2 = flat(l)
            compare(l, g2, want, what + ': flattened, unflattened, flattened')
            kept(g2, what + ': flattened, unflattened, flattened')
            T.put(f[0], l, f[1][1], '/' in f[1][0][3:])
        elif k == 'tree':
            # the whole tree flattened, that tree unflattened, that one flattened again
            ls = [l for l in case['fam'] if T.find(l)]
            if any(v[2] for c in T.cur for v in c.values()) or any(script(T.doc(l)) for l in ls) or any(c.tag == 'fallback' for l in ls for c in T.doc(l).kids):
                continue
            src = T.dirs
            for j, (to, rev) in enumerate((('f', 'f'), ('u', 'r'), ('g', 'f'))):
                to = '%s%d' % (to, n)
                os.makedirs(sim.path(to))
                if a[1] == 'lib':
                    for l in ls:
                        x = flattenlocale(l, dirs=src, rev=rev)
                        x.normalise()
                        x.save_as(sim.path(to, l + '.xml'))
                else:
                    o = tk.simtool.tool(sim, 'ldmlflatten', ['-o', sim.path(to)] + [y for d in src for y in ('-i', d)] + (['-r'] if rev == 'r' else []) + (['-a'] if j == 1 else []),
                                        cwd=sim.root, pool={'seed': n, 'prob': 0, 'ncpu': 2})
                    if o.kind == 'exc' or o.code:
                        raise ToolFails(o.out + o.err)
                src = [sim.path(to)]
                for l in ls if rev == 'f' else ():
                    got = sim.get('%s/%s.xml' % (to, l))
                    need(got is not None, 'missing', "{}: there is no {} in {}", what, l, to)
                    compare(l, got, T.expect(l), what + {'f': 'tree flattened', 'g': 'tree flattened, unflattened, flattened'}[to[0]] + ': ' + l)
            inherited.append(len(ls) > 1)
        elif k == 'inc':
            if any(v[2] for c in T.cur for v in c.values()):
                continue
            ls = [l for l in case['fam'] if T.find(l)]
            for l in list(out):
                if l not in ls:
                    del out[l]
            for l in ls:
                if l not in out or l in changed:
                    out[l] = flat(l)
                elif changed:
                    g = flat(l, changed=set(changed))
                    if g is not None:
                        out[l] = g
                compare(l, out[l], T.expect(l), what + 'rebuilding what changed ({}), {}'.format(sorted(changed), l))
            changed.clear()
    return {'nontrivial': any(inherited) or failed > 0}


def model_hash(b):
    return hashlib.sha1(b).hexdigest()[:12]


def _leaves(b):
    return list(re.finditer(rb'<(?:language|territory|month|decimal|group|quotationStart|characterOrder|lineOrder)\b[^<>/]*>([^<>&\xe2]*)</\w+>', b))


def show(k):
    return '/'.join(t + ''.join('[@{}="{}"]'.format(*x) for x in a) for t, a in k)
