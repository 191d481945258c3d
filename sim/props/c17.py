"""A failed save can simply be retried"""
import copy, io, random, sys
import gen as G
import model
from props.util import *

ID = 'C17'
N = {'quick': 4000, 'thorough': 120000}
RULE = ("A case is one or two documents and a history of edits, merges, normalisations, attempts to write that fail (the output function raises at a seeded write, the file system refuses, cuts short or interrupts a seeded system call of save_as, a signal arrives while output is being written, "
        "the same in the middle of writing only a part), writes that succeed, and searches. It is played on one copy with everything and on another with the edits only. After every step both copies must be the same in memory (elements, attributes, text, comments, alternates, who is whose parent), "
        "every edit and search must give the same, and a successful write must give the same bytes; a failed save must leave the file as it was. Non-trivial: an attempt failed and an edit or a write came after it.")
REAL = ['sldr.ldml serialize_xml, save_as, etwrite, find, findall, as_xpath, addnode, ensure_path, change_draft, normalise, remove_path, resolve_aliases', 'sldr.ldml_merge.LdmlMerge merge, overlay, difference (edits after a failed save)', 'file system calls of CPython']
STUB = 'output function and its failures; system call results by the interposition library; signal delivery inside the output function'
STATES = 'distinct (documents, kind and position of the failure) situations'
ASSUME = ['an interrupt arrives while output is being written (in the output function or a system call), not between two statements of the clean-up itself']
EXC = ['OSError', 'BrokenPipeError', 'KeyboardInterrupt', 'MemoryError', 'UnicodeEncodeError', 'ValueError', 'GeneratorExit', 'SystemExit', 'RecursionError']


def gen(r, i, tier):
    docs = [G.doc(r, r.choice(['aa', 'ab_Latn']), rich=r.choice([.3, .6, 1]), alts=r.choice([0, .4, .7]), draft=r.choice([.3, .8]), comments=r.choice([0, .15]))]
    if r.random() < .4:
        docs.append(edited(r, docs[0]))
    if r.random() < .15:        # draft on an element with children, alias
        x = [n for n in G.walk(docs[0]) if n.get('c') and n['t'] not in ('ldml', 'identity', 'special')]
        if x:
            r.choice(x).setdefault('a', {})['draft'] = r.choice(G.DRAFTS)
    if r.random() < .15:
        docs[0]['c'].append(G.N('units', c=[G.N('unitLength', {'type': 'long'}, c=[G.N('unit', {'type': 'a'}, c=[G.N('displayName', None, 'U')])]),
                                            G.N('unitLength', {'type': 'short'}, c=[G.N('alias', {'source': 'locale', 'path': "../unitLength[@type='long']"})])]))
    ops = []
    for _ in range(r.randint(3, 12)):
        k = r.choice(['fail', 'fail', 'fail', 'save', 'ser', 'ser', 'search', 'text', 'attr', 'unattr', 'add', 'prop', 'prop', 'draft', 'draft', 'remove', 'empty', 'norm', 'ensure', 'alias', 'docdraft', 'comment']
                     + (['merge', 'overlay', 'diff'] if len(docs) > 1 else []))
        o = {'k': k, 'at': r.random(), 'd': r.choice(G.DRAFTS), 'x': 'X%d' % r.randrange(1000), 'u': 'proposed-%d' % r.randrange(3)}
        if k in ('fail', 'ser', 'save'):
            o.update(topns=r.random() < .6, part=r.random() < .15, exc=r.choice(EXC), how=r.choice(['nth', 'nth', 'nth', 'text']), nth=r.choice([r.randint(1, 30), r.randint(1, 400)]), ew=r.random() < .1)
        if k == 'save':
            o['rules'] = [r.choice([{'ops': 'mut', 'nth': r.randint(1, 6), 'act': 'err', 'arg': r.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EPIPE', 'EINTR'])},
                                    {'ops': 'write', 'nth': 1, 'act': 'short', 'arg': 700}, {'ops': 'all', 'nth': r.randint(1, 9), 'act': 'sigint'}])] if r.random() < .8 else []
            o['dir'] = r.random() < .08
        if k == 'norm':
            o['ud'] = r.random() < .5
        ops.append(o)
    return {'docs': docs, 'style': {'seed': r.randrange(1 << 30)}, 'ops': ops, 'merge': len(docs) > 1 or r.random() < .2, 'drafts': r.random() < .85}


def edited(r, d):
    q = copy.deepcopy(d)
    ls = [n for n in G.walk(q) if 'x' in n and n['t'] != 'cr']
    for n in r.sample(ls, min(len(ls), r.randint(0, 3))):
        if r.random() < .5:
            n['x'] = 'M%d' % r.randrange(1000)
        n.setdefault('a', {})['draft'] = r.choice(G.DRAFTS)
    secs = [c for c in q['c'] if c['t'] not in ('identity', 'special')]
    if secs and r.random() < .4:
        q['c'].remove(r.choice(secs))
    return q


def simplify(case):
    for i, o in enumerate(case['ops']):
        if o['k'] == 'save' and o['rules']:
            yield dict(case, ops=case['ops'][:i] + [dict(o, rules=[])] + case['ops'][i + 1:])
        if o['k'] in ('fail', 'ser', 'save'):
            for k, v in (('part', False), ('topns', True), ('exc', 'OSError'), ('ew', False)):
                if o[k] != v:
                    yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
    if case['merge'] and len(case['docs']) == 1:
        yield dict(case, merge=False)


def walk(e):
    yield e
    for c in e:
        yield from walk(c)


def dump(l):
    """all of a document there is to see"""
    out = []

    def w(e, depth):
        if depth > 60:
            out.append((depth, 'circle'))
            return
        out.append((depth, e.tag, tuple(sorted(e.attrib.items())), e.text, tuple(getattr(e, 'comments', ())), tuple(getattr(e, 'commentsafter', ()))))
        for k, a in sorted(getattr(e, 'alternates', {}).items()):
            out.append((depth, 'alternate', k))
            w(a, depth + 1)
        for c in e:
            if getattr(c, 'parent', e) is not e:
                out.append((depth, 'stranger', c.tag))
            w(c, depth + 1)
    w(l.root, 0)
    return out, sorted(l.namespaces.items()), l.default_draft, l.use_draft


class Out:
    def __init__(self, o):
        self.n = 0
        self.o = o
        self.out = []

    def __call__(self, s):
        self.n += 1
        if (self.n == self.o['nth'] if self.o['how'] == 'nth' else not s.isspace() and s[0] not in '<> /' and self.n >= self.o['nth'] % 20):
            self.out.append(s[:len(s) // 2])
            x = self.o['exc']
            if x == 'UnicodeEncodeError':
                raise UnicodeEncodeError('ascii', s or '?', 0, 1, 'simulated')
            raise {'OSError': OSError(28, 'No space left on device'), 'BrokenPipeError': BrokenPipeError(32, 'Broken pipe')}.get(x) or getattr(__import__('builtins'), x)('simulated')
        self.out.append(s)


def pick(l, o, f):
    xs = [e for e in walk(l.root) if f(e)]
    return xs[int(o['at'] * len(xs))] if xs else None


def isleaf(e):
    return not len(e) and e.text and not e.tag.endswith('}cr') and e.tag not in ('cr', 'alias')


def edit(l, o, other):
    """one editing step; returns what the caller gets to see"""
    k = o['k']
    from sldr.ldml import Ldml
    if k == 'text':
        e = pick(l, o, isleaf)
        if e is not None:
            e.text = o['x']
    elif k == 'attr':
        e = pick(l, o, isleaf)
        if e is not None:
            e.set('references', o['x'])
    elif k == 'unattr':
        e = pick(l, o, lambda e: isleaf(e) and 'draft' in e.attrib)
        if e is not None:
            del e.attrib['draft']
    elif k == 'comment':
        e = pick(l, o, isleaf)
        if e is not None:
            e.comments = [o['x']]
    elif k == 'add':
        e = pick(l, o, lambda e: e.tag in ('languages', 'territories'))
        if e is not None:
            n = l.addnode(e, e.tag[:-1].replace('ie', 'y') if e.tag == 'territories' else 'language', attrib={'type': o['x'], 'draft': o['d']})
            n.text = o['x']
    elif k == 'prop':
        e = pick(l, o, lambda e: isleaf(e) and getattr(e, 'parent', None) is not None and e.tag.find('}') < 0)
        if e is not None:
            at = {a: v for a, v in e.attrib.items() if a not in ('draft', 'alt')}
            n = l.addnode(e.parent, e.tag, attrib=dict(at, draft=o['d']), alt=o['u'], returnnew=True)
            n.text = o['x']
    elif k == 'ensure':
        ps = ['localeDisplayNames/languages/language[@type="fr"]', 'delimiters/quotationStart', 'characters/exemplarCharacters[@type="index"]', 'numbers/defaultNumberingSystem', 'identity/special/sil:identity']
        p = ps[int(o['at'] * len(ps))]
        n = l.ensure_path(p, **({} if 'sil' in p else {'text': o['x'], 'draft': o['d'], 'alt': o['u']}))
        return [(x.tag, sorted(x.attrib.items()), x.text) for x in n]
    elif k == 'draft':
        e = pick(l, o, lambda e: isleaf(e) and getattr(e, 'parent', None) is not None)
        if e is not None:
            if getattr(e, 'alternates', None) and o['x'][-1] in '02468':
                e = e.alternates[sorted(e.alternates)[int(o['x'][1:]) // 2 % len(e.alternates)]]
            n = l.change_draft(e, o['d'])
            return n.tag, sorted(n.attrib.items()), n.text
    elif k == 'remove':
        e = pick(l, o, lambda e: isleaf(e) and getattr(e, 'parent', None) is not None)
        if e is not None:
            e.parent.remove(e)
    elif k == 'empty':      # an element loses its children
        e = pick(l, o, lambda e: len(e) and e.tag not in ('ldml', 'identity', 'special') and not e.tag.startswith('{'))
        if e is not None:
            for c in list(e):
                e.remove(c)
            e.text = o['x'] if o['x'][-1] in '02468' else None
    elif k == 'norm':
        l.normalise(usedrafts=o['ud'])
    elif k == 'alias':
        return bool(l.resolve_aliases())
    elif k == 'docdraft':
        l.default_draft = o['d']
    elif k == 'merge':
        l.merge(other(), other())
    elif k == 'overlay':
        l.overlay(other())
    elif k == 'diff':
        l.difference(other())
    return None


def search(l, o):
    res = []
    for p in ('.//language', 'characters/exemplarCharacters', './/*[@draft]', './/*[@alt]', './/*[@draft="{}"]'.format(o['d']), 'delimiters/*', './/sil:font', 'identity/special/sil:identity', './/month', './/territory[@type="US"]', './/symbols/*'):
        try:
            res.append([(e.tag, sorted(e.attrib.items()), e.text) for e in l.findall(p)])
            f = l.find(p)
            res.append((f.tag, f.text) if f is not None else None)
        except (SyntaxError, KeyError) as e:
            res.append(repr(e))
    for n, e in enumerate(walk(l.root)):
        if n % 3 == int(o['at'] * 3) and getattr(e, 'parent', None) is not None:
            try:
                res.append(l.as_xpath(e))
            except AttributeError as x:
                res.append('AttributeError')
    return res


def run(sim, case):
    src = [G.xml(d, case['style']) for d in case['docs']]

    def fresh():
        return ldml(src[0], case['merge'], usedrafts=case['drafts'])

    def other():
        return ldml(src[1], True, usedrafts=case['drafts'])
    a, b = fresh(), fresh()
    path = sim.path('aa.xml')
    sim.put('aa.xml', src[0])
    failed = after = 0

    def same(what):
        x, y = dump(a), dump(b)
        if x != y:
            for p, q in zip(x, y):
                if p != q:
                    if isinstance(p, list):
                        i = next((i for i, (s, t) in enumerate(zip(p, q)) if s != t), min(len(p), len(q)))
                        p, q = p[i:i + 2], q[i:i + 2]
                    break
            raise Violation('changed-by-writing', "{}: the document that was written (or not) has {} where the other has {}".format(what, p, q))

    def clean(n):       # only what was edited before step n, in a document never written or searched
        l = fresh()
        for o in case['ops'][:n]:
            if o['k'] not in ('fail', 'save', 'ser', 'search'):
                try:
                    edit(l, o, other)
                except Exception:
                    pass
        return l

    def both(what, f, *x, use=None):
        res = []
        for l in (a, use or b):
            try:
                res.append(('gives', f(l, *x)))
            except Exception as e:
                res.append(('fails', type(e).__name__, str(e)))
        if res[0] != res[1]:
            raise Violation('differs-after-writing', "{}: {} instead of {}".format(what, brief(res[0], res[1]), brief(res[1], res[0])))
        return res[0]

    def write(l, o, fn, **kw):
        part = None
        if o['part']:
            part = pick(l, o, lambda e: len(e) and e is not l.root)
        if o['ew'] and part is None:
            from sldr.ldml import etwrite
            l.serialize_xml(fn, topns=o['topns'])
        else:
            l.serialize_xml(fn, base=part, topns=o['topns'])

    def good(l, o):
        out = []
        write(l, o, out.append)
        return ''.join(out)

    for n, o in enumerate(case['ops']):
        what = 'step {} ({})'.format(n, o['k'])
        if o['k'] == 'fail':
            f = Out(o)
            try:
                write(a, o, f)
                sim.count('write_ends_before_failure')
            except BaseException as e:
                if type(e).__name__ != o['exc']:
                    raise Violation('other-error', "{}: the output function raised {}, the caller got {!r}".format(what, o['exc'], e))
                failed += 1
                sim.count('failing_output_' + o['exc'])
        elif o['k'] == 'save':
            before = sim.get('aa.xml')
            p = sim.path('nodir/aa.xml') if o['dir'] else path
            _, e = sim.inline(lambda: a.save_as(p, topns=o['topns']), rules=o['rules'])
            now = sim.get('aa.xml')
            if e is not None:
                failed += 1
                sim.count('failing_save')
            b2 = good(clean(n), {'topns': o['topns'], 'part': False, 'ew': False}).encode('utf-8')
            if e is None:
                need(now == b2, 'saved', "{}: the saved file is not what the untouched copy gives: {}", what, bdiff(now, b2))
            else:
                need(now == before or now == b2, 'saved', "{}: a failed save left something else: {}", what, bdiff(now, b2))
        elif o['k'] == 'ser':
            both(what, good, o, use=clean(n))
            after += failed > 0
        elif o['k'] == 'search':
            both(what, search, o, use=clean(n))
        else:
            both(what, edit, o, other)
            after += failed > 0
        same(what)
        sim.event(o['k'], repr(dump(a)))
        sim.state(o['k'], o.get('exc'), o.get('nth'), repr(dump(a)))
    if failed:
        # written once more at the end, and what comes back is what was there
        both('at the end', good, {'topns': True, 'part': False, 'ew': False}, use=clean(len(case['ops'])))
        after += 1
    return {'nontrivial': failed > 0 and after > 0}


def brief(x, y):
    x, y = repr(x), repr(y)
    k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return x[:12] + '...' + x[max(0, k - 100):k + 150]


def bdiff(x, y):
    if x is None or y is None:
        return repr((x, y))[:200]
    return brief(x, y) + ' / ' + brief(y, x)
