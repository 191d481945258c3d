"""A damaged, truncated or unreadable file is reported, never half-loaded"""
import gc, io, os
import gen as G
import model
from props.util import *
from props.c01 import Feeder

ID = 'C02'
N = {'quick': 3200, 'thorough': 60000}
RULE = ("A case is three generated documents and a history of loads in one process: whole loads mixed with loads of truncated files (sweeps over many cut "
        "positions), files with bytes changed, failing opens, failing reads at a chosen read, and file objects that raise. Every failing load must raise; every "
        "other load must give the document an independent reading of the bytes gives. Non-trivial: at least one load failed.")
REAL = ['sldr.ldml.Ldml', 'sldr.ldml_merge.LdmlMerge', 'sldr.py3xmlparser', 'expat', 'CPython file objects down to open(2)/read(2)']
STUB = 'open and read results are decided by the interposition library; failing file objects are Python objects'
ASSUME = ['an empty file stands for an empty locale (documented behaviour of the constructor), so truncation to nothing is not counted as damage']


def gen(r, i, tier):
    docs = []
    for l in ('aa', 'ab_Latn', 'bb'):
        docs.append({'doc': G.doc(r, l, rich=r.choice([.2, .5, 1]), comments=r.choice([0, .2]), alts=.2), 'style': dict(G.style(r), pad=r.choice([0, 0, 0, 20000, 50000]))})
    acts = []
    for _ in range(r.randint(3, 7)):
        k = r.choice(['load', 'trunc', 'trunc', 'sweep', 'flip', 'openerr', 'readerr', 'readerr', 'feederr', 'again', 'use', 'dup'])
        a = {'k': k, 'd': r.randrange(3), 'merge': r.random() < .3, 'obj': r.random() < .4, 'drafts': r.random() < .7}
        if k == 'trunc':
            a['at'] = r.random()
        elif k == 'sweep':
            a.update(at=r.random(), n=25 if tier == 'quick' else 60, step=r.choice([1, 1, 2, 5, 11]), obj=r.random() < .8)
        elif k == 'flip':
            a.update(at=r.random(), n=r.choice([1, 1, 2, 5, 40]), by=r.choice(['del', 'zero', 'xor', 'lt', 'dup', 'utf', 'ent']))
        elif k == 'openerr':
            a['e'] = r.choice(['EACCES', 'EIO', 'EMFILE', 'ENOENT', 'ENOMEM'])
        elif k == 'readerr':
            a.update(e=r.choice(['EIO', 'EIO', 'ESTALE', 'ENOMEM', 'EISDIR']), nth=r.randint(1, 4), short=r.choice([0, 0, 700, 3]))
        elif k == 'feederr':
            a.update(sizes=[r.choice([1, 7, 100, 1000, 5000])], nth=r.choice([1, 2, 3, 5, 20]), x=r.choice(['OSError', 'ValueError', 'TimeoutError']))
        acts.append(a)
    return {'docs': docs, 'acts': acts}


class BadFeeder(Feeder):
    def __init__(self, data, sizes, nth, exc):
        super().__init__(data, sizes)
        self.nth, self.exc = nth, exc

    def read(self, n=-1):
        self.nth -= 1
        if self.nth <= 0:
            raise self.exc("simulated")
        return super().read(n)


def nfds():
    return len(os.listdir('/proc/self/fd'))


def damage(d, a):
    at = min(int(a['at'] * len(d)), len(d) - 1)
    n = a['n']
    by = a['by']
    if by == 'del':
        return d[:at] + d[at + n:]
    if by == 'zero':
        return d[:at] + b'\0' * min(n, len(d) - at) + d[at + n:]
    if by == 'xor':
        return d[:at] + bytes([d[at] ^ 0x15]) + d[at + 1:]
    if by == 'ent':       # a reference to an entity nobody defined
        at = d.find(b'>', at) + 1
        return d[:at] + b'&x%d;' % n + d[at:]
    if by == 'lt':
        return d[:at] + b'<' + d[at:]
    if by == 'dup':
        return d[:at] + d[at:at + n] + d[at:]
    return d[:at] + b'\xc3' + d[at + 1:]


def run(sim, case):
    docs = [G.xml(x['doc'], x['style']) for x in case['docs']]
    if not docs:
        raise InvalidCase("no documents")
    for i, d in enumerate(docs):
        sim.put('%d.xml' % i, d)
    wants, kept, fails, ref = {}, [], 0, {}

    def good(i, l, what, drafts):
        o = ser(l)
        k = (i, drafts)
        if k not in ref:
            check_same('later-load', what, expect(docs[i], usedrafts=drafts), o)
            ref[k] = o
        need(o == ref[k], 'later-load', "{}: document {} differs from what it loaded to before", what, i)
        for j, dr, x in kept:
            need(ser(x) == ref[(j, dr)], 'other-document', "{}: document {} loaded earlier is no longer what it was", what, j)
        return l

    fd0 = None
    for n, a in enumerate(case['acts']):
        i = a['d'] % len(docs)
        d = docs[i]
        mk = lambda s: ldml(s, a['merge'], usedrafts=a['drafts'])
        k = a['k']
        what = "step {} ({})".format(n, k)

        def judge(data, how):
            """load damaged data"""
            nonlocal fails
            try:
                w = expect(data, usedrafts=a['drafts'])
                bad = None
            except model.BadXml as e:
                bad = e
            if a['obj']:
                src = io.BytesIO(data)
            else:
                src = sim.put('bad.xml', data)
            try:
                l = mk(src)
            except Exception as e:
                need(bad is not None, 'rejected', "{}: {}: a well-formed document was refused: {!r}", what, how, e)
                sim.event(how, type(e).__name__)
                fails += 1
                return
            need(bad is None, 'half-loaded', "{}: {} ({}): loaded without an error, giving {}", what, how, bad, quote(ser(l), 300))
            if how.startswith('cut'):        # only comments after the root are lost
                check_same('content', what + ' ' + how, w, ser(l))

        if k == 'load':
            kept.append((i, a['drafts'], good(i, mk(sim.path('%d.xml' % i)), what, a['drafts'])))
        elif k == 'again' or k == 'use':
            good(i, mk(io.BytesIO(d) if a['obj'] else sim.path('%d.xml' % i)), what, a['drafts'])
        elif k == 'trunc':
            c = max(1, int(a['at'] * len(d)))
            judge(d[:c], 'cut to {} of {} bytes'.format(c, len(d)))
            sim.count('fault:truncated')
            sim.put('bad.xml', d)
            good(i, mk(sim.path('bad.xml')), what + ', file whole again', a['drafts'])
        elif k == 'sweep':
            lo = len(d) - len(d.replace(b'p' * 19000, b'')) if len(d) > 20000 else 0
            for j in range(a['n']):
                c = max(1, (lo + int(a['at'] * (len(d) - lo)) + j * a['step']) % len(d))
                judge(d[:c], 'cut to {} of {} bytes'.format(c, len(d)))
                sim.count('fault:truncated')
            good(i, mk(io.BytesIO(d)), what + ' afterwards', a['drafts'])
        elif k == 'flip':
            judge(damage(d, a), 'damaged ({} at {:.4f})'.format(a['by'], a['at']))
            sim.count('fault:damaged')
            good(i, mk(io.BytesIO(d)), what + ' afterwards', a['drafts'])
        elif k == 'dup':
            judge(d + d, 'document twice')
            judge(d + b'<x/>', 'second root')
            judge(d + b'junk', 'text after the root')
        elif k in ('openerr', 'readerr'):
            rules = [{'ops': 'openr', 'act': 'err', 'arg': a['e'], 'sub': '$/%d.xml' % i}] if k == 'openerr' else \
                [{'ops': 'read', 'act': 'err', 'arg': a['e'], 'nth': a['nth'], 'sub': '$/%d.xml' % i, 'count': 0}]
            if a.get('short'):
                rules.append({'ops': 'read', 'act': 'limit', 'arg': a['short'], 'count': 0})
            l, e = sim.inline(mk, sim.path('%d.xml' % i), rules=rules)
            if sim.lastfired[0]:
                fails += 1
                need(isinstance(e, Exception), 'half-loaded', "{}: {} while reading and yet a document was returned: {}", what, a['e'], quote(ser(l), 300) if l else '')
            else:
                if e is not None:
                    raise Violation('rejected', "{}: nothing failed but loading raised {!r}".format(what, e))
                good(i, l, what, a['drafts'])
            l = e = None
            good(i, mk(sim.path('%d.xml' % i)), what + ' afterwards', a['drafts'])
        elif k == 'feederr':
            x = {'OSError': OSError, 'ValueError': ValueError, 'TimeoutError': TimeoutError}[a['x']]
            f = BadFeeder(d, a['sizes'], a['nth'], x)
            try:
                l = mk(f)
                e = None
            except Exception as ex:
                e = ex
            if f.nth <= 0:
                fails += 1
                sim.count('fault:object-read-error')
                need(e is not None, 'half-loaded', "{}: the file object raised and yet a document was returned", what)
            else:
                need(e is None, 'rejected', "{}: refused with {!r}", what, e)
            l = e = None
            good(i, mk(io.BytesIO(d)), what + ' afterwards', a['drafts'])
        sim.state(k, n, fails)
        gc.collect()
        f = nfds()
        if fd0 is not None and n > 1:
            need(f <= fd0, 'descriptor', "{}: {} file descriptors are open instead of {}", what, f, fd0)
        fd0 = f if fd0 is None else min(fd0, f)
    return {'nontrivial': fails > 0}

