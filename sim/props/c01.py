"""Loading does not depend on how the bytes are delivered"""
import io
import gen as G
import model
from props.util import *

ID = 'C01'
N = {'quick': 2600, 'thorough': 60000}
RULE = ("A case is a generated document (all LDML sections, alternates, drafts, comments anywhere, CDATA, character references, inherited markers, "
        "padding that moves the 16 KiB block boundaries) and a set of deliveries (path with short reads, raw file, file-like objects returning chosen chunk "
        "sizes, a cut at chosen or at every byte, interrupted reads). Non-trivial: at least two deliveries were compared.")
REAL = ['sldr.ldml.Ldml loading and serialising', 'sldr.ldml_merge.LdmlMerge', 'sldr.py3xmlparser', 'expat', 'CPython file objects down to read(2)']
STUB = 'kernel file reads are cut short or interrupted by the interposition library'
ASSUME = ['documents are UTF-8', 'element text is compared after the library\'s documented trimming of spaces around lines']


class Feeder(io.RawIOBase):
    """A file-like object whose read returns what the plan says, never more than asked"""
    def __init__(self, data, sizes):
        self.d, self.p, self.s, self.i = data, 0, sizes, 0

    def readable(self):
        return True

    def read(self, n=-1):
        k = self.s[self.i] if self.i < len(self.s) else self.s[-1] if self.s else n
        self.i += 1
        if n is not None and n >= 0:
            k = min(k, n)
        k = max(1, k)
        b = self.d[self.p:self.p + k]
        self.p += len(b)
        return b


def gen(r, i, tier):
    d = G.doc(r, r.choice(['aa', 'aa_Latn', 'ab_Cyrl_GE']), rich=r.choice([.3, .7, 1.2]), comments=r.choice([0, .1, .3]), uparrow=r.choice([0, 0, .15, .5]))
    st = G.style(r)
    c = {'doc': d, 'style': st, 'usedrafts': r.random() < .7, 'uparrows': r.random() < .3, 'merge': r.random() < .3, 'acts': []}
    for _ in range(r.randint(2, 4)):
        k = r.choice(['short', 'raw', 'feed', 'feed', 'cutall', 'eintr', 'pad', 'pad'])
        if k == 'short':
            c['acts'].append({'k': k, 'arg': -r.choice([2, 7, 50, 3000])})
        elif k == 'eintr':
            c['acts'].append({'k': k, 'nth': r.randint(1, 3), 'n': r.randint(1, 3)})
        elif k == 'feed':
            c['acts'].append({'k': k, 'sizes': [r.choice([1, 2, 3, 5, 13, 64, 100, 333, 1000, 16383]) for _ in range(r.choice([1, 1, 5, 40]))]})
        elif k == 'cutall':
            c['acts'].append({'k': k, 'from': r.random(), 'n': 30 if tier == 'quick' else 60, 'step': r.choice([1, 1, 3, 7])})
        elif k == 'pad':
            # put the boundary between two 16 KiB blocks at a random byte of the rest of the document
            c['acts'].append({'k': k, 'at': r.random(), 'blocks': r.choice([1, 1, 2, 4])})
        else:
            c['acts'].append({'k': k})
    return c


def run(sim, case):
    st = dict(case['style'])
    data = G.xml(case['doc'], st)
    kw = dict(usedrafts=case['usedrafts'], uparrows=case['uparrows'])
    mk = lambda s: ldml(s, case['merge'], **kw)
    want = expect(data, **kw)
    ref = mk(data)
    out0 = ser(ref)
    sim.event('ref', out0)
    check_same('content', 'loaded from bytes', want, out0)
    p = sim.put('aa.xml', data)
    n = 1

    def judge(what, l, exp=None):
        o = ser(l)
        sim.state(what, o)
        if o != (exp or out0):
            e = exp or out0
            k = next((i for i, (a, b) in enumerate(zip(o, e)) if a != b), min(len(o), len(e)))
            raise Violation('delivery', "{}: the document differs: ...{} instead of ...{}".format(what, quote(o[max(0, k - 60):k + 60]), quote(e[max(0, k - 60):k + 60])))
    judge('by path', mk(p))
    for a in case['acts']:
        n += 1
        k = a['k']
        if k in ('short', 'eintr'):
            rules = [{'ops': 'read', 'act': 'limit', 'arg': a['arg'], 'count': 0}] if k == 'short' else \
                [{'ops': 'read', 'act': 'err', 'arg': 'EINTR', 'nth': a['nth'], 'count': a['n']}]
            l, e = sim.inline(mk, p, rules=rules, rnd=7)
            if e is not None:
                raise Violation('delivery', "{} reads: loading failed with {!r}".format(k, e))
            judge(k + ' reads by path', l)
        elif k == 'raw':
            judge('unbuffered file', mk(open(p, 'rb', buffering=0)))
        elif k == 'feed':
            judge('chunks of {}'.format(a['sizes'][:6]), mk(Feeder(data, a['sizes'])))
        elif k == 'cutall':
            s = int(a['from'] * len(data))
            for j in range(a['n']):
                c = (s + j * a['step']) % len(data)
                judge('cut at byte {}'.format(c), mk(Feeder(data, [max(1, c), 1 << 20])))
            sim.count('cuts', a['n'])
        elif k == 'pad':
            s2 = dict(st, pad=1)
            d1 = G.xml(case['doc'], s2)
            off = d1.index(b'<!--p-->')
            tailpos = off + 8 + int(a['at'] * (len(d1) - off - 8))
            need_ = (a['blocks'] * 16384 - tailpos) % 16384 + (a['blocks'] - 1) * 16384
            d2 = G.xml(case['doc'], dict(st, pad=1 + need_))
            q = sim.put('pad.xml', d2)
            w2 = expect(d2, **kw)
            l = mk(q)
            o2 = ser(l)
            check_same('content', 'block boundary inside the document ({} bytes)'.format(len(d2)), w2, o2)
            judge('padded, from one big read', mk(Feeder(d2, [1 << 24])), o2)
            sim.count('boundaries')
    return {'nontrivial': n > 1}

