"""Exemplar analysis does not depend on how the corpus arrives"""
import collections, random
from props.util import *

ID = 'C15'
N = {'quick': 4000, 'thorough': 150000}
RULE = ("A case is a set of corpora (lines over Latin, stacked marks, Indic, Arabic, Cyrillic, Greek and mixed alphabets with ignorables, joiners and punctuation) with the settings of each analysis. Each is analysed alone, its lines in "
        "order; then its lines arrive in seeded orders and are divided among calls in seeded ways, while the other corpora are analysed in the same process, interleaved call by call or on threads under a seeded scheduler that may switch "
        "at every line of the code. The exemplar sets, the counts of every grapheme, the script and the case lists must be the same. Counts of the parts of a corpus must add up to those of the whole. "
        "Non-trivial: at least two lines came in another order.")
REAL = ['sldr.ldml_exemplars, UnicodeSets, ICU']
STUB = 'arrival order, division into calls, thread scheduling'
STATES = 'distinct interleavings of calls (sequence of which corpus was fed) and thread switch sequences'
ASSUME = ['counts are compared as a multiset: graphemes of equal frequency are listed as they come', 'lines are divided between calls, not within a line']
AL = ['abcdeéèàâäôöüñA BÉ .,!?123', 'abcde\u0301\u0300\u0323\u0302\u0327AB ', '\u0928\u093c\u0915\u093f\u094d\u0917\u093e\u0947\u0964 \u0967\u0968', '\u0627\u0628\u064e\u0651\u062a\u0640 \u200c\u200d', 'абвгАБ \u0301\u0306',
      'aαбa\u0301\u00ad\u034f\u2060', 'xyz\ua78c\ua78bXYZ\'’ -', 'ក្ខ្គា\u17c6 ', 'a1\u0301.\u0302"«»', 'abcdeéèàâäôöüñA BÉ .,!?123\u0301\u0300\u0323\u0302\u0327\u0928\u093c\u0915\u093f\u094d\u200c\u200d\u0640\u0627\u064e\u0651\u00ad\u034f\u2060\u0430\u03b1']


def big(r):
    """A long corpus: many different graphemes, long lines, some of them seen thousands of times"""
    lo, hi = r.choice([(0x4e00, 0x9fa5), (0xac00, 0xd7a3), (0x61, 0x24f), (0x1200, 0x137f), (0x900, 0x97f), (0x10a00, 0x10aff), (0x3b1, 0x52f)])
    al = [chr(x) for x in r.sample(range(lo, hi), min(hi - lo, r.choice([40, 300, 1500, 3000])))]
    marks = r.choice(['', '', '\u0301\u0323', '\u0301\u0302\u0327\u0331\u0304'])
    n = r.choice([300, 1000, 3000])

    def line():
        k = r.choice([1, 10, n // 4, n])
        if r.random() < .3:
            return ''.join(r.choice(al[:20]) for _ in range(k))
        return ''.join(r.choice(al) + (r.choice(marks) if marks and r.random() < .3 else '') + (' ' if r.random() < .15 else '') for _ in range(k))
    lines = [line() for _ in range(r.randint(2, 5))]
    if r.random() < .4:
        lines.append((r.choice(al) + ' ') * r.choice([1001, 4099]))
    return lines


def corpus(r):
    al = r.choice(AL)
    large = r.random() < .04
    if r.random() < .2:
        al += r.choice(AL)
    al = r.sample(al, min(len(al), r.randint(3, 15)))
    if large:
        lines = big(r)
    elif r.random() < .5:     # words that come again
        words = [''.join(r.choice(al) for _ in range(r.randint(1, 6))) for _ in range(r.randint(2, 6))]
        lines = [' '.join(r.choice(words) for _ in range(r.randint(1, 5))) for _ in range(r.randint(2, 8))]
    else:
        lines = [''.join(r.choice(al) for _ in range(r.randint(1, 25))) for _ in range(r.randint(2, 6))]
    cfg = {'fr': r.choice([1, 1, 20, 60, 100] if not large else [1, 100, 150, 200]), 'mb': r.choice([0, 1, 2, 5]), 'pre': {}, 'mm': r.random() < .2, 'ut': r.random() < .3, 'norm': r.choice([None, None, None, 'NFC', 'NFD'])}
    for k in ('main', 'auxiliary', 'index', 'punctuation'):
        if r.random() < .25:
            cfg['pre'][k] = [''.join(r.choice(al) for _ in range(r.choice([1, 1, 2, 3]))) for _ in range(r.randint(1, 3))]
    return {'lines': lines, 'cfg': cfg}


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 3])
    cs = [corpus(r) for _ in range(n)]
    if n > 1 and r.random() < .4:
        cs[1]['lines'] = [l[::-1] for l in cs[0]['lines']]      # much in common
    arr = []
    large = sum(len(l) for c in cs for l in c['lines']) > 2000
    for _ in range(1 if large else 3 if tier == 'quick' else 8):
        arr.append({'seed': r.randrange(1 << 30), 'how': 'threads' if r.random() < .2 and not large else 'calls', 'prob': r.choice([.002, .02, .1])})
    return {'props': cs, 'acts': arr}


def make(c):
    from sldr.ldml_exemplars import Exemplars
    e = Exemplars()
    cfg = c['cfg']
    e.unittest = cfg['ut']
    e.frequent, e.many_bases = cfg['fr'], cfg['mb']
    for k, v in sorted(cfg['pre'].items()):
        v = [x.strip() for x in v if x.strip()]
        if e.unittest:
            setattr(e, k, ' '.join(v))
        else:
            from sldr.UnicodeSets import list2us
            setattr(e, k, '[' + ' '.join('{' + x + '}' if x.isalpha() else '\\u%04x' % ord(x[0]) for x in v) + ']')
    return e


def feed(e, text, c):
    if c['cfg']['mm']:
        e.process(text, maxmultigraphs=True)
    else:
        e.process(text)


def result(e, c):
    raw = dict((str(k), v) for k, v in e.clusters.items())
    multi = sorted((str(k), v) for k, v in e.all_potential_multigraphs.items())
    e.analyze()
    if c['cfg']['norm']:
        e.normalize(c['cfg']['norm'])
    res = {'main': e.main, 'auxiliary': e.auxiliary, 'index': e.index, 'punctuation': e.punctuation, 'digits': e.digits, 'script': e.script,
           'counts': sorted((str(k), v) for k, v in e.raw_clusters.items()), 'graphemes': sorted(getattr(e, '_graphemes', ())), 'frequency': sorted(getattr(e, '_frequency', ())),
           'clusters': sorted((str(k), v) for k, v in e.clusters.items()), 'bases': sorted((k, sorted(v)) for k, v in getattr(e, 'bases_for_marks', {}).items()),
           'case': sorted(e.non_casing_chars.items()), 'multi': multi if len(c['lines']) < 2 else None}
    return res, raw


def parts(r, c):
    l = list(c['lines'])
    r.shuffle(l)
    res = []
    while l:
        k = r.choice([1, 1, 1, 2, 3])
        res.append(''.join(x + '\n' for x in l[:k]))
        del l[:k]
    return res


def run(sim, case):
    cs = case['props']
    if not cs:
        raise InvalidCase("nothing")

    def alone(c):
        e = make(c)
        for l in c['lines']:
            feed(e, l + '\n', c)
        return result(e, c)

    def drive():
        want = [alone(c) for c in cs]
        for c, (w, raw) in zip(cs, want):       # the parts add up
            k = len(c['lines']) // 2
            tot = collections.Counter()
            for ls in (c['lines'][:k], c['lines'][k:]):
                e = make(c)
                for l in ls:
                    feed(e, l + '\n', c)
                tot.update({str(x): v for x, v in e.clusters.items()})
            need(dict(tot) == raw, 'counts', "counts of two halves {} and of the whole {}", sorted(tot.items()), sorted(raw.items()))
        orders = []
        for a in case['acts']:
            r = random.Random(a['seed'])
            ps = [parts(r, c) for c in cs]
            es = [make(c) for c in cs]
            if a['how'] == 'threads':
                import simthread

                def body(i):
                    for t in ps[i]:
                        feed(es[i], t, cs[i])
                    return result(es[i], cs[i])[0]
                S = simthread.Sched(a['seed'], a['prob'])
                out = S.run([lambda i=i: body(i) for i in range(len(cs))])
                got = []
                for v, e in out:
                    if e is not None:
                        raise e
                    got.append(v)
                orders.append(tuple(S.switches)[:200])
            else:
                todo = [list(p) for p in ps]
                order = []
                got = [None] * len(cs)
                while any(x is None for x in got):
                    i = r.choice([i for i in range(len(cs)) if got[i] is None])
                    order.append(i)
                    if todo[i]:
                        feed(es[i], todo[i].pop(0), cs[i])
                    else:
                        got[i] = result(es[i], cs[i])[0]
                orders.append(tuple(order) + tuple(len(p) for p in ps))
            for i, (g, (w, _)) in enumerate(zip(got, want)):
                for k in w:
                    if k != 'multi' and g[k] != w[k]:
                        raise Violation('order', "corpus {} {:.500} ({}, arriving as {:.500}): {} is {:.500} instead of {:.500}".format(i, repr(cs[i]['lines']), a['how'], repr(ps[i]), k, repr(diff(g[k], w[k])), repr(diff(w[k], g[k]))))
        return orders
    o = sim.proc(drive, cpu=60)
    if o.kind == 'exc' and 'Violation' not in (o.exc or ''):
        raise Violation('failed', (o.tb or '')[-900:])
    need(o.ok, 'failed', "{}", o.tb)
    for x in o.value:
        sim.state(x)
        sim.event('order', x)
        sim.count('thread_switches' if x and not isinstance(x[0], int) else 'calls', len(x))
    return {'nontrivial': any(len(c['lines']) > 1 for c in cs)}


def diff(a, b):
    if isinstance(a, list):
        return [x for x in a if x not in b][:6]
    return a
