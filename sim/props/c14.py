"""The same input gives the same output in every process"""
import io, os, random
import gen as G
from props.util import *
from props import toolkit as tk
from props import scripts
from props import c09, c11

ID = 'C14'
N = {'quick': 210, 'thorough': 14000}
VARIANTS = {'quick': 2, 'thorough': 4}
RULE = ("A case is a set of artefacts to compute: documents edited and saved, documents spanning the DTD, merges with clashes and alternates, flattened documents with collation imports, tailorings (from sorted lists, parsed, "
        "minimised, in ICU and simple form), exemplar sets and counts, character set notation, tag equivalence lists, parent tags, or a run of a tool (fonts, keyboards, names, normalise, coverage) over a tree. "
        "Every artefact is computed alone in a fresh process, then all of them in one process in seeded orders with repeats and with activities that fail (read and write errors) in between, tools under permuted directory listings; "
        "and the whole case again in processes with other hash seeds and heap layouts. All outputs must be the same. Non-trivial: at least two artefacts gave output.")
REAL = ['ldml, ldml_merge, collation, ducet, ldml_exemplars, UnicodeSets, langtags_full, utils, the tools']
STUB = 'hash seed, object addresses, directory order, clock, network and failing system calls decided by the simulator'
STATES = 'distinct (artefact kind, artefacts computed before it in the process)'
ASSUME = ['the notation for a set is parsed into a set: its members are compared, not an order']
KINDS = ['doc', 'wide', 'merge', 'flat', 'coll', 'coll', 'coll', 'exem', 'exem', 'us', 'tags', 'built', 'parents']
TOOLS = ['fonts', 'fonts', 'keymans', 'autonames', 'normalize', 'coverage', 'flatten', 'sheet']
TAGS = ['en', 'en-US', 'en-Latn-US', 'fr-CA', 'sr', 'sr-Cyrl', 'sr-Latn-RS', 'zh-Hant-TW', 'zh-TW', 'aa', 'aa-Arab', 'uz-Arab-AF', 'az-Cyrl', 'de-1996', 'sl-rozaj-biske', 'sl-rozaj-biske-1994', 'ca-valencia', 'hy-arevela', 'x-kal', 'mn-Mong-CN',
        'en-GB-oxendict', 'th-u-nu-thai', 'de-u-co-phonebk-nu-latn', 'en-x-foo-bar', 'pa-PK', 'ms-Arab', 'ha-Latn-NG', 'yue-Hans', 'kk-Arab', 'ks-Deva']
_lib = {}


def ducet():
    if 'd' not in _lib:
        from sldr.collation import readDucet
        _lib['d'] = readDucet()
    return _lib['d']


try:                        # once, before processes are forked
    import simcore
    if os.environ.get('SIM_LIB'):
        ducet()
except Exception:
    _lib.clear()

ALPH = ['abcdefghijklmnop', 'aàáâäãåæbcçdðeèéêëfghiìíïjklłmnñŋoòóöøœpqrsšßtþuüvwxyýzž', 'aɓbcdɗeɛfghiɪ\u0289jkƙlmnŋoɔprstuʊvwyƴz', 'абвгґдеёжзиійклмн', 'ᎠᎡᎢᎣ\U0001e900\U0001e922\U0001e901\U0001e923',
        'a\u0301\u0300\u0308\u0323\u0327bcde', 'कखगघङ\u093c\u093e\u093f\u094d', '-\'’ʼꞌ.ab']


def word(r, al, n=3):
    return ''.join(r.choice(al) for _ in range(r.choice([1, 1, 1, 2, 2, n])))


def tailoring(r):
    al = r.choice(ALPH)
    if r.random() < .5:
        n = r.randint(2, 14)
        if r.random() < .5:
            l = []
            seq = list(dict.fromkeys(al))
            if r.random() < .4:
                r.shuffle(seq)
            for c in seq[:n]:
                l.append(c + ('/' + c.upper() if r.random() < .5 else '') + (' ' + word(r, al) if r.random() < .2 else ''))
            return {'simple': l}
        return {'simple': list(dict.fromkeys(word(r, al) + ('/' + word(r, al) if r.random() < .4 else '') + (' ' + word(r, al) if r.random() < .2 else '') for _ in range(n)))}
    s, used, bases = [], set(), set()
    for _ in range(r.randint(1, 5)):
        b = word(r, al)         # no cycles: nothing is tailored after it was a base
        bases.add(b)
        s.append('&' + ('[before %d]' % r.choice([1, 1, 2, 3]) if r.random() < .2 else '') + b)
        for _ in range(r.randint(1, 6)):
            w = word(r, al)
            if w in used or w in bases:
                continue
            used.add(w)
            s.append(r.choice(['<', '<', '<<', '<<<', '<<<', '=']) + w + ('/' + word(r, al) if r.random() < .1 else ''))
    return {'icu': ' '.join(s)}


CORPUS = ['abcdeéèàâäôöüñA BÉ .,!?123', 'abcde\u0301\u0300\u0323\u0302\u0327AB ', '\u0928\u093c\u0915\u093f\u094d\u0917\u093e\u0947\u0964 १२', '\u0627\u0628\u064e\u0651\u062a\u0640 \u200c\u200d', 'абвгАБ \u0301', 'aαбa\u0301\u00ad\u034f\u2060']


def item(r, kind=None):
    k = kind or r.choice(KINDS)
    if k == 'doc':
        loc = 'aa'
        return {'k': k, 'doc': G.doc(r, loc, rich=r.choice([.4, 1]), alts=.5, uparrow=.1, comments=.2), 'acts': scripts.gen_ops(r, loc, flat=False)}
    if k == 'wide':
        return {'k': k, 'doc': c11.wide(r), 'acts': []}
    if k == 'merge':
        c = c09.gen(r, r.choice([0, 2]), 'quick')
        return {'k': k, 'c': c}
    if k == 'flat':
        sc = tk.flatten(r, 4, single=False, opts=False, old=False)
        from props import c06
        if r.random() < .5:
            c06.cimport(r, sc)
        return {'k': k, 'sc': sc, 'opts': {'flattencollation': r.random() < .5, 'resolveAlias': r.random() < .3, 'skipstubs': r.random() < .2}, 'rev': r.choice('fffr')}
    if k == 'coll':
        return {'k': k, 'rules': tailoring(r), 'min': r.choice([0, 1, 1, 1, 2]), 'out': r.choice(['icu', 'icu', 'simple', 'keys'])}
    if k == 'exem':
        al = r.choice(CORPUS)
        return {'k': k, 'lines': [''.join(r.choice(al) for _ in range(r.randint(1, 25))) for _ in range(r.randint(2, 6))], 'fr': r.choice([1, 1, 20, 60, 100]), 'mb': r.choice([1, 2, 5]),
                'main': r.choice(['', '', 'a', '[a b {e\u0301}]'])}
    if k == 'us':
        al = r.choice(ALPH + CORPUS) + '[]{}\\-^&$ \u0301\u200d\U00010400'
        return {'k': k, 'm': [word(r, al) for _ in range(r.randint(1, 9))], 'text': r.choice(['[a-e{bc}[^b]&[a-z]]', '[[a-z]-[aeiou]]', '[\\u0061-\\u0065 \\U00010400{ab}]', '[abc][de][f{gh}]'])}
    if k == 'tags':
        return {'k': k, 'm': r.sample(TAGS, r.randint(2, 6)), 'new': [r.choice(['qqa', 'qqb', 'en', 'aa']) + '-' + '-'.join(r.sample(['fonipa', 'scouse', 'arevela', '1996'], 3)) for _ in range(2)]}
    if k == 'built':
        return {'k': k}
    if k == 'parents':
        return {'k': k, 'm': r.sample(['aa', 'aa_ET', 'aa_DJ', 'ab_Latn', 'en_GB', 'bb_Arab', 'cc_NP', 'yo', 'aa_Latn_ET_simple', 'en_x_foo', 'aa_001', 'en_fonipa'], 4), 'script': r.random() < .5,
                'root': r.random() < .6, 'sldr': r.random() < .3, 'region': r.random() < .3}
    raise ValueError(k)


def gen(r, i, tier):
    if i % 10 == 7:
        t = r.choice(TOOLS)
        sc = getattr(tk, t)(r, r.randint(2, 5))
        return {'k': 'tool', 'sc': sc, 'lists': [r.randrange(1, 1 << 30) for _ in range(3)]}
    n = r.randint(2, 5)
    its = [item(r, 'built' if i % 60 == 2 and not j else None) for j in range(n)]
    if not (i % 60 == 2):
        its = [x for x in its if x['k'] != 'built'] or [item(r, 'coll')]
    seqs = []
    for _ in range(2 if tier == 'quick' else 4):
        s = [r.randrange(len(its)) for _ in range(len(its) + 2)]
        s += [j for j in range(len(its)) if j not in s]
        for _ in range(r.choice([0, 1, 2])):
            s.insert(r.randrange(len(s)), -1 - r.randrange(4))
        seqs.append(s)
    return {'k': 'art', 'ops': its, 'acts': seqs}


def text(l, norm=True):
    if norm:
        l.normalise()
    s = []
    l.serialize_xml(s.append)
    return ''.join(s)


def compute(sim, j, it):
    """the artefact, as something that has a repr"""
    k = it['k']
    if k in ('doc', 'wide'):
        obs = []
        data = G.xml(it['doc'])
        if it['acts']:
            for _ in scripts.script(it['acts'], data, 'aa', [sim.path('i%d' % j)], obs.append):
                pass
            return obs
        from sldr.ldml import Ldml
        return text(Ldml(io.BytesIO(data)))
    if k == 'merge':
        from sldr.ldml_merge import LdmlMerge
        c = it['c']
        d = c['docs'][0]['doc']
        if c['k'] == 'clash':
            es = [[], []]
            for e in c['edits']:
                for s, x in enumerate((e['t'], e['o'])):
                    es[s].append({'k': 'text', 'p': e['p'], 'x': x})
        else:
            es = [[e for e in c['edits'] if e['w'] == w] for w in (0, 1)]
        ds = [G.xml(x) for x in (c09.apply(d, es[0]), c09.apply(d, es[1]), d)]
        t, o, b = (LdmlMerge(io.BytesIO(x), usedrafts=c['ud']) for x in ds)
        t.merge(o, b, default='proposed')
        return text(t)
    if k == 'flat':
        from sldr.ldml_merge import flattenlocale
        dirs = [sim.path('i%d' % j, d) for d in ('in', 'in2')]
        res = []
        for f in it['sc']['files']:
            p = f.get('p', '')
            if f.get('doc') and p.split('/')[0] in ('in', 'in2'):
                try:
                    l = flattenlocale(os.path.basename(p)[:-4], dirs, rev=it['rev'], **it['opts'])
                    res.append(l and text(l))
                except (AttributeError, KeyError, TypeError) as e:
                    res.append(repr(e))
        return res
    if k == 'coll':
        from sldr.collation import Collation
        c = Collation(ducet())
        try:
            if 'icu' in it['rules']:
                c.parse(it['rules']['icu'])
            else:
                c.convertSimple(it['rules']['simple'])
            if it['min'] == 1:
                c.minimise()
            elif it['min'] == 2:
                c.minimise_old()
            if it['out'] == 'icu':
                return c.asICU()
            if it['out'] == 'simple':
                return c.asSimple()
            return sorted((k, str(v.key)) for k, v in c.items())
        except (KeyError, IndexError, AttributeError, ValueError, TypeError, RecursionError) as e:     # bad tailorings
            return 'fails: ' + type(e).__name__
    if k == 'exem':
        from sldr.ldml_exemplars import Exemplars
        e = Exemplars()
        e.frequent, e.many_bases = it['fr'], it['mb']
        if it['main']:
            e.main = it['main']
        for l in it['lines']:
            e.process(l)
        e.analyze()
        return [e.main, e.auxiliary, e.index, e.punctuation, e.digits, e.script, e.graphemes, e.frequency, [str(x) for x in e.raw_clusters] if hasattr(e, 'raw_clusters') else None]
    if k == 'us':
        from sldr import UnicodeSets as U
        from sldr.ldml_exemplars import UCD
        s = U.list2us(it['m'], UCD())
        try:
            back = [sorted(x) for x in U.parse(s)]
        except (ValueError, IndexError) as e:       # C30
            back = type(e).__name__
        return [s, back, [sorted(x) for x in U.parse(it['text'])], list(U.flatten(it['text'])) if len(U.parse(it['text'])) > 1 else None]
    if k == 'tags':
        from sldr.langtags_full import LangTags, LangTag
        ts = LangTags()
        res = []
        for t in it['m'] + it['new']:
            x = ts.get(t) or LangTag(t).analyse(ts)
            res.append([str(x), repr(x), len(x), x.allforms()])
        for t in it['new']:
            x = LangTag(t)
            x.hidevariants = list(x.variants[:2])
            res.append(x.allforms())
        return res
    if k == 'built':
        from sldr.langtags_full import LangTags
        ts = type.__call__(LangTags, noalltags=True)
        return [ts.generate_alltags(), sorted((k, str(v), v.allforms()) for k, v in ts.items())]
    if k == 'parents':
        from sldr.utils import find_parents
        res = []
        for t in it['m']:
            try:
                a, b, c, d = find_parents(t + '.xml', match_script=it['script'], to_root=it['root'], needs_sldr=it['sldr'], match_region=it['region'])
                res.append([a, b, str(c), d])
            except (AttributeError, TypeError, KeyError, IndexError) as e:
                res.append(type(e).__name__)
        return res


def disturb(sim, n):
    """something that fails"""
    from sldr.ldml import Ldml
    if n == -1:
        sim.inline(lambda: Ldml(sim.path('bad.xml')))
    elif n == -2:
        sim.inline(lambda: Ldml(sim.path('good.xml')), rules=[{'path': 'good.xml', 'ops': 'read', 'nth': 1, 'act': 'err', 'arg': 'EIO'}])
    elif n == -3:
        def f():
            l = Ldml(sim.path('good.xml'))
            l.normalise()
            l.save_as(sim.path('other.xml'))
        sim.inline(f, rules=[{'ops': 'write', 'nth': 1, 'act': 'err', 'arg': 'ENOSPC'}])
    else:
        from sldr import UnicodeSets as U
        try:
            U.parse('[abc')
        except ValueError:
            pass


def run(sim, case):
    if case['k'] == 'tool':
        return tool(sim, case)
    its = case['ops']
    sim.put('bad.xml', b'<ldml><identity><version number="1"/>')
    sim.put('good.xml', G.xml(G.doc(random.Random(5), 'aa')))
    for j, it in enumerate(its):
        if it['k'] == 'flat':
            for f in it['sc']['files']:
                if f.get('p'):
                    sim.put('i%d/%s' % (j, f['p']), tk.content(f))
        elif it['k'] == 'doc':
            sim.put('i%d/aa.xml' % j, G.xml(it['doc']))
    want = []

    def one(j):
        return repr(compute(sim, j, its[j]))
    for j in range(len(its)):
        o = sim.proc(one, j)
        if o.kind != 'ok':
            raise Violation('failed', "{}: {}".format(its[j]['k'], (o.tb or o.exc or o.kind)[-900:]))
        want.append(o.value)

    def many(s):
        res = []
        for j in s:
            if j < 0:
                disturb(sim, j)
            elif j < len(its):
                res.append((j, one(j)))
        return res
    for s in case['acts']:
        o = sim.proc(many, s)
        if o.kind != 'ok':
            raise Violation('failed', "{}: {}".format([its[j]['k'] if 0 <= j < len(its) else 'disturbance' for j in s], (o.tb or o.exc or o.kind)[-900:]))
        before = []
        for j, v in o.value:
            if v != want[j]:
                raise Violation('order-dependent', "{} after {} gives {} instead of {}".format(its[j]['k'], before, cut(v, want[j]), cut(want[j], v)))
            sim.state(its[j]['k'], before[-3:])
            before.append(its[j]['k'])
    return {'nontrivial': sum(1 for w in want if len(w) > 4) > 1, 'out': want}


def tool(sim, case):
    sc = case['sc']
    res = []
    for ls in [0] + case['lists']:
        tk.setup(sim, sc)
        o = tk.run(sim, sc, listseed=ls, **({'pool': {'seed': 1, 'prob': 0, 'ncpu': 1}}))
        f = {k: v.decode('utf-8', 'replace') for k, v in sim.snapshot().items()}
        rep = sorted(o.out.splitlines()) if sc['tool'] == 'ldmlnormalize' else o.out.splitlines()
        if o.kind == 'hang':
            raise Violation('hang', sc['tool'])
        got = [o.kind, o.code, rep, sorted(f.items())]
        if res and got != res[0]:
            raise Violation('order-dependent', "{} with listing order {}: {} instead of {}".format(sc['tool'], ls, cut(repr(got), repr(res[0])), cut(repr(res[0]), repr(got))))
        res.append(got)
        sim.state(sc['tool'], ls)
    return {'nontrivial': res[0][0] in ('ok', 'exit'), 'out': res[0]}


def cut(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '...' + a[max(0, k - 100):k + 200] + '...'
