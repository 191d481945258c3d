"""Edits acknowledged by a save are all there after restart and reload; the saved form is canonical"""
import copy, os, random
import gen as G
import model
from props.util import *

ID = 'C04'
N = {'quick': 1800, 'thorough': 40000}
RULE = ("A case is a document and a history of sessions, each a fresh process that loads the file, applies edits through the library's editing calls, saves and ends, "
        "with some sessions killed or hit by a failing call during the save. A reference document gets the same edits; after every acknowledged save the file has to hold exactly that, "
        "and loading and saving once more has to reproduce the bytes, also from a permuted copy. Non-trivial: at least one edit was acknowledged by a save.")
REAL = ['sldr.ldml load, addnode, ensure_path, remove_path, subelement, find, normalise, save_as', 'sldr.ldml_merge.LdmlMerge (same calls)', 'file system calls of CPython']
STUB = 'process death and failing calls come from the interposition library; the reference document is a plain tree edited beside the real one'
ASSUME = ['XML whitespace at the ends of text lines is not content (the loader trims it)', '@draft equal to the document default and @draft on elements with children are not content when drafts are in use']
TEXTS = G.TEXTS + ['a\rb', 'x\u2028y', '\ufeffq', '\x85', 'a\u00a0', '{}', '\U0010fffd', ']]', '&#13;', 'a  b', "'", '"', '<', '>', '&', '&&amp;', 'a\n\u00a0b', 'a\u2003\n\n\u3000b', 'one\u00a0 \n two']
ATTRS = ['a', 'x & y', '"q"', "it's", 'a\nb', 'a\tb', '<>', 'ü', ' lead', 'trail ', '\u00a0', 'a\rb', '&#10;', '']


def gen(r, i, tier):
    d = G.doc(r, r.choice(['aa', 'ab_Latn']), rich=r.choice([.3, .7, 1.2]), comments=r.choice([0, .15]), alts=r.choice([0, .25]))
    new = r.random() < .08      # begins with no file, or an empty one
    if new:
        d = G.N('ldml')
    ses = []
    for s in range(r.randint(1, 4)):
        ed = []
        for _ in range(r.randint(0, 6)):
            k = r.choice(['text', 'text', 'attr', 'add', 'add', 'ensure', 'remove', 'comment', 'sub', 'textnew', 'look', 'silid'] + ['ensure', 'ensure', 'silid'] * new)
            e = {'k': k, 'at': r.random()}
            if k in ('text', 'add', 'ensure', 'textnew', 'sub'):
                e['x'] = model.clean(r.choice(TEXTS)) or 'x'
            if k == 'attr':
                e.update(a=r.choice(['references', 'count', 'standard', 'note']), v=r.choice(ATTRS))
            if k == 'comment':
                e['c'] = [r.choice(G.COMMENTS) for _ in range(r.randint(1, 2))]
            if k in ('add', 'sub', 'ensure'):
                e['v'] = r.choice(['n%d' % r.randrange(50), 'ü & "x"' if k != 'ensure' else 'ü', 'a b', '𞤀'])
            if k == 'ensure':
                e.update(direct=r.random() < .5, before=r.choice([None, None, 'language', 'territory', 'x']))
            if k == 'silid':
                e.update(a=r.choice(['revid', 'source', 'uid', 'toolkit']), v=r.choice(ATTRS))
            if k == 'remove':
                e['how'] = r.choice(['node', 'path'])
            ed.append(e)
        f = None
        x = r.random()
        if x < .15:
            f = {'ops': 'all', 'nth': r.randint(1, 14), 'act': r.choice(['crash_before', 'crash_after', 'torn']), 'arg': 500}
        elif x < .3:
            f = {'ops': 'mut', 'nth': r.randint(1, 7), 'act': 'err', 'arg': r.choice(['ENOSPC', 'EIO', 'EINTR'])}
        ses.append({'edits': ed, 'rules': [f] if f else [], 'drafts': r.random() < .7, 'norm': r.choice(['plain', 'drafts', 'none', 'plain']), 'topns': r.random() < .7,
                    'merge': r.random() < .25, 'saves': r.choice([1, 1, 1, 2])})
    return {'doc': d, 'style': G.style(r), 'new': r.choice(['absent', 'empty']) if new else None, 'ses': ses, 'perm': r.randrange(1 << 30)}


def simplify(case):
    for i in range(len(case['ses'])):
        if len(case['ses']) > 1:
            c = copy.deepcopy(case)
            del c['ses'][i]
            yield c
        for j in range(len(case['ses'][i]['edits'])):
            c = copy.deepcopy(case)
            del c['ses'][i]['edits'][j]
            yield c
        for k, v in (('rules', []), ('norm', 'plain'), ('drafts', True), ('topns', True), ('merge', False), ('saves', 1)):
            if case['ses'][i][k] != v:
                c = copy.deepcopy(case)
                c['ses'][i][k] = v
                yield c


def cn(t):
    return '{' + G.SIL + '}' + t[4:] if t.startswith('sil:') else t


def nodes(d, pre=()):
    """(steps, node, parent)"""
    me = pre + ((cn(d['t']), tuple(sorted((cn(k), v) for k, v in d.get('a', {}).items()))),)
    yield me, d, None
    for c in d.get('c', ()):
        for s, n, p in nodes(c, me):
            yield s, n, p if p is not None else d


def item(n):
    return (n['t'], tuple(sorted((k, v) for k, v in n.get('a', {}).items() if k not in ('alt', 'draft'))))


def locate(l, steps):
    cur = l.root
    for tag, at in steps[1:]:
        at = dict(at)
        for c in cur:
            hit = next((x for x in [c] + list(getattr(c, 'alternates', {}).values()) if x.tag == tag and x.attrib == at), None)
            if hit is not None:
                break
        else:
            raise Violation('element-lost', "no {} with {} below {}".format(tag, at, cur.tag))
        cur = hit
    return cur


def xpath(steps, l):
    def q(t):
        return l.namespaces[t[1:t.index('}')]] + ':' + t[t.index('}') + 1:] if t.startswith('{') else t
    return '/'.join(q(t) + ''.join('[@{}="{}"]'.format(q(k), v) for k, v in at) for t, at in steps[1:])


CONT = ['localeDisplayNames/languages', 'localeDisplayNames/territories', 'characters', 'delimiters', 'numbers/symbols', 'listPatterns']
LEAF = {'languages': 'language', 'territories': 'territory', 'characters': 'exemplarCharacters', 'symbols': 'decimal', 'special': None}


def ambiguous(doc, steps):
    """would an xpath made of these steps find something else, too?"""
    at = [doc]
    for t, a in steps[1:]:
        at = [c for x in at for c in x.get('c', ()) if cn(c['t']) == t and set(a) <= {(cn(k), v) for k, v in c.get('a', {}).items()}]
    return len(at) != 1


def plan_edits(doc, edits):
    """Decide on the reference document what each edit does, apply it there, and return instructions for the real one"""
    out = []
    for e in edits:
        ns = list(nodes(doc))
        k = e['k']
        pick = lambda xs: xs[int(e['at'] * len(xs))] if xs else None
        if k == 'text':
            t = pick([x for x in ns if 'x' in x[1] and not x[1].get('c') and x[1]['t'] != 'cr'])
            if t:
                out.append(('text', t[0], e['x']))
                t[1]['x'] = e['x']
        elif k == 'textnew':        # collation rules and urls
            t = pick([x for x in ns if x[1]['t'] in ('cr', 'sil:url')])
            if t:
                out.append(('text', t[0], e['x']))
                t[1]['x'] = e['x']
        elif k == 'attr':
            t = pick([x for x in ns if x[2] is not None and x[1]['t'] not in ('identity', 'special', 'cr', 'version') and 'alt' not in x[1].get('a', {})
                      and sum(item(y) == item(x[1]) for y in x[2]['c']) == 1])
            if t:
                out.append(('attr', t[0], e['a'], e['v']))
                t[1].setdefault('a', {})[e['a']] = e['v']
        elif k == 'comment':
            t = pick([x for x in ns if 'alt' not in x[1].get('a', {})])
            if t:
                out.append(('comment', t[0], e['c']))
                t[1]['m'] = list(e['c'])
        elif k == 'remove':
            t = pick([x for x in ns if x[2] is not None and x[1]['t'] != 'identity' and x[2]['t'] not in ('identity',)
                      and not (x[1]['t'] == 'special' and x[2]['t'] == 'identity') and x[1]['t'] != 'sil:identity' and sum(item(y) == item(x[1]) for y in x[2]['c']) == 1
                      and not x[1].get('e') and not x[1].get('m')])
            if t and not t[2].get('e'):     # (a comment at the end goes with whatever was last when it was read)
                badq = any(set('"\'[]/\n=') & set(v) for s in t[0] for _, v in s[1]) or any('draft' in dict(s[1]) or 'alt' in dict(s[1]) for s in t[0]) \
                    or ambiguous(doc, t[0])
                out.append(('remove', t[0], 'node' if badq else e['how']))
                t[2]['c'] = [x for x in t[2]['c'] if x is not t[1]]
        elif k in ('add', 'sub'):
            t = pick([x for x in ns if x[1]['t'] in ('languages', 'territories', 'characters', 'monthWidth')])
            if t and t[1].get('c'):
                tag = t[1]['c'][0]['t']
                if not any(y.get('a', {}).get('type') == e['v'] for y in t[1]['c']):
                    out.append((k, t[0], tag, e['v'], e['x']))
                    t[1]['c'].append(G.N(tag, {'type': e['v']}, e['x']))
        elif k == 'ensure':
            p = CONT[int(e['at'] * 100) % 3]
            tag = LEAF[p.split('/')[-1]]
            cur = doc
            ok = True
            for s in p.split('/'):
                nx = [c for c in cur.get('c', ()) if c['t'] == s]
                if len(nx) > 1 or (nx and nx[0].get('a')):
                    ok = False
                    break
                cur = nx[0] if nx else None
                if cur is None:
                    break
            if ok and not (cur and any(y.get('a', {}).get('type') == e['v'] for y in cur.get('c', ()))):
                cur = doc
                for s in p.split('/'):
                    nx = [c for c in cur.get('c', ()) if c['t'] == s]
                    if not nx:
                        nx = [G.N(s)]
                        cur.setdefault('c', []).append(nx[0])
                    cur = nx[0]
                cur.setdefault('c', []).append(G.N(tag, {'type': e['v']}, e['x']))
                out.append(('ensure', '{}/{}[@type="{}"]'.format(p, tag, e['v']), e['x'], e.get('direct'), e.get('before')))
        elif k == 'silid':
            cur = doc
            for s in ('identity', 'special', 'sil:identity'):
                nx = [c for c in cur.get('c', ()) if c['t'] == s]
                if not nx:
                    nx = [G.N(s)]
                    cur.setdefault('c', []).append(nx[0])
                cur = nx[0]
            cur.setdefault('a', {})[e['a']] = e['v']
            out.append(('silid', e['a'], e['v']))
        elif k == 'look':
            t = pick(ns)
            out.append(('look', t[0]))
    return out


def apply(l, ops):
    for o in ops:
        k = o[0]
        if k == 'ensure':
            n = l.ensure_path(o[1], **({'text': o[2], 'before': o[4]} if o[3] else {}))
            need(len(n) == 1, 'ensure-path', "ensure_path({!r}) found {} elements", o[1], len(n))
            n[0].text = o[2]
            continue
        if k == 'silid':
            l.add_silidentity(**{o[1]: o[2]})
            continue
        e = locate(l, o[1])
        if k == 'text':
            e.text = o[2]
        elif k == 'attr':
            e.set(o[2], o[3])
        elif k == 'comment':
            e.comments = list(o[2])
        elif k == 'remove':
            if o[2] == 'path':
                p = xpath(o[1], l)
                got = l.remove_path(p)
                need(len(got) == 1, 'remove-path', "remove_path({!r}) removed {} elements", p, len(got))
            else:
                e.parent.remove(e)
        elif k == 'add':
            n = l.addnode(e, o[2], attrib={'type': o[3]})
            n.text = o[4]
        elif k == 'sub':
            n = l.subelement(e, o[2], type=o[3])
            n.text = o[4]
        elif k == 'look':
            l.find('identity/language')
            l.findall('characters/exemplarCharacters')
            l.find('.//sil:identity')


def shed(d, default=None):
    """The library does not write @draft that says nothing"""
    if default is None:
        default = 'unconfirmed'
        for n in G.walk(d):
            if n['t'] == 'sil:identity' and 'draft' in n.get('a', {}):
                default = n['a']['draft']
    for n in G.walk(d):
        if n['t'] != 'sil:identity' and 'draft' in n.get('a', {}) and (n.get('c') or n['a']['draft'] == default):
            del n['a']['draft']
            if not n['a']:
                del n['a']
    return d


def as_doc(data):
    """The file as reference document: same content, comments where they now stand"""
    def tg(t):
        return 'sil:' + t[t.index('}') + 1:] if t.startswith('{' + model.SIL) else t

    def w(e):
        n = G.N(tg(e.tag), {tg(k): v for k, v in e.at.items()}, None if e.kids else e.text, [w(c) for c in e.kids])
        if e.before:
            n['m'] = list(e.before)
        if e.kids and e.kids[-1].after:
            n['e'] = list(e.kids[-1].after)
        return n
    return w(model.parse(data))


def run(sim, case):
    st = dict(case['style'], inner=0, after=[])
    data = G.xml(case['doc'], st)
    p = sim.put('aa.xml', data)
    if case.get('new') == 'empty':
        sim.put('aa.xml', b'')
    elif case.get('new'):
        os.remove(p)
    doc = copy.deepcopy(case['doc'])
    acked = 0

    def session(s, ops):
        l = ldml(p, s['merge'], usedrafts=s['drafts'])
        apply(l, ops)
        for _ in range(s['saves']):
            if s['norm'] != 'none':
                l.normalise(usedrafts=s['norm'] == 'drafts' and s['drafts'])
            l.save_as(p, topns=s['topns'])

    for n, s in enumerate(case['ses']):
        before = sim.get('aa.xml')
        new = copy.deepcopy(doc)
        ops = plan_edits(new, s['edits'])
        if s['drafts']:
            shed(new)
        o = sim.proc(session, s, ops, rules=s['rules'])
        now = sim.get('aa.xml')
        what = "session {}".format(n)
        need(o.kind != 'hang', 'hang', what)
        need(now is not None or before is None and not o.ok, 'file-gone', what)
        if o.kind == 'exc' and not sum(o.fired):
            raise Violation('edit-failed', "{}: {}".format(what, o.tb[-1200:]))
        if o.ok:
            acked += len(ops)
            check_same('acknowledged-edit', what, model.from_doc(new), now)
            doc = as_doc(now)
        else:
            sim.count('failed_sessions')
            if now != before:
                check_same('failed-save', what + ' (failed)', model.from_doc(new), now)
                doc = as_doc(now)
        sim.state(o.kind, now)
        if now == before and not o.ok:
            continue
        # canonical form

        def again(drafts=s['drafts'], topns=s['topns'], merge=s['merge']):
            l = ldml(p, merge, usedrafts=drafts)
            l.save_as(sim.path('again.xml'), topns=topns)
        o2 = sim.proc(again)
        need(o2.ok, 'reload', "{}: what was saved does not load and save: {}", what, o2.tb[-800:])
        out = sim.get('again.xml')
        check_same('untouched', what + ', loaded and saved again', model.from_doc(doc), out)
        if s['norm'] != 'none' and o.ok:
            if out != now:
                k = next((i for i, (a, b) in enumerate(zip(out, now)) if a != b), min(len(out), len(now)))
                raise Violation('canonical', "{}: loading and saving again gives other bytes: ...{} instead of ...{}".format(what, quote(out[max(0, k - 80):k + 80]), quote(now[max(0, k - 80):k + 80])))
        else:
            def third():
                ldml(sim.path('again.xml'), usedrafts=s['drafts']).save_as(sim.path('third.xml'), topns=s['topns'])
            o3 = sim.proc(third)
            need(o3.ok and sim.get('third.xml') == out, 'canonical', "{}: a third load and save gives other bytes again", what)
    # permuted copy
    r = random.Random(case['perm'])
    if not has_alts(doc) and not any(x.get('e') for x in G.walk(doc)) and not dup_items(doc):
        q = copy.deepcopy(doc)
        for x in G.walk(q):
            if x.get('c') and x['t'] not in ('collation', 'sil:external-resources', 'identity'):
                r.shuffle(x['c'])
        a = ser(ldml(G.xml(doc, {'ind': '', 'fixns': True})))
        b = ser(ldml(G.xml(q, {'ind': '', 'shuffleattrs': True, 'seed': case['perm'], 'fixns': True})))
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation('canonical-order', "a copy with its elements in another order is saved differently: ...{} / ...{}".format(quote(b[max(0, k - 100):k + 100]), quote(a[max(0, k - 100):k + 100])))
    return {'nontrivial': acked > 0}


def has_alts(d):
    return any('alt' in x.get('a', {}) for x in G.walk(d))


def dup_items(d):
    for x in G.walk(d):
        ks = [(c['t'], tuple(sorted((k, v) for k, v in c.get('a', {}).items() if k in ('type', 'id', 'name', 'numberSystem', 'alt')))) for c in x.get('c', ())]
        if len(set(ks)) < len(ks):
            return True
    return False

