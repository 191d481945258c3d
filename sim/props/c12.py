"""Proposals arriving in any order leave the best draft in front and lose nothing"""
import copy, random
import gen as G
import model
from props.util import *

ID = 'C12'
N = {'quick': 1700, 'thorough': 60000}
RULE = ("Contributors send proposals (item, own alternate name, value, draft status) and changes of the primary's draft status to a node that keeps one locale file. The network delays, reorders and duplicates; the node applies what has arrived in sessions "
        "(load, apply, save), each a fresh process, some of which are killed or hit failing calls during the save; what was not acknowledged is sent again. After every acknowledged session, and after every failed one, the file must hold for each item every value received so far "
        "exactly once with its own draft status, the best in front, and everything else as it was. Non-trivial: an item with at least two competing values.")
REAL = ['sldr.ldml addnode, ensure_path, change_draft, normalise, load, save_as', 'sldr.ldml_merge.LdmlMerge (same calls)', 'file system calls of CPython']
STUB = 'network between contributors and node; system call results and process death by the interposition library'
STATES = 'distinct (values and drafts of all items, primary) situations'
ASSUME = ['values of one item differ from each other; each contributor has one value for an item at a time', 'only ensure_path knows the value when it looks for the item, so repeated arrivals go through ensure_path']
RANK = {d: i for i, d in enumerate(G.DRAFTS)}
ITEMS = [('localeDisplayNames/languages', 'language', {'type': 'en'}), ('localeDisplayNames/languages', 'language', {'type': 'fr'}), ('localeDisplayNames/territories', 'territory', {'type': 'US'}),
         ('characters', 'exemplarCharacters', {'type': 'index'}), ('delimiters', 'quotationStart', {}), ('delimiters', 'quotationEnd', {}), ('layout/orientation', 'characterOrder', {}),
         ('localeDisplayNames/languages', 'language', {'type': 'new'}), ('numbers', 'defaultNumberingSystem', {})]


def gen(r, i, tier):
    d = G.doc(r, 'aa', rich=r.choice([.3, .7, 1]), alts=r.choice([0, .1, .4]), draft=r.choice([.2, .6, 1]), comments=r.choice([0, .1]))
    its = r.sample(range(len(ITEMS)), r.randint(1, 3))
    props = []
    drafts = r.sample(G.DRAFTS, r.choice([2, 3, 7]))
    for k in its:
        for u in range(r.randint(1, 5)):
            p = {'it': k, 'u': r.choice([None, None, '']) if u == 0 and r.random() < .4 else r.choice(['proposed-c%d', 'c%d', 'proposed-x-c%d']) % u, 'x': 'V%d%s' % (len(props), r.choice(['', ' & <', 'é'])), 'd': r.choice(drafts + [None]),
                 'via': r.choice(['ensure', 'ensure', 'node', 'old'])}
            props.append(p)
            if p['via'] == 'ensure' and r.random() < .25:       # the same value again, better or worse
                props.append(dict(p, d=r.choice(drafts)))
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        props.append({'it': r.choice(its), 'via': 'chg', 'd': r.choice(drafts), 'u': r.choice([None, None, 'z']), 'at': r.random()})
    order = [k for k in range(len(props))]
    r.shuffle(order)
    for k in list(order):
        while r.random() < .25:
            order.insert(r.randrange(len(order) + 1), k)
    ses = []
    while order:
        n = r.choice([1, 1, 2, 3, 8])
        f = []
        if r.random() < .25:
            f = [r.choice([{'ops': 'mut', 'nth': r.randint(1, 8), 'act': r.choice(['crash_before', 'crash_after', 'torn']), 'arg': 300}, {'ops': 'mut', 'nth': r.randint(1, 6), 'act': 'err', 'arg': r.choice(['ENOSPC', 'EIO'])}])]
        ses.append({'msgs': order[:n], 'rules': f, 'merge': r.random() < .2, 'norm': r.choice([None, None, True, False]), 'ud': r.choice([None, None, None, 'provisional', 'generated'])})
        order = order[n:]
    return {'doc': d, 'props': props, 'ses': ses, 'style': {'seed': r.randrange(1 << 30)}}


def simplify(case):
    for i in range(len(case['ses'])):
        if len(case['ses']) > 1:
            yield dict(case, ses=case['ses'][:i] + case['ses'][i + 1:])
        s = case['ses'][i]
        for j in range(len(s['msgs'])):
            yield dict(case, ses=case['ses'][:i] + [dict(s, msgs=s['msgs'][:j] + s['msgs'][j + 1:])] + case['ses'][i + 1:])
        for k, v in (('rules', []), ('merge', False), ('norm', None), ('ud', None)):
            if s[k] != v:
                yield dict(case, ses=case['ses'][:i] + [dict(s, **{k: v})] + case['ses'][i + 1:])
        if i + 1 < len(case['ses']):
            yield dict(case, ses=case['ses'][:i] + [dict(s, msgs=s['msgs'] + case['ses'][i + 1]['msgs'])] + case['ses'][i + 2:])


def default(doc):
    for n in G.walk(doc):
        if n['t'] == 'sil:identity':
            return n.get('a', {}).get('draft', 'unconfirmed')
    return 'unconfirmed'


def isitem(n, tag, at):
    return n['t'] == tag and {k: v for k, v in n.get('a', {}).items() if k not in ('alt', 'draft')} == at


def split(root, its, names=None):
    """(values of each item, the rest): values are (text, draft rank, primary)"""
    dd = model.default_draft(root)
    vals = {k: [] for k in its}
    if names is None:
        names = set()

    def w(e, path):
        keep = []
        for c in e.kids:
            p = path + [c.tag]
            for k in its:
                pp, tag, at = ITEMS[k]
                if '/'.join(p) == pp + '/' + tag and {a: b for a, b in c.at.items() if a not in ('alt', 'draft')} == at:
                    vals[k].append((c.text, RANK.get(c.at.get('draft', dd), 5), 'alt' not in c.at))
                    names.add((k, c.at.get('alt')))
                    break
            else:
                keep.append(c)
                w(c, p)
        e.kids = keep
        for x in keep:      # comments may go with an item
            x.before, x.after = list(x.before), list(x.after)
    w(root, [])
    return vals


def prune(root):
    """sections that only exist to hold items"""
    conts = {pp.split('/')[i] for pp, _, _ in ITEMS for i in range(len(pp.split('/')))}

    def w(e):
        for c in list(e.kids):
            w(c)
            if c.tag in conts and not c.kids and not c.text:
                e.kids.remove(c)
    w(root)
    return root


class Item:
    """What is known about an item: text -> draft rank, and the primary's text where it is certain"""

    def __init__(self):
        self.v = {}

    def copy(self):
        c = Item()
        c.v = dict(self.v)
        return c


def run(sim, case):
    doc = case['doc']
    dd = RANK[default(doc)]
    data = G.xml(doc, case['style'])
    path = sim.put('aa.xml', data)
    props = case['props']
    its = sorted({p['it'] for p in props})
    t0 = model.parse(data)
    comm0 = sorted(model.comments(t0))
    names = set()
    vals = split(t0, its, names)
    uid = next((x.at['uid'] for i in t0.kids if i.tag == 'identity' for s in i.kids for x in s.kids if 'uid' in x.at), None)
    auto = 'proposed-' + uid if uid else 'proposed'
    if any(p['via'] != 'chg' and (p['it'], p['u'] or auto) in names for p in props):
        raise InvalidCase("a name that somebody has used before")
    know = {k: Item() for k in its}
    for k in its:
        seen = set()
        for x, d, prim in vals[k]:
            if x in know[k].v:
                raise InvalidCase("ambiguous values")
            know[k].v[x] = d
        if vals[k] and sum(p for _, _, p in vals[k]) != 1:
            if sum(p for _, _, p in vals[k]) > 1:
                raise InvalidCase("two primary values")
            pass        # only alternates: the best of them comes to the front
    rest = prune(model.shed_drafts(t0))
    best0 = {k: (not know[k].v or any(p and d == min(know[k].v.values()) for _, d, p in vals[k]) or not any(p for _, _, p in vals[k])) for k in its}
    touched = set()
    compete = 0

    def expect(kn, p, usedraft, prim):
        """apply a message to what is known; prim: item -> text of the primary as the node has it now"""
        it = kn[p['it']].v
        d = p.get('d')
        r_ = RANK[d] if d is not None else RANK[usedraft] if usedraft else dd
        if p['x'] in it:
            if d is not None and RANK[d] < it[p['x']]:
                it[p['x']] = RANK[d]
        else:
            it[p['x']] = r_

    def session(s, msgs):
        """runs in the simulated node; returns what it did to primaries for the changes of draft"""
        l = ldml(path, s['merge'])
        l.use_draft = s['ud']
        done = []
        for m in msgs:
            p = props[m]
            pp, tag, at = ITEMS[p['it']]
            full = pp + '/' + tag + ''.join('[@{}="{}"]'.format(a, b) for a, b in at.items())
            if p['via'] == 'chg':
                e = l.find(full)
                if e is not None:
                    done.append((m, e.text))
                    l.change_draft(e, p['d'], alt=p['u'])
                else:
                    done.append((m, None))
            elif p['via'] in ('node', 'old'):
                par = l.ensure_path(pp)[0]
                a = dict(at)
                if p['d'] is not None:
                    a['draft'] = p['d']
                if p['via'] == 'node':
                    e = l.addnode(par, tag, attrib=a, alt=p['u'], returnnew=True)
                else:
                    e = l.addnode(par, tag, alt=p['u'], returnnew=True, **a)
                e.text = p['x']
                done.append((m, None))
            else:
                n = l.ensure_path(full, text=p['x'], draft=p['d'], alt=p['u'])
                need(len(n) == 1 and n[0].text == p['x'], 'ensure-path', "ensure_path({!r}, text={!r}) found {}", full, p['x'], [x.text for x in n])
                done.append((m, None))
        if s['norm'] is not None:
            l.normalise(usedrafts=s['norm'])
        l.save_as(path)
        return done

    def check(kn, what):
        nonlocal compete
        try:
            t = model.parse(sim.get('aa.xml'))
        except model.BadXml as e:
            raise Violation('malformed', "{}: {}".format(what, e))
        cs = sorted(model.comments(t))
        vs = split(t, its)
        for k in its:
            got = sorted((x, d) for x, d, _ in vs[k])
            want = sorted((x, d) for x, d in kn[k].v.items())
            name = ITEMS[k][1] + repr(ITEMS[k][2])
            gx, wx = [x for x, _ in got], [x for x, _ in want]
            if gx != wx:
                raise Violation('lost' if set(wx) - set(gx) else 'duplicated' if len(set(gx)) < len(gx) else 'extra', "{}: {} holds the values {} instead of {}".format(what, name, show(vs[k]), show2(kn[k].v)))
            need(got == want, 'draft', "{}: {} holds the values {} instead of {}", what, name, show(vs[k]), show2(kn[k].v))
            if vs[k]:
                pr = [d for _, d, p in vs[k] if p]
                need(len(pr) == 1, 'primary', "{}: {} has {} primary values: {}", what, name, len(pr), show(vs[k]))
                best0[k] = best0[k] or pr[0] == min(d for _, d, _ in vs[k])     # a better alternate that was there before any proposal may stay
                if best0[k]:
                    need(pr[0] == min(d for _, d, _ in vs[k]), 'not-best', "{}: the primary value of {} is not the best: {}", what, name, show(vs[k]))
                compete += k in touched and len(got) > 1
        d = model.diff(rest, prune(model.shed_drafts(t)))
        need(not d, 'untouched', "{}: {}", what, d)
        need(cs == comm0, 'comments', "{}: comments are {!r} instead of {!r}", what, cs[:3], comm0[:3])
        sim.state(sorted((k, sorted(v)) for k, v in vs.items()))

    nodeonly = set()        # values sent with addnode: once only
    pending = []
    for n, s in enumerate(case['ses'] + [{'msgs': [], 'rules': [], 'merge': False, 'norm': None, 'ud': None}]):
        msgs = []
        for m in pending + s['msgs']:
            if m >= len(props):
                raise InvalidCase("no such message")
            if props[m]['via'] in ('node', 'old'):
                if m in nodeonly or m in msgs:
                    continue
            if props[m]['via'] == 'chg' and m in msgs:
                continue
            msgs.append(m)
        before = sim.get('aa.xml')
        if not msgs:
            continue
        what = "session {}: {}".format(n, [props[m] for m in msgs])
        o = sim.proc(session, s, msgs, rules=s['rules'])
        need(o.kind != 'hang', 'hang', what)
        need(not (o.kind == 'exc' and not sum(o.fired)), 'failed', "{}: {}", what, (o.tb or '')[-800:])
        if not o.ok:
            sim.count('failed_sessions')
            now = sim.get('aa.xml')
            if now == before:
                pending = msgs
                continue
            # killed after the new file was in place: the same messages applied to the old file say what it did
            sim.put('aa.xml', before)
            o = sim.proc(session, s, msgs)
            need(o.ok and sim.get('aa.xml') == now, 'failed-save', "{}: what a killed session left is not what it would have saved", what)
        pending = []
        for m, prim in o.value:
            p = props[m]
            if p['via'] == 'chg':
                if prim is None:
                    continue
                if prim not in know[p['it']].v:
                    raise Violation('extra', "{}: primary value {!r} was never proposed".format(what, prim))
                know[p['it']].v[prim] = RANK[p['d']]
            else:
                expect(know, p, s['ud'], None)
            touched.add(p['it'])
            if p['via'] in ('node', 'old'):
                nodeonly.add(m)
        check(know, what)
    # everything once more: nothing changes
    again = [m for m, p in enumerate(props) if p['via'] == 'ensure' and p['x'] in know[p['it']].v and p['d'] is not None and RANK[p['d']] >= know[p['it']].v[p['x']]]
    if again:
        def load():
            l = ldml(path)
            l.save_as(path)
        need(sim.proc(load).ok, 'failed', "reload")
        before = sim.get('aa.xml')
        o = sim.proc(session, {'merge': False, 'ud': None, 'norm': None}, again)
        need(o.ok, 'failed', "again: {}", o.tb)
        need(sim.get('aa.xml') == before, 'not-idempotent', "proposals received again change the file: {} / {}", brief(sim.get('aa.xml'), before), brief(before, sim.get('aa.xml')))
    # something worse under a name that stands for something better: nothing changes
    held = []
    t = model.parse(sim.get('aa.xml'))
    dd2 = model.default_draft(t)
    held_names(t, its, held, dd2)
    prims = {k: d for k, v in split(t, its).items() for _, d, p in v if p}
    worse = [(k, a, d) for k, a, d in held if prims.get(k, 99) <= d and d + 1 < len(G.DRAFTS)]
    if worse:
        def sess2():
            l = ldml(path)
            for k, a, d in worse:
                pp, tag, at = ITEMS[k]
                l.ensure_path(pp + '/' + tag + ''.join('[@{}="{}"]'.format(x, b) for x, b in at.items()), text='worse' + a, draft=G.DRAFTS[d + 1], alt=a_of(l, a))
            l.save_as(path)
        need(sim.proc(lambda: ldml(path).save_as(path)).ok, 'failed', "reload")
        before = sim.get('aa.xml')
        o = sim.proc(sess2)
        need(o.ok, 'failed', "worse proposals: {}", o.tb)
        need(sim.get('aa.xml') == before, 'worse-replaces', "worse proposals for {} change the file: {} / {}", worse, brief(sim.get('aa.xml'), before), brief(before, sim.get('aa.xml')))
    return {'nontrivial': compete > 0}


def a_of(l, a):
    """the name to give so that the library makes a of it, or None"""
    uid = getattr(l, 'uid', None)
    return a if uid is None else a[:-len('-' + str(uid))] if a.endswith('-' + str(uid)) else None


def held_names(root, its, out, dd):
    uid = next((x.at['uid'] for i in root.kids if i.tag == 'identity' for s in i.kids for x in s.kids if 'uid' in x.at), None)

    def w(e, path):
        for c in e.kids:
            p = path + [c.tag]
            for k in its:
                pp, tag, at = ITEMS[k]
                if '/'.join(p) == pp + '/' + tag and {a: b for a, b in c.at.items() if a not in ('alt', 'draft')} == at:
                    a = c.at.get('alt')
                    if a and (uid is None or a.endswith('-' + uid)):
                        out.append((k, a, RANK.get(c.at.get('draft', dd), 5)))
                    break
            else:
                w(c, p)
    w(root, [])


def show(v):
    return ['{}{!r} {}'.format('*' if p else '', x, G.DRAFTS[d]) for x, d, p in v]


def show2(v):
    return ['{!r} {}'.format(x, G.DRAFTS[d]) for x, d in v.items()]


def brief(b, other):
    k = next((i for i, (x, y) in enumerate(zip(b, other)) if x != y), min(len(b), len(other)))
    return '...' + repr(b[max(0, k - 80):k + 120].decode('utf-8', 'replace')) + '...'
