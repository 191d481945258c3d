"""Merging edited flat files back into the repository keeps everybody's work"""
import os, random, xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
import gen as G
import model
import simtool
from props.util import *
from props.c10 import leafmap, chain

ID = 'C19'
N = {'quick': 700, 'thorough': 20000}
RULE = ("A case is a tree of locales (a chain of two to five files) kept by a server in a version history, and one to three users. By a seeded schedule users download the flattened file of one locale (ldmlflatten -g, marked with the "
        "revision), edit their copies, others commit changes to the file directly, and the copies come back, late and in any order, through ldmlmerge --git, whose git commands are answered from the simulated history. Some merges are killed "
        "or meet a failing git command, read or write; then they are tried again. After each merge the file must hold everybody's edits so far (no two edit the same item), every other item as it was, and "
        "nothing that is inherited; a failed merge leaves the file as it was, or as the complete one. Non-trivial: a copy came back and changed the file.")
REAL = ['ldmlmerge --git, ldmlflatten', 'flattenlocale, LdmlMerge.merge, difference', 'langtags and supplemental data']
STUB = 'the git history (answers to git log and git show), arrival order of the copies, kills and failing calls'
STATES = 'distinct (sequence of events, fault, number of items in conflict-free merges) combinations'
ASSUME = ['no two parties change the same item between a download and its merge (clashes: C09)', 'the files a locale inherits from do not change between download and merge',
          'items without alternates and drafts', 'who removes an item leaves what held it (else the item is one with its siblings)', 'git itself is taken to work or to fail with an error status']

LOCS = ['aa', 'aa_ET', 'aa_Latn_ET', 'en_AU', 'en_150', 'es_MX', 'yo', 'yo_BJ', 'root', 'zh_Hant_MO', 'pt_AO']
MENU = [('localeDisplayNames/languages/language', 'type', ['aa', 'bb', 'cc', 'dd', 'ee']),
        ('localeDisplayNames/territories/territory', 'type', ['ET', 'DJ', 'AU', '001']),
        ('localeDisplayNames/scripts/script', 'type', ['Latn', 'Cyrl']),
        ('delimiters/quotationStart', None, [None]), ('delimiters/quotationEnd', None, [None]),
        ('characters/exemplarCharacters', 'type', [None, 'auxiliary', 'index']),
        ('layout/orientation/characterOrder', None, [None]), ('layout/orientation/lineOrder', None, [None]),
        ('numbers/defaultNumberingSystem', None, [None]), ('numbers/symbols[latn]/decimal', None, [None]), ('numbers/symbols[latn]/group', None, [None]), ('numbers/symbols[arab]/decimal', None, [None]),
        ('dates/calendars/calendar[gregorian]/months/monthContext[format]/monthWidth[wide]/month', 'type', ['1', '2', '12']),
        ('special/sil:external-resources/sil:kbd[k1]/sil:url', None, [None]), ('special/sil:external-resources/sil:kbd[k2]/sil:url', None, [None]), ('special/sil:external-resources/sil:spellcheck[hunspell]/sil:url', None, [None]),
        ('posix/messages/yesstr', None, [None]), ('units/unitLength[long]/unit[length-meter]/displayName', None, [None])]
ATTR = {'symbols': 'numberSystem', 'sil:kbd': 'id'}
ITEMS = [(p, a, v) for p, a, vs in MENU for v in vs]
TEXT = ['x', 'y z', '[a b]', 'Ä', '<&>', '"q"', '{0}', '\u0301a', 'v1', 'v2', 'ltr', '\u0f0b', "it's"]


def steps(item):
    """[(tag, {attr: value})]"""
    p, a, v = ITEMS[item]
    res = []
    for s in p.split('/'):
        t, _, k = s.partition('[')
        res.append((t, {ATTR.get(t, 'type'): k[:-1]} if k else {}))
    if a and v:
        res[-1] = (res[-1][0], {a: v})
    return res


def build(r, loc, items, source):
    """bytes of a file with these items, in a seeded order"""
    tree = [('ldml', {}), None, []]
    for k in sorted(items):
        n = tree
        for s in steps(k):
            c = next((c for c in n[2] if c[0] == s), None)
            if c is None:
                c = [s, None, []]
                n[2].append(c)
            n = c
        n[1] = items[k]

    def out(n, d):
        (t, at), x, kids = n
        kids = list(kids)
        if d:
            r.shuffle(kids)
        b = '<' + t + ''.join(' {}={}'.format(a, quoteattr(v)) for a, v in at.items())
        if x is None and not kids:
            return b + '/>'
        return b + '>' + (escape(x) if x is not None else '\n' + ''.join(out(c, d + 1) for c in kids)) + '</' + t + '>\n'
    tags = loc.split('_')
    ident = '<identity><version number="1"/><language type="{}"/>'.format(tags[0])
    for x in tags[1:]:
        if len(x) != 4:         # the scripts of a chain are C10's
            ident += '<territory type="{}"/>'.format(x)
    ident += '<special><sil:identity source="{}"/></special>'.format(source) if source else ''
    body = out(tree, 0).split('>', 1)[1] if items else '</ldml>'
    return ('<?xml version="1.0" encoding="utf-8"?>\n<ldml xmlns:sil="urn://www.sil.org/ldml/0.1">' + ident + '</identity>' + body).encode('utf-8')


def edit(data, item, value):
    """Set or remove one item the way an editor of its own would"""
    ET.register_namespace('sil', 'urn://www.sil.org/ldml/0.1')
    root = ET.fromstring(data)
    up = [root]
    for t, at in steps(item):
        t = t.replace('sil:', '{urn://www.sil.org/ldml/0.1}')
        e = next((c for c in up[-1] if c.tag == t and {k: v for k, v in c.attrib.items()} == at), None)
        if e is None:
            if value is None:
                return data
            e = ET.SubElement(up[-1], t, at)
        up.append(e)
    up[-1].text = value
    if value is None:
        up[-2].remove(up[-1])
    return b'<?xml version="1.0" encoding="utf-8"?>\n' + ET.tostring(root, encoding='utf-8')


def key(item):
    """the key leafmap() has for an item"""
    s = steps(item)
    b = '<ldml xmlns:sil="urn://www.sil.org/ldml/0.1">' + ''.join('<' + t + ''.join(' {}={}'.format(a, quoteattr(v)) for a, v in at.items()) + '>' for t, at in s) + 'x' + ''.join('</' + t + '>' for t, at in reversed(s)) + '</ldml>'
    return list(leafmap(model.parse(b.encode())))[0]


def gen(r, i, tier):
    loc = r.choice(LOCS)
    files = {}
    dens = r.choice([.1, .25, .5])
    for l in [loc] + chain(loc):
        if l == loc or r.random() < .75:
            files[l] = {str(k): r.choice(TEXT) for k in range(len(ITEMS)) if r.random() < dens}
    nu = r.choice([1, 1, 2, 3])
    owner = [r.randrange(nu + 1) for _ in ITEMS]        # nu: those who commit directly
    mine = {u: [k for k in range(len(ITEMS)) if owner[k] == u] for u in range(nu + 1)}
    acts = []
    state = ['up'] * nu
    for _ in range(r.randint(4, 14)):
        u = r.randrange(nu + 1)
        if u == nu:
            if mine[u]:
                acts.append(['commit', [[r.choice(mine[u]), r.choice(TEXT + [None, None])] for _ in range(r.randint(1, 3))]])
        elif state[u] == 'up':
            acts.append(['down', u])
            state[u] = 'has'
        elif r.random() < .6 and mine[u]:
            acts.append(['edit', u, [[r.choice(mine[u]), r.choice(TEXT + [None, None])] for _ in range(r.randint(1, 3))]])
        else:
            acts.append(['merge', u, fault(r)])
            state[u] = 'up'
    for u in range(nu):
        if state[u] == 'has':
            acts.append(['merge', u, fault(r)])
    return {'two': r.random() < .3, 'loc': loc, 'files': files, 'seed': r.randrange(1 << 30), 'acts': acts, 'alpha': r.random() < .5, 'samename': r.random() < .5, 'stdout': r.random() < .2,
            'source': 'cldr', 'uid': r.random() < .5}


def fault(r):
    k = r.random()
    if k < .6:
        return None
    if k < .7:
        return {'cmd': r.choice(['git show', 'git log', 'git show 2'])}
    if k < .85:
        return {'ops': r.choice(['openr', 'read']), 'nth': r.randint(1, 12), 'act': r.choice(['err', 'err', 'short']), 'arg': r.choice(['EIO', 'EACCES', 3])}
    if k < .93:
        return {'ops': r.choice(['openw', 'write', 'fsync', 'rename']), 'nth': 1, 'act': 'err', 'arg': r.choice(['ENOSPC', 'EIO'])}
    return {'ops': 'mut', 'nth': r.randint(1, 4), 'act': r.choice(['crash_before', 'crash_after'])}


def run(sim, case):
    loc = case['loc']
    files = case['files']
    if loc not in files:
        raise InvalidCase("no file")
    r = random.Random(case['seed'])
    sim.fresh()
    where = {l: 'sldr/{}{}.xml'.format(l[0] + '/' if case['alpha'] else '', l) for l in files}
    dirs = ['sldr']
    if case.get('two'):         # some of the others are elsewhere
        dirs.insert(r.randrange(2), 'alt')
        for l in sorted(where):
            if l != loc and r.random() < .5:
                where[l] = 'alt/' + where[l].split('/', 1)[1]
        os.makedirs(sim.path('alt'))
    inh = {}
    for l in [loc] + chain(loc):
        if l in files:
            sim.put(where[l], build(r, l, {int(k): v for k, v in files[l].items()}, case['source']))
            if l != loc:
                for k, v in files[l].items():
                    inh.setdefault(int(k), v)
    me = where[loc]
    flat = dict(inh)
    flat.update({int(k): v for k, v in files[loc].items()})
    hist = [('%040x' % r.getrandbits(160), sim.get(me))]
    has = {}
    changed = 0
    trace = []
    names = {key(k): k for k in range(len(ITEMS))}

    def commit(data):
        if data != hist[-1][1]:
            hist.append(('%040x' % r.getrandbits(160), data))

    def items(data):
        m = {}
        for k, v in leafmap(model.parse(data)).items():
            need(k in names, 'foreign', "{}: there is now {!r}", trace, k)
            m[names[k]] = v[0]
        return m
    for a in case['acts']:
        if a[0] == 'commit':
            data = sim.get(me)
            for k, v in a[1]:
                if k >= len(ITEMS):
                    raise InvalidCase("item")
                data = edit(data, k, v)
                if v is None:
                    if k in inh:
                        flat[k] = inh[k]
                    else:
                        flat.pop(k, None)
                else:
                    flat[k] = v
            sim.put(me, data)
            commit(data)
            trace.append(['commit', [(list(names)[k][-1], v) for k, v in a[1]]])
        elif a[0] == 'down':
            o = simtool.tool(sim, 'ldmlflatten', [x for d in dirs for x in ('-i', d)] + ['-o', 'flat', '-l', loc, '-g'], cwd=sim.root, clock=1700000000.5,
                             pool={'seed': case['seed'], 'prob': .2, 'ncpu': 2}, cmds={'git log -n 1 --pretty=format:%H%n%ci ' + me: hist[-1][0] + '\n2020-01-01 00:00:00 +0000'})
            need(o.kind in ('ok', 'exit') and not o.code, 'download', "{}: ldmlflatten: {} {}", trace, o.exc, o.tb)
            data = sim.get('flat/{}.xml'.format(loc))
            need(data is not None, 'download', "{}: no flat file; {!r}", trace, o.out + o.err)
            m = items(data)
            need(m == flat, 'download', "{}: the flat file has {!r}, not {!r}", trace, sub(m, flat), sub(flat, m))
            need(('revid="%s"' % hist[-1][0]).encode() in data, 'download', "{}: not marked with the revision", trace)
            if case['uid']:
                data = data.replace(b'revid=', b'uid="u42" revid=', 1)
            has[a[1]] = [data, {}]
            trace.append(['down', a[1]])
        elif a[0] == 'edit':
            if a[1] not in has:
                raise InvalidCase("nothing to edit")
            for k, v in a[2]:
                has[a[1]][0] = edit(has[a[1]][0], k, v)
                has[a[1]][1][k] = v
            trace.append(['edit', a[1], [(list(names)[k][-1], v) for k, v in a[2]]])
        else:
            if a[1] not in has:
                raise InvalidCase("nothing to merge")
            data, edits = has.pop(a[1])
            up = 'up{}/{}.xml'.format(a[1], loc if case['samename'] else 'mine')
            sim.put(up, data)
            cmds = {}
            for h, d in hist:
                cmds['git show {}:{}'.format(h, me)] = d.decode('utf-8')
                cmds['git log -n 1 --pretty=format:%H {}.. {}'.format(h, me)] = hist[-1][0] if h != hist[-1][0] else ''
            out = 'new.xml' if case['stdout'] else me
            old = sim.get(me)
            before = sim.snapshot()
            argv = [up, loc + '.xml', '--git'] + [x for d in dirs for x in ('-d', d)] + ([] if case['stdout'] else ['-o', me])
            f = a[2]
            trace.append(['merge', a[1], f and sorted(f.items())])

            def go(cmds, **plan):
                return simtool.tool(sim, 'ldmlmerge', argv, cwd=sim.root, clock=1700000000.5, cmds=cmds, **plan)

            def judge(o, got):
                want = dict(flat)
                for k, v in edits.items():
                    if v is None:
                        if k in inh:
                            want[k] = inh[k]
                        else:
                            want.pop(k, None)
                    else:
                        want[k] = v
                m = items(got)
                eff = dict(inh)
                eff.update(m)
                need(eff == want, 'lost', "{}: {!r} instead of {!r}", trace, sub(eff, want), sub(want, eff))
                extra = {k: v for k, v in m.items() if inh.get(k) == v}
                need(not extra, 'inherited', "{}: holds what it inherits: {!r}", trace, show(extra))
                t = model.parse(got)
                ident = [x.at for c in t.kids if c.tag == 'identity' for s in c.kids if s.tag == 'special' for x in s.kids]
                need(ident == [{'source': case['source']}], 'identity', "{}: sil:identity is {!r}", trace, ident)
                return want
            new = None
            if f:
                plan = {}
                c2 = dict(cmds)
                if 'cmd' in f:
                    for k in list(c2):
                        if k.startswith(f['cmd'].split(' 2')[0]) and (not f['cmd'].endswith('2') or hist[-1][0] in k):
                            c2[k] = 128
                else:
                    plan = {'rules': [{k: v for k, v in f.items()}]}
                o = go(c2, **plan)
                need(o.kind != 'hang', 'hang', "{}", trace)
                now = sim.snapshot()
                ok = o.kind in ('ok', 'exit') and not o.code
                need({k: v for k, v in now.items() if k != me and not os.path.basename(k).startswith('.')} == {k: v for k, v in before.items() if k != me and not os.path.basename(k).startswith('.')}, 'others', "{}: other files are touched", trace)
                got = now.get(me)
                sim.state(tuple(x[0] for x in trace), repr(f), ok, got == old)
                if case['stdout']:
                    if ok:
                        judge(o, o.out.encode('utf-8'))
                elif ok or got != old:
                    need(got is not None, 'gone', "{}: the file is gone", trace)
                    try:
                        judge(o, got)
                    except model.BadXml as e:
                        raise Violation('damaged', "{}: {}".format(trace, e))
                sim.fresh()
                for k, v in before.items():
                    sim.put(k, v)
            o = go(cmds)
            need(o.kind in ('ok', 'exit') and not o.code, 'merge-fails', "{}: {} {}", trace, o.exc, (o.tb or '')[-1200:] or o.err)
            got = o.out.encode('utf-8') if case['stdout'] else sim.get(me)
            try:
                flat = judge(o, got)
            except model.BadXml as e:
                raise Violation('damaged', "{}: {}".format(trace, e))
            changed += bool(edits)
            sim.put(me, got)
            commit(got)
            sim.state(tuple(x[0] for x in trace), len(edits), len(flat))
    return {'nontrivial': changed > 0}


def show(m):
    return {'/'.join(t + ''.join('[{}]'.format(v) for v in at.values()) for t, at in steps(k)): v for k, v in m.items()}


def sub(a, b):
    return show({k: v for k, v in a.items() if b.get(k) != v})
