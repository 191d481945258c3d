"""A tool run that reports success has carried all of its input over"""
import copy, os, random, re
from collections import Counter
import gen as G
import model
from props.util import *
from props import toolkit as tk
from props.c10 import leafmap, collations, show
from props.c07 import named, brief

ID = 'C18'
N = {'quick': 600, 'thorough': 12000}
RULE = ("A case is a tree of inputs and a command line of cldrimport, fixsldr, ldmlflatten, ldmlnormalize or sheetldml. The undisturbed run's files are judged item by item against what the bytes of the inputs say; then the run is repeated with reads that are short, "
        "interrupted or fail, directories that cannot be listed, helper commands that fail, in parallel under a seeded schedule or not, and each output must be that same file or, if the tool says so, what was there before. Non-trivial: some fault fired.")
REAL = ['cldrimport, fixsldr, ldmlflatten, ldmlnormalize, sheetldml and all of the library they use', 'worker processes are real forks']
STUB = 'system call results, pool scheduling, directory order, hg and git answers decided by the simulator'
STATES = 'distinct (tool, kind of fault, outcome, outputs missing)'
ASSUME = ['for ldmlflatten the content asked for is what the library gives for that locale (C10 judges the library)', 'importing from several files compares the primary values of items; alternates and comments only where a section comes from one file',
          'sheets are tab separated', 'a locale is named as for C07']
TOOLS = ['cldrimport', 'fixsldr', 'ldmlnormalize', 'ldmlflatten', 'sheetldml', 'cldrimport', 'fixsldr']
SUBS = ['main', 'collation', 'casing', 'segments']
REGIONS = {'Mali': 'ML', 'Niger': 'NE', 'Viet Nam': 'VN', 'Ethiopia': 'ET', 'Atlantis': None}
SILID = model._cn(G.SIL + '}identity')


def gen(r, i, tier):
    tool = TOOLS[i % len(TOOLS)]
    n = r.randint(1, 5)
    sc = {'cldrimport': cldr, 'fixsldr': fix, 'ldmlnormalize': norm, 'ldmlflatten': flat, 'sheetldml': tk.sheet}[tool](r, n)
    faults = []
    for _ in range(4 if tier == 'quick' else 12):
        k = r.choice(['read', 'read', 'open', 'short', 'eintr', 'list', 'cmd'])
        if k == 'cmd' and not sc.get('cmds'):
            k = 'read'
        faults.append({'k': k, 'nth': r.choice([1, 1, 2, 3, 5]), 'count': r.choice([0, 1]), 'arg': r.choice(['EIO', 'EACCES', 'EMFILE', 'ENOMEM']), 'n': r.choice([1, 3, 7, 100, 1000]),
                       'f': r.random(), 'single': r.random() < .3, 'pool': tk.poolcfg(r), 'listseed': r.randrange(1 << 30), 'code': r.choice([1, 128, 255])})
    return {'sc': sc, 'faults': faults}


def ins(sc):
    return sorted(f['p'] for f in sc['files'] if 'doc' in f and f['p'].split('/')[0] in ('in', 'in2', 'common'))


# ---- scenarios

def cldr(r, n):
    sc = tk.cldr(r, n, single=False)
    for f in sc['files']:
        if f.get('doc') and f['p'].startswith('common'):
            if r.random() < .5:
                d = f['doc']
                keep = {'main': None, 'collation': ['collations'], 'casing': ['delimiters', 'layout'], 'segments': ['numbers']}[f['p'].split('/')[1]]
                d['c'] = [c for c in d['c'] if keep is None and c['t'] != 'collations' or c['t'] in (keep or []) + ['identity']]
            for x in G.walk(f['doc']):
                if 'x' in x and 'alt' not in x.get('a', {}) and r.random() < .1:
                    x.setdefault('a', {})['references'] = 'R%d' % r.randrange(3)
    if '--hg' in sc['argv']:
        sc['cmds'] = {'hg log': '%args\n2020-01-01 10:00 +0000'}
    return sc


def fix(r, n):
    sc = tk.fix(r, n, single=False)
    if r.random() < .4 and not any(f.get('p') == 'in/en.xml' for f in sc['files']):
        sc['files'].append(tk.locfile(r, 'in', 'en'))
    if r.random() < .4:     # names by another list
        iso = {l: 'The ' + l + r.choice([' language', ' & others', ' lang\u00fce']) for l in r.sample(sorted(tk.BASE), r.randint(1, 6))}
        sc['argv'] += ['--iso', '$R/iso.xml']
        sc['files'].append({'p': 'iso.xml', 'raw': '<?xml version="1.0" encoding="UTF-8"?>\n<iso_639_3_entries>' + ''.join('<iso_639_3_entry id="{}" reference_name="{}"/>'.format(k, v.replace('&', '&amp;')) for k, v in sorted(iso.items())) + '</iso_639_3_entries>'})
        sc['iso'] = iso
    for f in sc['files']:
        if not f.get('doc') or not f['p'].startswith('in'):
            continue
        d = f['doc']
        idn = d['c'][0]
        if r.random() < .3:     # the old names of things
            l = next(c for c in idn['c'] if c['t'] == 'language')
            if r.random() < .5:
                l['a'] = {'code': l['a']['type']}
            if r.random() < .5:
                l['a']['name'] = 'Some language'
            if r.random() < .5:
                l['m'] = [' name.en(xx)="old" ']
        top = {c['t'] for c in d['c']}
        if 'orientation' in top:
            for c in d['c']:
                if c['t'] == 'layout':
                    c['c'] = [x for x in c['c'] if x['t'] != 'orientation'] or [G.N('inList', None, 'x')]
        else:
            if r.random() < .3 and 'layout' not in top:
                d['c'].append(G.N('orientation', c=[G.N('characterOrder', None, r.choice(['left-to-right', 'right-to-left']))] + ([G.N('lineOrder', None, r.choice(['top-to-bottom', 'left-to-right']))] if r.random() < .5 else [])))
        if 'status' not in top and r.random() < .3:
            d['c'].append(G.N('status', {'value': r.choice(['HOLD', 'Draft', 'Final'])}))
        if 'regionInfo' not in top and r.random() < .3:
            d['c'].append(G.N('regionInfo', c=[G.N('region', {'type': r.choice(sorted(REGIONS))})]))
        if r.random() < .3:
            r.shuffle(d['c'])
    return sc


def norm(r, n):
    sc = tk.normalize(r, n)
    if len(sc['argv']) == 1 and sc['argv'][0] == '$R/in' and r.random() < .6:
        sc['argv'].append('$R/out')
        sc['out'] = ['out']
        sc['files'] += [{'dir': d} for d in sorted({os.path.dirname('out' + f['p'][2:]) for f in sc['files'] if f.get('doc')})]
        for f in list(sc['files']):
            if f.get('doc') and r.random() < .3:
                sc['files'].append({'p': 'out' + f['p'][2:], 'doc': tk.smalldoc(r, 'aa')})
        sc['files'].append({'p': 'in/readme.txt', 'raw': 'not a locale'})
    return sc


def flat(r, n):
    sc = tk.flatten(r, n, single=False)
    if r.random() < .3 and '--revid' not in sc['argv']:
        sc['argv'].append('-g')
        sc['cmds'] = {'git log': '%args\n2020-01-01 10:00:00 +0000'}
    return sc


# ---- what the output must be: {path: function of its bytes that raises}

def want_cldr(sim, sc):
    from langtag import lookup
    by = {}
    for p in ins(sc):
        by.setdefault(os.path.basename(p)[:-4], []).append(p)
    res = {}
    a = sc['argv']

    def judge(loc, ps, got, what):
        t = model.parse(got)
        src = [model.parse(sim.get(p), uparrows=False) for p in ps]
        for s in src:
            unref(s)
        m, secs = {}, {}
        blocked = False
        for s in src:
            cs = {} if blocked else collations(s)
            blocked = blocked or any(c.tag == 'collations' for c in s.kids)
            for k, v in list(leafmap(s).items()) + list(cs.items()):
                m.setdefault(k, v)
            for c in s.kids:
                secs.setdefault(c.tag, []).append(c)
        g = leafmap(t)
        g.update(collations(t))
        for k in m:
            if k not in g:
                raise Violation('lost', "{}: {} should be {!r} and is missing".format(what, show(k), m[k][0]))
            if g[k] != m[k] and ('', None) not in (g[k], m[k]):
                raise Violation('changed', "{}: {} should be {!r}, is {!r}".format(what, show(k), m[k], g[k]))
        for k in g:
            need(k in m, 'extra', "{}: {} ({!r}) comes from none of {}", what, show(k), g[k][0], ps)
        for tag, es in secs.items():
            if len(es) == 1 and tag != 'identity':
                x = [c for c in t.kids if c.tag == tag]
                need(len(x) == 1, 'lost', "{}: {} of {} occur in the output", what, len(x), tag)
                d = model.diff(shed(es[0]), shed(x[0]))
                need(d is None, 'changed', "{}: {}", what, d)
        idn = next((c for c in t.kids if c.tag == 'identity'), None)
        need(idn is not None, 'lost', "{}: no identity", what)
        si = [x for c in idn.kids if c.tag == 'special' for x in c.kids if x.tag == SILID]
        need(len(si) == 1, 'marks', "{}: {} sil:identity elements", what, len(si))
        try:
            lt = lookup(loc.replace('_', '-'))
        except KeyError:
            lt = None
        w = {'source': 'cldrseed' if '--seed' in a else 'cldr'}
        if '--seed' in a:
            w['draft'] = 'unconfirmed'
        if lt is not None:
            w.update(script=lt.script, defaultRegion=lt.region)
        need(si[0].at == w, 'marks', "{}: sil:identity says {} instead of {}", what, si[0].at, w)
        oi = next(c for c in src[0].kids if c.tag == 'identity')
        wi = {(c.tag, tuple(sorted(c.at.items()))) for c in oi.kids if c.tag not in ('special', 'version', 'generation')}
        gi = {(c.tag, tuple(sorted(c.at.items()))) for c in idn.kids if c.tag not in ('special', 'version', 'generation')}
        need(wi == gi, 'identity', "{}: identity is {} instead of {}", what, sorted(gi), sorted(wi))
        v = [c.at for c in idn.kids if c.tag == 'version']
        if '--hg' in a:
            need(v == [{'number': '$Revision: {} $'.format(';'.join(['.'] + ps))}], 'marks', "{}: version is {}, files are {}", what, v, ps)
            d = [c.at for c in idn.kids if c.tag == 'generation']
            need(d == [{'date': '$Date: 2020-01-01 10:00 +0000 $'}], 'marks', "{}: generation is {}", what, d)
        else:
            need(v == [c.at for c in oi.kids if c.tag == 'version'], 'identity', "{}: version is {}", what, v)
        root = re.search(rb'^<ldml[^>]*>', got, re.M).group()
        need((b'xmlns:sil' in root) == ('-t' in a), 'topns', "{}: the root element is {}", what, root)
    for loc, ps in by.items():
        ps = sorted(ps, key=lambda p: SUBS.index(p.split('/')[1]))
        res['out/%s/%s.xml' % (loc[0], loc)] = (loc, lambda got, what, loc=loc, ps=ps: judge(loc, ps, got, what))
    gone = set()
    if '-r' in a:
        gone = {f['p'] for f in sc['files'] if f.get('doc') and f['p'].startswith('out/') and os.path.basename(f['p'])[:-4] not in by}
    return res, gone


def unref(e):
    e.at.pop('references', None)
    for c in e.kids:
        unref(c)


def shed(e):
    e = copy.deepcopy(e)

    def w(x):
        x.at.pop('draft', None)
        for c in x.kids:
            w(c)
    w(e)
    return e


def want_fix(sim, sc):
    names = {}
    for d in [a for i, a in enumerate(sc['argv']) if i and sc['argv'][i - 1] == '-i']:
        en = sim.get(d.replace('$R/', '') + '/en.xml')
        if en is not None:
            t = model.parse(en, uparrows=False)
            for e in [x for s in t.kids if s.tag == 'localeDisplayNames' for l in s.kids if l.tag == 'languages' for x in l.kids]:
                if 'alt' not in e.at:
                    names[e.at.get('type')] = e.text
                else:
                    names.setdefault(e.at.get('type'), None)
    for k, v in sc.get('iso', {}).items():
        names.setdefault(k, v)
    res = {}

    def judge(p, got, what):
        w = model.parse(sim.get(p), uparrows=False)

        def top(tag):
            return next((c for c in w.kids if c.tag == tag), None)

        def mark(k, v):
            idn = top('identity')
            for s in idn.kids:
                for x in s.kids if s.tag == 'special' else ():
                    if x.tag == SILID:
                        x.at[k] = v
                        return
            e = model.E(SILID, {k: v})
            s = next((c for c in idn.kids if c.tag == 'special'), None)
            if s is None:
                s = model.E('special', {})
                idn.kids.append(s)
            s.kids.append(e)
        dd = model.default_draft(w)
        o = top('orientation')
        if o is not None:
            w.kids.remove(o)
            o.kids = [c for c in o.kids if (c.tag, c.text) not in (('characterOrder', 'left-to-right'), ('lineOrder', 'top-to-bottom'))]
            if o.kids:
                if top('layout') is None:
                    w.kids.append(model.E('layout', {}))
                top('layout').kids.append(o)
        s = top('status')
        if s is not None:
            w.kids.remove(s)
            if s.at.get('value') == 'HOLD':
                mark('usage', 'unused')
        g = top('regionInfo')
        if g is not None:
            w.kids.remove(g)
            x = REGIONS.get(g.kids[0].at['type']) if g.kids else None
            if x:
                mark('defaultRegion', x)
        lang = None
        for c in top('identity').kids:
            if c.tag in ('language', 'script'):
                c.at.pop('name', None)
                if 'code' in c.at:
                    c.at['type'] = c.at.pop('code')
                lang = lang or c.tag == 'language' and c
        t = model.parse(got)
        ch = next((c for c in t.kids if c.tag == 'characters'), None)
        for a, b in ((top('characters'), ch),):     # drafts of exemplars
            for e in a.kids if a is not None and s is not None and s.at.get('value') in ('HOLD', 'Draft') else ():
                if e.tag == 'exemplarCharacters' and 'draft' not in e.at and 'alt' not in e.at:
                    e.at['draft'] = 'unconfirmed'
        model.shed_drafts(w)
        for x in (w, t):
            model.shed_drafts(x)
        d = model.diff(w, t)
        need(d is None, 'content', "{}: {}", what, d)
        l = next(c for c in next(c for c in t.kids if c.tag == 'identity').kids if c.tag == 'language')
        n = names.get(l.at['type'], 'Unknown')
        need(n is None or ' name.en({})="{}" '.format(l.at['type'], n).replace('--', '- -') in [x.replace('--', '- -') for x in l.before], 'comment', "{}: language is commented {!r}", what, l.before)
        cw, cg, co = [], [], []
        for x, y in ((w, cw), (t, cg), (model.parse(sim.get(p), uparrows=False), co)):
            said(x, y, () if y is co else DROP)
        cw, cg, co = Counter(cw), Counter(cg), Counter(co)
        need(not cw - cg, 'comments', "{}: comments {!r} are missing", what, sorted(cw - cg))
        need(not cg - co, 'comments', "{}: comments {!r} should not be there", what, sorted(cg - co))
    for p in ins(sc):
        res['out/' + os.path.basename(p)] = (os.path.basename(p)[:-4], lambda got, what, p=p: judge(p, got, what))
    return res, set()


DROP = ('language', 'script', 'exemplarCharacters')


def said(e, out, drop):
    """comments, but for those of elements the tool takes them from"""
    if e.tag not in drop:
        out += [re.sub(r'-(?=-|$)', '- ', c) for c in e.before + e.after]
    for c in e.kids:
        said(c, out, drop)


def want_norm(sim, sc):
    res = {}
    a = [x.replace('$R/', '') for x in sc['argv']]
    for f in sc['files']:
        if f.get('doc') and (f['p'] == a[0] or f['p'].startswith(a[0] + '/')):
            to = f['p'] if len(a) == 1 else a[1] + f['p'][len(a[0]):]
            res[to] = (os.path.basename(f['p']).split('.')[0], lambda got, what, p=f['p']: check_same('content', what, expect(sim.get(p)), got))
    return res, set()


def want_flat(sim, sc):
    from sldr.ldml_merge import flattenlocale
    a = sc['argv']
    dirs = [x.replace('$R', sim.root) for i, x in enumerate(a) if i and a[i - 1] == '-i']
    ls = [x for i, x in enumerate(a) if i and a[i - 1] == '-l'] or sorted({os.path.basename(p)[:-4] for p in ins(sc)})
    res = {}
    for l in ls:
        x = flattenlocale(l, dirs=dirs, rev='r' if '-r' in a else 'c' if '-c' in a else 'f', skipstubs='--skipstubs' in a, resolveAlias='-A' in a)
        if x is None:
            continue
        if '--revid' in a:
            x.add_silidentity(revid='abc123')
        elif '-g' in a:
            own = [p for d in dirs for p in (os.path.join(d, l + '.xml'), os.path.join(d, l[0].lower(), l + '.xml')) if os.path.exists(p)]
            x.add_silidentity(revid=os.path.relpath(own[0], sim.root))
        x.normalise()
        x.save_as(sim.path('tmp.xml'), topns='-t' in a)
        w = sim.get('tmp.xml')
        os.remove(sim.path('tmp.xml'))

        def judge(got, what, w=w):
            need(got == w, 'content', "{}: is {} instead of {}", what, brief(got, w), brief(w, got))
        res['out/' + (l[0].lower() + '/' if '-a' in a else '') + l + '.xml'] = (l, judge)
    return res, set()


def want_sheet(sim, sc):
    import csv
    cells = {}
    rows = [x[1:] for x in csv.reader(sim.get('in.tsv').decode('utf-8').splitlines(True), dialect='excel-tab')] + [['']]
    i = 0
    cell = lambda row, k: row[k] if k < len(row) else ''

    def add(path, v):
        if v:
            steps = []
            for s in re.findall(r"([^/\[]+)((?:\[[^\]]*\])*)", path):
                steps.append((s[0], tuple(sorted(re.findall(r"@([^=]+)='([^']*)'", s[1].replace('"', "'"))))))
            cells[tuple(steps)] = model.clean(v)
    while i < len(rows):
        row = rows[i]
        i += 1
        h = cell(row, 0)
        m = re.match(r'(table1d|table2d|table2dr|table2dx)\((.*)\)$', h)
        if not h:
            continue
        if not m:
            if re.search(r'\[@\w+\]$', h):
                if cell(row, 2):
                    add(h[:-1] + "='" + row[2] + "']", ' ')
            else:
                add(h, cell(row, 2))
            continue
        heads = []
        for x in row[2:]:
            if not x:
                break
            heads.append(x)
        while i < len(rows):
            d = rows[i]
            if m.group(1) == 'table2dx':
                if len(d) < 2 or d[0]:
                    break
                if d[1]:
                    for k, pt in enumerate(m.group(2).split(',')):
                        add(pt.replace('$row', d[1]), cell(d, 2 + k))
            else:
                if not d or not d[0]:
                    break
                if m.group(1) == 'table1d':
                    add(m.group(2).replace('$row', d[0]), cell(d, 2))
                else:
                    for k, c in enumerate(heads):
                        add(m.group(2).replace('$row', d[0]).replace('$col', c), cell(d, 2 + k))
            i += 1

    def judge(got, what):
        have = {}

        def w(e, path):
            for c in e.kids:
                k = path + ((c.tag, tuple(sorted(c.at.items()))),)
                if c.kids:
                    w(c, k)
                else:
                    need(k not in have, 'twice', "{}: {} is there twice", what, show(k))
                    have[k] = c.text
        w(model.parse(got), ())
        for k, v in cells.items():
            need(k in have, 'lost', "{}: the sheet's {} ({!r}) is missing", what, show(k), v)
            need(have[k] == v, 'changed', "{}: {} should be {!r}, is {!r}", what, show(k), v, have[k])
        for k in have:
            need(k in cells, 'extra', "{}: {} ({!r}) is not in the sheet", what, show(k), have[k])
    return {'out/aa.xml': ('aa', judge)}, set()


WANT = {'cldrimport': want_cldr, 'fixsldr': want_fix, 'ldmlnormalize': want_norm, 'ldmlflatten': want_flat, 'sheetldml': want_sheet}


def run(sim, case):
    sc = case['sc']
    tool = sc['tool']
    tk.setup(sim, sc)
    want, gone = WANT[tool](sim, sc)
    before = sim.snapshot()
    inputs = {p: before.get(p) for p in [f['p'] for f in sc['files'] if 'p' in f] if p not in want}
    o = tk.run(sim, sc)
    if o.kind not in ('ok', 'exit') or o.code:
        raise Violation('undisturbed', "{} fails with nothing wrong: {} {} {}".format(tool, o.kind, o.exc, (o.tb or o.err)[-500:]))
    after = sim.snapshot()
    if tool in ('cldrimport', 'fixsldr', 'ldmlnormalize'):
        need(not re.search(r'^Error in|^Failed in', o.out, re.M), 'undisturbed', "{} complains with nothing wrong: {!r}", tool, o.out[-300:])
    # judged against the inputs, which an in-place run has overwritten
    tk.setup(sim, sc)
    for p, (l, f) in sorted(want.items()):
        need(p in after, 'missing', "{}: no {}", tool, p)
        try:
            f(after[p], "{}: {}".format(' '.join([tool] + sc['argv']), p))
        except model.BadXml as e:
            raise Violation('malformed', "{}: {}: {}".format(tool, p, e))
    for p in sorted(set(before) | set(after)):
        if p in gone:
            need(p not in after, 'stale', "{}: {} is still there", tool, p)
        elif p not in want:
            need(after.get(p) == before.get(p), 'touched', "{}: {} is none of its outputs, and is {}", tool, p, brief(after.get(p), before.get(p)))
    sim.state(tool, 'undisturbed', sorted(a for a in sc['argv'] if a[0] == '-'))
    locs = sorted({l for l, _ in want.values()} | {os.path.basename(p).split('.')[0] for p in ins(sc)}, key=len)
    srcs = ins(sc) or [f['p'] for f in sc['files'] if 'raw' in f]
    fired = False
    for q in case['faults']:
        cmds, rules = sc.get('cmds'), []
        p = srcs[int(q['f'] * len(srcs))]
        if q['k'] == 'read' or q['k'] == 'open':
            rules = [{'ops': 'openr' if q['k'] == 'open' else 'read', 'nth': q['nth'] if q['k'] == 'read' else 1, 'count': q['count'], 'act': 'err', 'arg': q['arg'], 'sub': '$/' + p}]
        elif q['k'] == 'short':
            rules = [{'ops': 'read', 'act': 'limit', 'arg': q['n'], 'count': 0}]
        elif q['k'] == 'eintr':
            rules = [{'ops': 'read', 'act': 'err', 'arg': 'EINTR', 'nth': q['nth'], 'count': 2}]
        elif q['k'] == 'list':
            rules = [{'ops': 'list', 'act': 'err', 'arg': q['arg'], 'nth': q['nth'], 'count': q['count']}]
        else:
            if cmds is None:
                raise InvalidCase("no command")
            cmds = {k: q['code'] for k in cmds}
        tk.setup(sim, sc)
        single = q['single'] and tool in ('cldrimport', 'fixsldr', 'ldmlflatten')
        o = tk.run(sim, sc, rules=rules, cmds=cmds, pool=q['pool'] if sc.get('pool') else None, listseed=q['listseed'], argv=tk.argv(sim, sc) + (['-s'] if single else []))
        what = "{} with {}".format(' '.join([tool] + sc['argv'] + (['-s'] if single else [])), rules[0] if rules else 'a command that fails')
        hit = any(o.fired) or q['k'] == 'cmd'
        fired = fired or hit
        need(o.kind != 'hang', 'hang', "{}: does not end", what)
        now = sim.snapshot()
        text = o.out + '\n' + o.err
        bad = o.kind == 'exc' or o.code
        nm = named('fixsldr' if tool == 'ldmlnormalize' else tool, text, locs)     # (which prints paths)
        if q['k'] in ('short', 'eintr'):
            need(not bad, 'fails', "{}: fails: {}", what, (o.tb or o.err or o.out)[-400:])
        miss = []
        for p in sorted(set(before) | set(now) | set(after)):
            if tk.istemp(p) or now.get(p) == after.get(p):
                continue
            need(now.get(p) == before.get(p), 'partial', "{}: {} is {} instead of {} or what was there before", what, p, brief(now.get(p), after.get(p)), brief(after.get(p), now.get(p)))
            need(q['k'] not in ('short', 'eintr'), 'lost', "{}: {} was not written", what, p)
            l = want[p][0] if p in want else None
            miss.append(l)
            need(bad or l in nm, 'unreported', "{}: {} is {} and the tool says nothing of it; output was {!r}", what, p, 'still there' if p in gone else 'not written', text[-300:])
        sim.state(tool, q['k'], o.kind, o.code, len(miss))
        sim.count('outputs_withheld', len(miss))
    return {'nontrivial': fired, 'out': sorted((k, brief(v, b'')) for k, v in after.items() if k in want)}
