"""A coverage run judges currencies by one date, and judges them right"""
import calendar, datetime, random
import gen as G
from props.util import *
from props import toolkit as tk

ID = 'C16'
N = {'quick': 1400, 'thorough': 30000}
RULE = ("A case is a tree of locale files with currency names, tables of coverage levels and of currency validity periods (open ends, adjoining, nested and never valid periods), and a clock: a start near a boundary of a period or "
        "anywhere from 1971, a step per reading (so that a run crosses midnights), and jumps forwards and backwards at chosen readings. The report of sldrcoverage must be the one a model computes for some single day the clock "
        "showed during the run: the first listed currency valid on that day; with other coverage rules it must be the report of the same run with that currency alone, undated, in the table. "
        "Non-trivial: the reports of different days differ, or a locale's currency was judged.")
REAL = ['sldrcoverage with the real pool workers, sldr.ldml']
STUB = 'clock, pool scheduling'
STATES = 'distinct (position of the day against every period, clock course) situations'
ASSUME = ['the day of the run is the day in UTC: hosts run with TZ=UTC']
DAY = 86400
LEVELS = tk.LEVELS


def ts(d):
    y, m, dd = map(int, d.split('-'))
    return calendar.timegm((y, m, dd, 0, 0, 0))


def day(t):
    return datetime.date.fromordinal(719163 + int(t // DAY)).isoformat()


def gen(r, i, tier):
    sc = tk.coverage(r, r.randint(1, 5))
    rows = sc['rows']
    # periods that adjoin, nest or come round
    for row in rows:
        if r.random() < .5 and len(row['c']) > 1:
            a = row['c'][0]
            b = row['c'][1]
            if a['to']:
                b['from'] = a['to'] if r.random() < .5 else day(ts(a['to']) + DAY)
                if b['to'] and b['to'] < b['from']:
                    b['to'] = None
        if r.random() < .2:
            r.shuffle(row['c'])
    direct = r.random() < .6
    for f in sc['files']:
        if f.get('doc'):
            d = f['doc']
            iso = sorted({c['iso'] for x in rows for c in x['c']})
            mine = [c for c in iso if r.random() < .6]
            cur = G.N('currencies', c=[G.N('currency', {'type': c}, c=[G.N('displayName', None, 'n' + c)]) for c in mine])
            if direct:
                d['c'] = [c for c in d['c'] if c['t'] == 'identity'] + [G.N('characters', c=[G.N('exemplarCharacters', None, '[a b]')])] + ([G.N('numbers', c=[cur])] if mine else [])
                d['c'][0]['c'] = [c for c in d['c'][0]['c'] if c['t'] != 'special']
            else:
                for c in d['c']:
                    if c['t'] == 'numbers':
                        c['c'] = [x for x in c['c'] if x['t'] != 'currencies'] + ([cur] if mine else [])
    edges = [x for row in rows for c in row['c'] for x in (c['from'], c['to']) if x and x > '1971']
    e = r.choice(edges) if edges and r.random() < .8 else r.choice(['1971-05-05', '2000-02-29', '2024-12-31', '2090-07-07'])
    start = ts(e) + r.choice([-1, 0, 1, DAY - 1, DAY, -DAY, 3600, DAY // 2, -40000]) + r.choice([0, .5, -.001])
    step = r.choice([.000001, 1, 1, 3600, 40000, DAY, 12 * DAY, 200 * DAY])
    if r.random() < .3:
        step = .000001
    clk = [[r.randrange(0, 6), r.choice([-1, 1]) * r.choice([1, DAY, 2 * DAY, 40 * DAY, 3000 * DAY])] for _ in range(r.choice([0, 0, 1, 2]))]
    return {'sc': sc, 'direct': direct, 'start': start, 'step': step, 'clk': clk}


def inforce(row, d):
    for c in row['c']:
        if (c['from'] is None or c['from'] <= d) and (c['to'] is None or d <= c['to']):
            return c['iso']


def run(sim, case):
    from langtag import lookup
    sc = case['sc']
    rows = sc['rows']
    if case['start'] < 0 or case['start'] + sum(min(0, x[1]) for x in case['clk']) < 0:
        raise InvalidCase("clock")
    if direct_bad(case):
        raise InvalidCase("not a direct tree")
    supp = next(f for f in sc['files'] if f.get('p') == 'sup/supplementalData.xml')
    supp['raw'] = tk.supplemental(rows, random.Random(1))
    if case['direct']:
        lv = next(f for f in sc['files'] if f.get('p') == 'sup/coverageLevels.xml')
        lv['raw'] = '<supplementalData><coverageLevels>' + ''.join(
            '<coverageLevel value="%s" match="%s"/>' % (l, m) for l in LEVELS for m in ('characters/exemplarCharacters', "numbers/currencies/currency[@type='${Target-Currencies}']/displayName")) + '</coverageLevels></supplementalData>'

    def go(raw=None, **plan):
        tk.setup(sim, sc)
        if raw is not None:
            sim.put('sup/supplementalData.xml', raw)
        o = tk.run(sim, sc, **plan)
        reads = sim.H.clock_reads
        if o.kind == 'hang':
            raise Violation('hang', 'sldrcoverage')
        rep = sim.get('out/report.csv') if '-o' in sc['argv'] else o.out.encode()
        if o.kind not in ('ok', 'exit') or o.code:
            return None, reads, o
        return (rep or b'').decode().splitlines(), reads, o
    got, reads, o = go(clock=case['start'], step=int(case['step'] * 1e9), clk=[tuple(x) for x in case['clk']])
    # the days the clock showed
    t, days = case['start'], []
    for n in range(reads):
        t += case['step']
        t += sum(x[1] for x in case['clk'] if x[0] == n)
        if case['clk'] and any(x[0] == n for x in case['clk']):
            sim.count('fault:clock-jump')
        d = day(t)
        if days and d != days[-1]:
            sim.count('fault:midnight-passed')
        if d not in days:
            days.append(d)
    if not days:
        raise Violation('no-clock', "the run read no clock")
    wants = {}
    for d in days:
        sel = {row['r']: inforce(row, d) for row in rows}
        if case['direct']:
            wants[d] = model(sc, sel, lookup)
        else:
            only = [{'r': k, 'c': [{'iso': v, 'from': None, 'to': None}]} for k, v in sorted(sel.items()) if v]
            w, _, o2 = go(tk.supplemental(only, random.Random(1)), clock=ts('2020-06-06'), step=1000)
            wants[d] = w
            if w is None:
                raise Violation('undisturbed', "sldrcoverage fails with nothing wrong: {} {}".format(o2.kind, (o2.err or '')[-400:]))
        sim.state([(c['from'] is None or c['from'] <= d, c['to'] is None or d <= c['to'], c['from'] == d, c['to'] == d) for row in rows for c in row['c']], case['step'], case['clk'])
    if got is None:
        raise Violation('failed', "sldrcoverage: {} {}".format(o.kind, (o.err or '')[-500:]))
    if got not in wants.values():
        d = days[0]
        raise Violation('currency', "clock from {} step {} s jumps {} (days {}): the report {} is that of no such day; for {} it should be {}".format(
            day(case['start']), case['step'], case['clk'], days[:6], got, d, wants[d]))
    return {'nontrivial': len({repr(w) for w in wants.values()}) > 1 or case['direct']}


def direct_bad(case):
    if not case['direct']:
        return False
    for f in case['sc']['files']:
        if f.get('doc') and not any(c['t'] == 'characters' and [x.get('x') for x in c.get('c', ())] == ['[a b]'] and not c['c'][0].get('a') for c in f['doc']['c']):
            return True


def model(sc, sel, lookup):
    res = []

    def count(d, reg):
        n = 1
        for c in d['c']:
            if c['t'] == 'numbers':
                for q in c['c']:
                    n += sum(1 for x in q.get('c', ()) if sel.get(reg) and x['a']['type'] == sel[reg])
        return n
    docs = {f['p'].split('/')[-1][:-4]: f['doc'] for f in sc['files'] if f.get('doc')}
    base = count(docs['en'], lookup('en').region)
    for loc, d in docs.items():
        lt = lookup(loc.replace('_', '-'), default='')
        if lt == '':
            continue
        x = 100. * count(d, lt.region) / base
        res.append((-6 * x, loc, '{},{}'.format(loc, ',') + ','.join(['{:.2f}'.format(x)] * 6)))
    return ['langtag,source,' + ','.join(LEVELS)] + [x[2] for x in sorted(res, key=lambda x: (round(x[0], 6), x[1]))]
