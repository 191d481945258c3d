"""Generated locale documents.  A node is {"t": tag, "a": {attributes}, "x": text, "c": [children],
"m": [comments before], "e": [comments at the end, after the last child]}: plain JSON, so that cases can be
stored and minimised.  Everything is drawn from the given random.Random."""
import random

SIL = 'urn://www.sil.org/ldml/0.1'
DRAFTS = ('approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect')
TEXTS = ['a', 'b', 'hello', '[a b c]', 'x & y', '<q>', 'ünï', '"q"', "it's", '{0}, {1}', 'क़', 'a\nb', '\u00a0', '\u202f', 'x\u00a0',
         '\u3000z', ']]>', 'a]]>b', '&amp;', '&lt;tag&gt;', '𞤀𞤣𞤤', 'e\u0301', '\u200f', '<!--x-->', 'tab\there', 'one  two', '%', '0',
         '[{a\u0301} \\u0041]', '-', '--', 'long ' * 30, 'a\n\u00a0b', 'x\u00a0\n\u3000y', 'p \n  q\u2003\nr']
COMMENTS = [' c1 ', 'note', ' x=1 ', ' name.en(aa)="Afar" ', ' ünï \U0001F600', ' two\nlines ', 'a - b', ' <language> & ', '']


def N(t, a=None, x=None, c=None):
    d = {'t': t}
    if a:
        d['a'] = dict(a)
    if x is not None:
        d['x'] = x
    if c:
        d['c'] = c
    return d


def kids(n):
    return n.get('c', ())


def text(r, rich=True):
    t = r.choice(TEXTS if rich else TEXTS[:8])
    return t + r.choice(['', '', str(r.randrange(100))])


def leaf(r, tag, attrs=None, rich=True, draft=.3):
    n = N(tag, attrs, text(r, rich))
    if r.random() < draft:
        n.setdefault('a', {})['draft'] = r.choice(DRAFTS)
    return n


def leaves(r, tag, attrs=None, alts=.25, **kw):
    out = [leaf(r, tag, attrs, **kw)]
    used = set()
    while r.random() < alts:
        a = r.choice(['proposed-%d' % r.randrange(4), 'short', 'proposed-u%d' % r.randrange(3)])
        if a in used:
            break
        used.add(a)
        l = leaf(r, tag, attrs, **kw)
        l.setdefault('a', {})['alt'] = a
        out.append(l)
    r.shuffle(out)
    return out


def doc(r, loc='aa', rich=1.0, alts=.25, draft=.3, special=True, collations=True, comments=.1, uparrow=0., ident=True, script=None, foreign=.15):
    root = N('ldml')
    c = root['c'] = []
    idn = N('identity', c=[N('version', {'number': '$Rev$'})])
    c.append(idn)
    bits = loc.split('_')
    idn['c'].append(N('language', {'type': bits[0]}))
    for b in bits[1:]:
        idn['c'].append(N('script' if len(b) == 4 else 'territory', {'type': b}))
    if ident and r.random() < .7:
        a = {}
        if r.random() < .4:
            a['uid'] = 'u%d' % r.randrange(5)
        if r.random() < .3:
            a['draft'] = r.choice(DRAFTS)
        if script:
            a['script'] = script
        if r.random() < .5:
            a['source'] = r.choice(['cldr', 'sil'])
        idn['c'].append(N('special', c=[N('sil:identity', a)]))
    kw = dict(draft=draft)
    lv = lambda tag, attrs=None: leaves(r, tag, attrs, alts=alts, **kw)
    secs = []

    def sec(f):
        if r.random() < .6 * rich:
            secs.append(f())
    flat = lambda xs: [y for x in xs for y in x]
    sec(lambda: N('localeDisplayNames', c=[N('languages', c=flat(lv('language', {'type': t}) for t in r.sample(['en', 'fr', 'aa', 'de', 'zh_Hans', 'EN'], r.randint(1, 3)))),
                                           N('territories', c=flat(lv('territory', {'type': t}) for t in r.sample(['US', 'FR', '001'], r.randint(1, 2))))]))
    sec(lambda: N('characters', c=flat(lv('exemplarCharacters', {'type': t} if t else None) for t in r.sample(['', 'index', 'auxiliary', 'punctuation'], r.randint(1, 3)))))
    sec(lambda: N('delimiters', c=flat(lv(t) for t in r.sample(['quotationStart', 'quotationEnd', 'alternateQuotationStart'], 2))))
    sec(lambda: N('layout', c=[N('orientation', c=[leaf(r, 'characterOrder', **kw)])]))
    sec(lambda: N('numbers', c=[N('symbols', {'numberSystem': ns}, c=flat(lv(t) for t in ('decimal', 'group'))) for ns in r.sample(['latn', 'arab'], r.randint(1, 2))] +
                  ([N('currencies', c=[N('currency', {'type': t}, c=lv('displayName') + [y for y in lv('symbol') if 'alt' not in y.get('a', {}) or r.random() < .5]) for t in r.sample(['USD', 'EUR', 'ZAR'], r.randint(1, 2))])] if r.random() < .4 else [])))
    sec(lambda: N('dates', c=[N('calendars', c=[N('calendar', {'type': 'gregorian'}, c=[N('months', c=[N('monthContext', {'type': 'format'}, c=[
        N('monthWidth', {'type': w}, c=flat(lv('month', {'type': str(i)}) for i in r.sample(range(1, 13), 3)))
        for w in r.sample(['wide', 'abbreviated', 'narrow'], 2)])])])])]))
    if collations:
        sec(lambda: N('collations', c=[leaf(r, 'defaultCollation', **kw)] +
                      [N('collation', {'type': t}, c=[N('cr', None, r.choice(['&a < b', '&a<x\n&c<<d', '&[before 1]b<á', '&a<<<]]>', '& x <* "p-q"\n\n# c'])[:]) ]) for t in r.sample(['standard', 'phonebook'], r.randint(1, 2))]))
    if special:
        def sp():
            kids = [N('sil:font', {'name': n, 'types': 'default'}, c=[N('sil:url', None, 'http://x/?a=1&b=' + n)]) for n in r.sample(['Charis', 'Doulos', 'Noto'], r.randint(1, 3))]
            kids += [N('sil:kbd', {'id': 'k%d' % i, 'type': 'kmp'}, c=[N('sil:url', None, 'http://k/%d' % i)]) for i in range(r.randint(0, 2))]
            return N('special', c=[N('sil:external-resources', c=kids)])
        sec(sp)
    if foreign and r.random() < foreign:
        f = [other(r, u) for u in r.sample(['http://a/x', 'http://b/y'], r.choice([1, 1, 2]))]
        sp = next((x for x in secs if x['t'] == 'special'), None)
        if sp:
            sp['c'] += f
        else:
            secs.append(N('special', c=f))
    r.shuffle(secs)
    c += secs
    if comments:
        for n in walk(root):
            if r.random() < comments:
                n['m'] = [r.choice(COMMENTS) for _ in range(r.randint(1, 2))]
            if n.get('c') and r.random() < comments:
                n['e'] = [r.choice(COMMENTS)]
    if uparrow:
        for n in walk(root):
            if 'x' in n and n['t'] not in ('cr',) and r.random() < uparrow:
                n['x'] = '↑↑↑'
    return root


def other(r, uri):
    """Somebody else's data"""
    t = '{%s}' % uri
    at = {'one': None, 'two': {t + 'k': '1'}, 'three': {'k': 'x & y'}, 'four': {t + 'k': '"', 'b': '2'}}
    return N(t + r.choice(['data', 'info']), None, c=[N(t + n, at[n], text(r)) for n in r.sample(sorted(at), r.randint(1, 3))])


def walk(n):
    yield n
    for c in kids(n):
        yield from walk(c)


def _esc(t, r, cref):
    out = []
    for ch in t:
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        elif ch == '\r':
            out.append('&#13;')
        elif cref and r.random() < cref:
            out.append('&#x%x;' % ord(ch) if r.random() < .5 else '&#%d;' % ord(ch))
        else:
            out.append(ch)
    return ''.join(out)


def _attr(t, r, cref):
    return _esc(t, r, cref).replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')


URI = {'a': 'http://a/x', 'b': 'http://b/y'}


def used(n):
    return sorted({t[1:t.index('}')] for t in [n['t']] + list(n.get('a', {})) if t[0] == '{'})


def xml(d, style=None):
    """style: seed, ind (indent string or None), cref (share of character references), cdata (share of texts in
    CDATA), inner (share of texts with a comment inside), pad (bytes of comment padding after the root's start tag),
    doctype, bom, ns ('top' or 'low'), quote, nl"""
    s = style or {}
    r = random.Random(s.get('seed', 0))
    ind = s.get('ind', '\t')
    nl = s.get('nl', '\n') if ind is not None else ''
    cref, cdata, inner = s.get('cref', 0), s.get('cdata', 0), s.get('inner', 0)
    o = []
    if s.get('decl', True):
        o.append('<?xml version="1.0" encoding="utf-8"?>' + (nl or '\n'))
    if s.get('doctype'):
        o.append('')
    ents, slot = {}, len(o) - 1

    nsr = random.Random(s.get('seed', 0) + 1)
    uris = sorted({u for n in walk(d) for u in used(n)})

    def name(t, scope, isattr):
        if t.startswith('sil:'):
            return sil + t[3:]
        if t[0] != '{':
            return t
        p = scope[t[1:t.index('}')]]
        return (p + ':' if p else '') + t[t.index('}') + 1:]
    sil = s.get('silp', 'sil')

    def w(n, pre, top, scope):
        for c in n.get('m', ()):
            o.append('%s<!--%s-->%s' % (pre, c, nl))
        at = dict(n.get('a', {}))
        scope = dict(scope)
        new = {}
        if top and s.get('fixns'):      # the same declarations whatever the document holds
            scope = {URI[p]: p for p in URI}
            new = dict(scope)
        for u in uris if top and s.get('ns', 'top') == 'top' and nsr.random() < .5 else used(n):
            if u not in scope:
                names = [x for x in ('a', 'b', 'x', 'ns1', 'ns2') if x not in scope.values() and x != sil]
                if not top and all(used(x) == [u] and not any(k[0] == '{' for k in x.get('a', {})) and x['t'][0] == '{' for x in walk(n)):
                    names += ['', '']
                scope[u] = new[u] = nsr.choice(names)
        at = {name(k, scope, True): v for k, v in at.items()}
        o.append(pre + '<' + name(n['t'], scope, False))
        for u, x in new.items():
            at['xmlns' + (':' + x if x else '')] = u
        if top and s.get('ns', 'top') == 'top' or s.get('ns') == 'low' and (n['t'].startswith('sil:')):
            at['xmlns:' + sil] = SIL
        ks = list(at)
        if s.get('shuffleattrs'):
            r.shuffle(ks)
        for k in ks:
            q = "'" if s.get('quote') and r.random() < .3 and "'" not in at[k] else '"'
            o.append(' %s=%s%s%s' % (k, q, _attr(at[k], r, cref), q))
        if n.get('c'):
            o.append('>' + nl)
            if top and s.get('pad'):
                o.append('<!--' + 'p' * s['pad'] + '-->' + nl)
            for c in n['c']:
                w(c, pre + ind if nl else '', False, scope)
            for c in n.get('e', ()):
                o.append('%s<!--%s-->%s' % (pre, c, nl))
            o.append(pre + '</' + name(n['t'], scope, False) + '>' + nl)
        elif n.get('x'):
            o.append('>')
            t = n['x']
            cut = r.randrange(len(t) + 1) if inner and r.random() < inner else None
            for i, part in enumerate([t] if cut is None else [t[:cut], t[cut:]]):
                if i:
                    o.append('<!--' + r.choice(COMMENTS) + '-->')
                if part and ']]>' not in part and '\r' not in part and (n['t'] == 'cr' or r.random() < cdata):
                    o.append('<![CDATA[' + part + ']]>')
                elif part and s.get('doctype') == 'ent' and '\r' not in part and ']]>' not in part and r.random() < .2:
                    ents['e%d' % len(ents)] = part
                    o.append('&e%d;' % (len(ents) - 1))
                else:
                    o.append(_esc(part, r, cref))
            o.append('</' + name(n['t'], scope, False) + '>' + nl)
        else:
            o.append('/>' + nl if r.random() < .8 else '></' + name(n['t'], scope, False) + '>' + nl)
    w(d, '', True, {})
    for c in s.get('after', ()):
        o.append('<!--%s-->\n' % c)
    if s.get('doctype'):
        o[slot] = '<!DOCTYPE ldml ' + ('PUBLIC "-//x//y" ' if s['doctype'] == 'pub' else 'SYSTEM ') + '"../../common/dtd/ldml.dtd"' + (' [' + ''.join(
            '<!ENTITY %s "%s">' % (k, ''.join({'&': '&#38;#38;', '<': '&#38;#60;', '>': '&#38;#62;', '%': '&#37;', '"': '&#34;'}.get(ch, ch) for ch in v))
            for k, v in ents.items()) + ']' if s['doctype'] == 'ent' else '') + '>' + nl
    t = ''.join(o)
    b = t.encode('utf-8')
    if s.get('bom'):
        b = b'\xef\xbb\xbf' + b
    return b


def style(r, pad=False):
    s = {'seed': r.randrange(1 << 30), 'ind': r.choice(['\t', '  ', '', None]), 'cref': r.choice([0, 0, .1]), 'cdata': r.choice([0, 0, .2]),
         'inner': r.choice([0, .1]), 'ns': r.choice(['top', 'top', 'low']), 'quote': r.random() < .5, 'shuffleattrs': r.random() < .5,
         'doctype': r.choice([False] * 14 + [True, True, 'pub', 'ent', 'ent']), 'bom': r.random() < .1, 'decl': r.random() < .9, 'nl': r.choice(['\n', '\n', '\r\n'])}
    if r.random() < .1:
        s['silp'] = r.choice(['s', 'ns1', 'sl'])
    if r.random() < .2:
        s['after'] = [r.choice(COMMENTS)]
    return s
