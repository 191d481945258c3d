"""Scripts: sequences of library operations on documents of their own, as generators that yield after every
operation.  What they append to obs is all that may be observed of them."""
import io, os
import gen as G
from props.util import ldml


def gen_ops(r, loc, n=None, flat=True):
    ops = [{'o': 'load', 'merge': r.random() < .4, 'drafts': r.random() < .7, 'path': r.random() < .3, 'up': r.random() < .2}]
    for _ in range(n or r.randint(3, 8)):
        k = r.choice(['ser', 'ser', 'norm', 'find', 'ensure', 'edit', 'add', 'remove', 'draft', 'loadagain', 'clone', 'xpath', 'ident', 'alias', 'merge', 'etwrite', 'ns', 'getset', 'coll']
                     + (['flat', 'unflat', 'parents'] if flat else []))
        o = {'o': k}
        if k == 'ser':
            o.update(topns=r.random() < .6, ns=r.random() < .2, nouid=r.random() < .8)
        elif k == 'norm':
            o['drafts'] = r.random() < .5
        elif k in ('ensure', 'add', 'edit', 'remove', 'draft'):
            o.update(x='v%d & ü' % r.randrange(100), t='t%d' % r.randrange(5), at=r.random(), d=r.choice(G.DRAFTS), alt='proposed-u%d' % r.randrange(3))
        elif k in ('loadagain', 'merge'):
            o['merge'] = True
            o['seed'] = r.randrange(1000)
        elif k == 'ns':
            o['pfx'] = r.choice(['foo', 'x', 'sil2'])
        elif k == 'flat' or k == 'unflat':
            o['opts'] = {'skipstubs': r.random() < .2, 'flattencollation': r.random() < .3, 'resolveAlias': r.random() < .2}
        elif k == 'etwrite':
            o.update(topns=r.random() < .5, u=r.choice(['urn:a', 'urn:b', G.SIL]), p=r.choice(['a', 'b', 'sil']), given=r.random() < .5)
        ops.append(o)
    ops.append({'o': 'ser', 'topns': True, 'ns': False, 'nouid': True})
    return ops


def leaves(l):
    return [e for e in l.root.iter() if not len(e) and e.tag not in ('cr', 'language', 'script', 'territory', 'version') and not e.tag.endswith('}identity')]


def script(ops, data, loc, dirs, obs):
    """obs: function taking an observation"""
    from sldr.ldml import etwrite
    from sldr.ldml_merge import flattenlocale, LdmlMerge
    import xml.etree.ElementTree as et
    l = None

    def out(l, **kw):
        s = []
        l.serialize_xml(s.append, **kw)
        return ''.join(s)
    for o in ops:
        k = o['o']
        if k == 'load' or l is None:
            src = os.path.join(dirs[0], loc + '.xml') if o.get('path') else io.BytesIO(data)
            from sldr.ldml import Ldml
            l = (LdmlMerge if o.get('merge') else Ldml)(src, usedrafts=o.get('drafts', True), uparrows=o.get('up', False))
            obs(('load', l.default_draft, sorted(l.namespaces.items())))
        elif k == 'ser':
            kw = {'topns': o['topns']}
            if o['ns']:
                kw['namespaces'] = {G.SIL: 'sil'}
            if not o['nouid']:
                kw['nouid'] = False
            obs(('ser-ns' if o['ns'] else 'ser', out(l, **kw)))
        elif k == 'norm':
            l.normalise(usedrafts=o['drafts'])
        elif k == 'find':
            obs(('find', [(e.tag, e.text, sorted(e.attrib.items())) for p in ('identity/language', 'characters/exemplarCharacters', './/sil:identity', 'numbers/symbols[@numberSystem="latn"]/decimal',
                                                                            'special/sil:external-resources/sil:font') for e in l.findall(p)]))
        elif k == 'ensure':
            n = l.ensure_path('characters/exemplarCharacters[@type="%s"]' % o['t'], text=o['x'], draft=o['d'], alt=o['alt'])
            obs(('ensure', [(e.tag, e.text) for e in n]))
        elif k == 'add':
            p = l.ensure_path('localeDisplayNames/languages')[0]
            e = l.addnode(p, 'language', attrib={'type': o['t']}, alt=o['alt'])
            e.text = o['x']
        elif k == 'edit':
            ls = leaves(l)
            if ls:
                ls[int(o['at'] * len(ls))].text = o['x']
        elif k == 'remove':
            n = l.remove_path('characters/exemplarCharacters[@type="%s"]' % o['t'])
            obs(('remove', len(n)))
        elif k == 'draft':
            n = l.findall('characters/exemplarCharacters')
            if n:
                l.change_draft(n[0], o['d'])
        elif k == 'loadagain':
            l = LdmlMerge(io.BytesIO(out(l).encode('utf-8')))
        elif k == 'clone':
            obs(('copy', sorted(x.tag for x in l.root)))
        elif k == 'xpath':
            obs(('xpath', [l.as_xpath(e, usedrafts=True) for e in leaves(l)]))
        elif k == 'ident':
            l.add_silidentity(revid='r1', source='x')
        elif k == 'alias':
            l.resolve_aliases()
        elif k == 'merge':
            import random
            b = out(l).encode('utf-8')
            m, base, other = LdmlMerge(io.BytesIO(b)), LdmlMerge(io.BytesIO(b)), LdmlMerge(io.BytesIO(b))
            ls = leaves(other)
            if ls:
                ls[o['seed'] % len(ls)].text = 'merged'
            m.merge(other, base, default='proposed')
            m.normalise(usedrafts=True)
            l = m
            obs(('merged', out(l)))
        elif k == 'etwrite':
            t = et.fromstring('<r xmlns:q="%s"><q:c q:a="1" b="2">x</q:c></r>' % o['u'])
            s = []
            etwrite(t, s.append, topns=o['topns'], namespaces={o['u']: o['p']} if o['given'] else None)
            obs(('etwrite', ''.join(s)))
        elif k == 'ns':
            l.add_namespace(o['pfx'], 'urn:' + o['pfx'])
        elif k == 'getset':
            from sldr.ldml import getldml
            x = getldml(loc, dirs)
            obs(('getldml', None if x is None else out(x)))
        elif k == 'coll':
            obs(('coll', l.flatten_collation('&a<b[import aa-u-co-standard]', lambda lang, c: lang + c)))
        elif k in ('flat', 'unflat'):
            x = flattenlocale(loc, dirs=dirs, rev='f' if k == 'flat' else 'r', **o['opts'])
            if x is not None:
                x.normalise()
            obs((k, None if x is None else out(x)))
        elif k == 'parents':
            obs(('parents', l.get_parent_locales(loc), l.get_parent_locales('en_GB'), l.get_parent_locales('zh_Hant_HK')))
        yield k
