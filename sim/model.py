"""An independent reading of locale files: what a document holds, taken straight from the bytes."""
import re
from xml.parsers import expat

SIL = 'urn://www.sil.org/ldml/0.1'
XMLNS = 'http://www.w3.org/XML/1998/namespace'
UP = '↑↑↑'


class E:
    __slots__ = ('tag', 'at', 'text', 'kids', 'before', 'after', 'lost')

    def __init__(self, tag, at):
        self.tag, self.at, self.text, self.kids, self.before, self.after, self.lost = tag, at, '', [], [], [], False

    def __repr__(self):
        return "<{} {} {!r} {}>".format(self.tag, self.at, self.text, self.kids)


def _cn(n):
    return '{' + n if '}' in n else n


class BadXml(Exception):
    pass


def clean(t):
    return re.sub(r'[ \t]*\n[ \t]*', '\n', t.strip(' \t\r\n'))


def parse(data, uparrows=True):
    """Element tree with comments placed as the library documents it: a comment belongs to the next element that
    starts; at the end of a parent to its last child; after the root to the root.  uparrows False drops the
    inherited markers (and elements holding nothing else)."""
    p = expat.ParserCreate('UTF-8', '}')
    p.buffer_text = True
    p.ordered_attributes = False
    stack = []
    pending = []
    state = {'root': None}

    def start(tag, at):
        e = E(_cn(tag), {_cn(k): v for k, v in at.items()})
        e.before = pending[:]
        del pending[:]
        if stack:
            stack[-1].kids.append(e)
        else:
            state['root'] = e
        stack.append(e)

    def chars(t):
        if stack:
            stack[-1].text += t

    def end(tag):
        e = stack.pop()
        if pending and e.kids:
            e.kids[-1].after = pending[:]
            del pending[:]
        if e.kids:
            raw = None
        else:
            raw = e.text
        if not uparrows:
            gone = raw == UP or (e.lost and not e.kids)
            if gone and stack:
                stack[-1].kids.remove(e)
                stack[-1].lost = True
            elif stack:
                stack[-1].lost = False
        e.text = clean(raw) if raw else ''
    def skipped(name, isparam):
        raise BadXml('undefined entity ' + name)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.CommentHandler = pending.append
    p.SkippedEntityHandler = skipped
    try:
        p.Parse(data_bytes(data), True)
    except expat.ExpatError as x:
        raise BadXml(str(x))
    if pending:
        state['root'].after = pending[:]
    return state['root']


def data_bytes(d):
    return d if isinstance(d, bytes) else d.encode('utf-8')


def from_doc(d):
    """The same tree from a generated document (gen.py), without going through XML"""
    def cn(t):
        if t.startswith('sil:'):
            return '{' + SIL + '}' + t[4:]
        if t.startswith('xml:'):
            return '{' + XMLNS + '}' + t[4:]
        return t

    def w(n):
        e = E(cn(n['t']), {cn(k): v for k, v in n.get('a', {}).items()})
        e.before = list(n.get('m', ()))
        e.kids = [w(c) for c in n.get('c', ())]
        if e.kids:
            e.kids[-1].after = list(n.get('e', ()))
        else:
            e.text = clean(n.get('x') or '')
        return e
    return w(d)


def default_draft(root):
    for i in root.kids:
        if i.tag == 'identity':
            for s in i.kids:
                if s.tag == 'special':
                    for x in s.kids:
                        if x.tag == '{' + SIL + '}identity':
                            return x.at.get('draft', 'unconfirmed')
    return 'unconfirmed'


def shed_drafts(root):
    """@draft is only written on leaves and only if it is not the document's default"""
    d = default_draft(root)

    def w(e):
        if e.tag != '{' + SIL + '}identity' and 'draft' in e.at and (e.kids or e.at['draft'] == d):
            del e.at['draft']
        for c in e.kids:
            w(c)
    w(root)
    return root


def key(e):
    """content of an element irrespective of the order of its children, without comments"""
    return (e.tag, tuple(sorted(e.at.items())), e.text if not e.kids else '', tuple(sorted(key(c) for c in e.kids)))


def comments(e):
    res = list(e.before) + list(e.after)
    for c in e.kids:
        res += comments(c)
    return res


def path(e):
    return e.tag + ''.join('[@{}="{}"]'.format(*x) for x in sorted(e.at.items()))


def diff(a, b, pfx=''):
    """First difference between two trees (children in any order), None if there is none"""
    here = pfx + '/' + path(a)
    if (a.tag, a.at) != (b.tag, b.at):
        return '{}: {} instead of {}'.format(here, path(b), path(a))
    if not a.kids and not b.kids and a.text != b.text:
        return '{}: text {!r} instead of {!r}'.format(here, b.text, a.text)
    ak, bk = sorted(a.kids, key=key), sorted(b.kids, key=key)
    if [key(x) for x in ak] == [key(x) for x in bk]:
        return None
    A = {}
    for x in ak:
        A.setdefault((x.tag, tuple(sorted(x.at.items()))), []).append(x)
    B = {}
    for x in bk:
        B.setdefault((x.tag, tuple(sorted(x.at.items()))), []).append(x)
    for k in A:
        if len(A[k]) > len(B.get(k, ())):
            return '{}: {} is missing'.format(here, path(A[k][0]))
    for k in B:
        if len(B[k]) > len(A.get(k, ())):
            return '{}: {} should not be there ({!r})'.format(here, path(B[k][0]), B[k][0].text)
    for k in A:
        for x, y in zip(A[k], B[k]):
            d = diff(x, y, here)
            if d:
                return d
    return '{}: differs'.format(here)


def diff_comments(a, b, pfx=''):
    """Every comment is still there, and those before an element still stand right before it"""
    def norm(c):
        return re.sub(r'-(?=-|$)', '- ', c)
    if not pfx:
        ca, cb = sorted(norm(x) for x in comments(a)), sorted(comments(b))
        if ca != cb:
            return 'comments are {!r} instead of {!r}'.format([x for x in cb if cb.count(x) != ca.count(x)][:3], [x for x in ca if cb.count(x) != ca.count(x)][:3])
    if a.before and [norm(x) for x in a.before] != b.before[-len(a.before):]:
        return '{}/{}: comments {!r} before it instead of {!r}'.format(pfx, path(a), b.before, a.before)
    ak, bk = sorted(a.kids, key=key), sorted(b.kids, key=key)
    if len(set(key(x) for x in ak)) < len(ak):
        return None         # identical siblings cannot be told apart
    for x, y in zip(ak, bk):
        d = diff_comments(x, y, pfx + '/' + path(a))
        if d:
            return d
    return None


def same(want, got, withcomments=True):
    d = diff(want, got)
    if d is None and withcomments:
        d = diff_comments(want, got)
    return d
