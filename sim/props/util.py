"""Shared by the property modules: loading and serialising through the code under test."""
import io
import model
from simcore import Violation, InvalidCase


def ldml(src, merge=False, **kw):
    if merge:
        from sldr.ldml_merge import LdmlMerge as cls
    else:
        from sldr.ldml import Ldml as cls
    return cls(io.BytesIO(src) if isinstance(src, bytes) else src, **kw)


def ser(l, norm=False, usedrafts=False, **kw):
    if norm:
        l.normalise(usedrafts=usedrafts)
    o = []
    l.serialize_xml(o.append, **kw)
    return ''.join(o).encode('utf-8')


def expect(data, usedrafts=True, uparrows=False):
    t = model.parse(data, uparrows=uparrows)
    return model.shed_drafts(t) if usedrafts else t


def need(cond, kind, msg, *a):
    if not cond:
        raise Violation(kind, msg.format(*a) if a else msg)


def check_same(kind, what, want, out, comments=True):
    """want: model tree; out: serialised bytes"""
    try:
        got = model.parse(out)
    except model.BadXml as e:
        raise Violation(kind + '-malformed', "{}: output is not well-formed: {}".format(what, e))
    d = model.same(want, got, comments)
    if d:
        raise Violation(kind, "{}: {}".format(what, d))


def quote(b, n=600):
    s = b.decode('utf-8', 'replace')
    return s if len(s) <= n else s[:n] + '...'
