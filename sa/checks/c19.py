"""What a message body is taken to mean: the payload getters of
httpolice.message (decoded_body, guessed_charset, unicode_body, json_data,
xml_data, multipart_data, url_encoded_data) and the decoders they use are
interpreted abstractly on bodies of unknown content, and for every outcome of
every library call must yield the values and report the notices that the
reference in stubs/payload.py does, interpreted on the same body."""
import itertools
import os

from ..model import AnchorError
from ..streams import HERE, Feed
from ..values import K, ListV, NatV, NONE, O, Sy, TupV, one

LEVEL = 'other'
ASSUMES = (
    'zlib, brotli, json, xml, email and codecs do what they are documented '
    'to do (the terms say which one is applied to what)',
    'header fields are parsed as C09 and C24 decide',
)
BYTES = ('prim', 'bytes')
GETTERS = ('decoded_body', 'guessed_charset', 'unicode_body', 'json_data',
           'xml_data', 'multipart_data', 'url_encoded_data')
NOTICES = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}

# Content-Encoding -> codings in the order of application ('!': malformed)
CODINGS = [
    ([], []),
    (['gzip'], ['gzip']),
    (['x-gzip'], ['gzip']),
    (['GZip'], ['gzip']),
    (['deflate'], ['deflate']),
    (['br'], ['br']),
    (['compress'], ['compress']),
    (['foo'], ['foo']),
    (['identity'], ['identity']),
    (['gzip, deflate'], ['gzip', 'deflate']),
    (['br', 'gzip'], ['br', 'gzip']),
    (['deflate, br, gzip'], ['deflate', 'br', 'gzip']),
    (['gzip, gzip'], ['gzip', 'gzip']),
    (['gzip, foo'], ['gzip', 'foo']),
    (['foo, gzip'], ['foo', 'gzip']),
    (['foo, bar'], ['foo', 'bar']),
    (['gzip', '@'], ['gzip', '!']),
    (['@', 'gzip'], ['!', 'gzip']),
]

# Content-Type -> kind, declared charset
TYPES = [
    (None, None, 'utf-8'),
    ('@', None, 'utf-8'),
    ('text/plain', None, 'utf-8'),
    ('text/plain; charset=utf-8', None, 'utf-8'),
    ('text/html; charset=UTF-8', None, 'UTF-8'),
    ('text/plain; Charset="windows-1251"', None, 'windows-1251'),
    ('text/plain; charset=bogus', None, 'bogus'),
    ('text/plain; charset=hex', None, 'hex'),
    ('application/json', 'json', 'utf-8'),
    ('application/json; charset=us-ascii', 'json', 'us-ascii'),
    ('application/json; charset=utf-16', 'json', 'utf-16'),
    ('application/json; charset=bogus', 'json', 'bogus'),
    ('application/problem+json', 'json', 'utf-8'),
    ('Application/XML', 'xml', 'utf-8'),
    ('text/xml; charset=utf-16', 'xml', 'utf-16'),
    ('application/atom+xml', 'xml', 'utf-8'),
    ('image/svg+xml', 'xml', 'utf-8'),
    ('multipart/form-data; boundary=x', 'multipart', 'utf-8'),
    ('multipart/byteranges; boundary=x', 'multipart', 'utf-8'),
    ('application/x-www-form-urlencoded', 'form', 'utf-8'),
    ('application/octet-stream', None, 'utf-8'),
]

# Form data -> is some character out of place?
FORMS = [
    (b'', False),
    (b'a=b', False),
    (b'a=b&c=%20d+e', False),
    (b'a=*-._', False),
    (b'a=b c', True),
    (b'a=b\n', True),
    (b'{"a": 1}', True),
    (b'a=\xd0\xb0', True),
    (b'a=b#', True),
]

# Who carries the body; is it a complete instance of its media type?
CARRIERS = [
    ('request', 'POST', None, True),
    ('request', 'GET', None, True),
    ('response', 200, 'GET', True),
    ('response', 404, 'GET', True),
    ('response', 206, 'GET', False),
    ('response', 200, 'HEAD', False),
    ('response', 304, 'GET', False),
    ('response', 200, None, None),
]


class Payload(Feed):

    def __init__(self, M):
        Feed.__init__(self, M, symbolic=False)
        I = self.I
        for n in ('gzip', 'deflate'):
            I.intercepts.pop('httpolice.codings:decode_' + n, None)
        I.intercepts['httpolice.blackboard:Blackboard.complain'] = \
            self.i_complain
        mod = I.load('payload', os.path.join(HERE, 'stubs', 'payload.py'))
        self.ref = mod.ns['meaning']
        self.refun = mod.ns['Unavailable']
        for n, mn in (('Request', 'request'), ('Response', 'response')):
            I.import_module('httpolice.' + mn)
            setattr(self, n, M.global_('httpolice.' + mn, n))
        for n in ('HeaderEntry', 'StatusCode', 'Method', 'HTTPVersion',
                  'Unavailable'):
            setattr(self, n, M.global_('httpolice.structure', n))

    def make(self, kind, which, method, fields, body):
        I = self.I

        def new(cls, *a):
            return I.call(one(cls), [x if not isinstance(
                x, (str, bytes, int)) else one(K(x)) for x in a], {})
        es = one(ListV('list', [(1, new(self.HeaderEntry, a, b))
                                for a, b in fields]))
        v = new(self.HTTPVersion, 'HTTP/1.1')

        def request(meth, es, body):
            return I.call(one(self.Request), [
                one(K('http')), new(self.Method, meth), one(K('/')), v, es,
                body], {'remark': NONE})
        if kind == 'request':
            return request(which, es, body)
        r = I.call(one(self.Response), [
            v, new(self.StatusCode, which), one(K('x')), es, body],
            {'remark': NONE})
        if method:
            I.setattr(r, 'request', request(
                method, one(ListV('list', [])), one(K(b''))))
        return r


def normal(I, p):
    """A library term by what it computes."""
    if not isinstance(p, tuple):
        return p
    q = tuple(normal(I, x) for x in p)
    if q[:2] == ('m', 'decompress') and len(q) == 4 and \
            q[2][:2] == ('lib', 'zlib.decompressobj'):
        w = wbits(q[2][2:])
        return (w, q[3])
    if q[:2] == ('lib', 'zlib.decompress'):
        return (wbits(q[3:]), q[2])
    if q[:2] in (('lib', 'brotli.decompress'), ('lib', 'gzip.decompress')):
        return (q[1].split('.')[0], q[2])
    return q


def wbits(a):
    n = 15
    for x in a:
        if x[:2] == ('k', 'int'):
            n = x[2]
        elif x[:1] == ('wbits',):
            n = x[1][2]
    return {31: 'gzip', 15: 'zlib'}.get(n, ('zlib', n))


def outcomes(F, v, getter):
    """{what: condition}"""
    I, m = F.I, F.I.m
    out = {}

    def put(k, g):
        if g:
            out[k] = m.or_(out.get(k, 0), g)

    for g, s in v.alts:
        if g == 0:
            continue
        p = I.prim_of(s)
        if isinstance(s, O) and s.cls.name == 'Unavailable':
            put('unavailable', g)
        elif isinstance(p, K):
            put(('value', type(p.v).__name__, p.v), g)
        elif getter == 'multipart_data':
            put('parsed', g)
        else:
            q = I.pathof(s)
            if q[:1] == ('union',) or not isinstance(q, tuple):
                return None
            put(normal(I, q), g)
    return out


def events(F, es):
    out = {}
    m = F.I.m
    for nid, what, g in es:
        out[nid, what] = m.or_(out.get((nid, what), 0), g)
    return out


def say_to(F, said):
    def f(I, a, kw):
        for g, s in a[1].alts:
            k = I.prim_of(s)
            h = I.m.and_(I.pc, g)
            if h:
                said.append((I.prim_of(a[0].single()).v, k.v, h))
        return NONE
    return one(NatV('say', f))


def reported(F, o, only):
    """[(notice, coding, condition)]"""
    I = F.I
    r = []
    for e in F.M.events:
        if e.obj is not o or not e.guard or e.id not in only:
            continue
        c = e.kwargs.get('coding') if e.id in (1036, 1037) else None
        if c is None:
            r.append((e.id, None, e.guard))
            continue
        for g, s in c.alts:
            k = I.prim_of(s)
            h = I.m.and_(e.guard, g)
            if h:
                r.append((e.id, str(k.v).lower() if isinstance(k, K) else '?',
                          h))
    return r


CANON = {'x-gzip': 'gzip'}


def family(tier):
    def case(carrier, enc, typ, body, wrong=False):
        return carrier, enc, typ, body, wrong
    main = CARRIERS[0], CARRIERS[2]
    body = 'body'
    for c in main:
        for e in CODINGS:
            yield case(c, e, TYPES[2], body)
        for t in TYPES:
            if t[1] != 'form':
                yield case(c, CODINGS[0], t, body)
                yield case(c, CODINGS[1], t, body)
                if tier != 'quick':
                    for e in CODINGS[2:]:
                        yield case(c, e, t, body)
        form = [t for t in TYPES if t[1] == 'form'][0]
        for data, wrong in FORMS:
            yield case(c, CODINGS[0], form, data, wrong)
        for b in (b'', None, 'gone'):
            for t in TYPES[7:]:
                for e in (CODINGS[0], CODINGS[1], CODINGS[7]):
                    yield case(c, e, t, b)
    for c in CARRIERS:
        for t in TYPES:
            if t[1] in ('json', 'xml', 'multipart') and ';' not in t[0] or \
                    t[1] == 'multipart':
                yield case(c, CODINGS[0], t, body)
        for data, wrong in FORMS[:5]:
            yield case(c, CODINGS[0], form, data, wrong)


def run(ctx):
    F = Payload(ctx.model())
    I, m = F.I, F.I.m
    n = dict(messages=0, obligations=0, discharged=0)
    skipped = []
    seen = set()
    for carrier, enc, typ, body, wrong in family(ctx.tier):
        key = repr((carrier, enc, typ, body))
        if key in seen:
            continue
        seen.add(key)
        kind, which, method, full = carrier
        text, dkind, charset = typ
        if full is False and text and 'byteranges' in text and which == 206:
            full = True             # a 206 may consist of several ranges
        what = 'a %s %s%s with %s' % (
            which, kind, ' to %s' % method if method else '',
            ', '.join(['Content-Encoding: %s' % x for x in enc[0]] +
                      ['Content-Type: %s' % text] * (text is not None) +
                      [said_body(body)]))
        fields = [('Content-Encoding', x) for x in enc[0]]
        if text is not None:
            fields.append(('Content-Type', text))

        def fresh():
            if body == 'body':
                return one(Sy(('body',), BYTES))
            if body == 'gone':
                return I.call(one(F.Unavailable), [], {})
            return one(K(body))

        I.pc, I.steps, I.while_limit = 1, 0, 40
        del F.M.events[:]
        del I.faults[:]
        u0 = len(I.undecided)
        msg = F.make(kind, which, method, fields, fresh())
        o = msg.single()
        got = {}
        for g in GETTERS + GETTERS[:3]:
            I.pc = 1
            v = I.getattr(msg, g)
            if g not in got:
                got[g] = v
            crashed = [f for f in I.faults]
            if crashed:
                break
        n['messages'] += 1
        if crashed:
            f = crashed[0]
            ctx.violation('%s/%s' % (key, f[0]), f[3],
                          '%s: %s %s escapes %s' % (what, f[0], f[1], g))
            continue
        if o is None or len(I.undecided) > u0 and any(
                'message.py' in str(u) for u in I.undecided[u0:]):
            skipped.append((what, I.undecided[u0:][:1]))
            continue
        ours = reported(F, o, NOTICES)
        said = []
        I.pc = 1
        ref = fresh() if body != 'gone' else I.call(
            one(F.refun.single()), [], {})
        r = I.call(F.ref, [
            ref, one(ListV('list', [(1, one(K(c))) for c in enc[1]])),
            one(K(charset)), one(K(dkind)),
            ref if full is None else one(K(full)),
            one(K((text or '').encode())), one(K(wrong)),
            say_to(F, said)], {})
        t = r.single()
        if not isinstance(t, TupV) or len(t.items) != len(GETTERS) or \
                I.faults or I.pc != 1:
            raise AnchorError('%s: the reference cannot be interpreted: %r' %
                              (what, I.faults[:1]))
        for g, want in zip(GETTERS, t.items):
            a, b = outcomes(F, got[g], g), outcomes(F, want, g)
            n['obligations'] += 1
            if a is None or b is None:
                skipped.append((what, g))
                continue
            diff = [(k, m.xor(a.get(k, 0), b.get(k, 0)))
                    for k in list(a) + [k for k in b if k not in a]
                    if a.get(k, 0) != b.get(k, 0)]
            if not diff:
                n['discharged'] += 1
                continue
            k = diff[0][0]
            ctx.violation('%s/%s' % (key, g), 'httpolice/message.py %s' % g,
                          '%s: %s is %s where it should %sbe' % (
                              what, g, show(k) if k in a else
                              'not ' + show(k),
                              'not ' if m.diff(a.get(k, 0), b.get(k, 0))
                              else 'only '))
        x = events(F, [(i, CANON.get(c, c), g) for i, c, g in ours])
        y = events(F, said)
        n['obligations'] += 1
        diff = [k for k in list(x) + [k for k in y if k not in x]
                if x.get(k, 0) != y.get(k, 0)]
        twice = [a[0] for a, b in itertools.combinations(ours, 2)
                 if a[:2] == b[:2] and a[0] not in (1139, 1140) and
                 enc[1].count(CANON.get(a[1], a[1])) < 2 and
                 m.and_(a[2], b[2])]
        if diff:
            k = diff[0]
            ctx.violation('%s/notice' % key, 'httpolice/message.py',
                          '%s: notice %d%s is %s' % (
                              what, k[0], ' about %s' % k[1] if k[1] else '',
                              'reported where it should not be'
                              if m.diff(x.get(k, 0), y.get(k, 0)) else
                              'missing'))
        elif twice:
            ctx.violation('%s/twice' % key, 'httpolice/message.py',
                          '%s: notice %d is reported twice' % (what,
                                                               twice[0]))
        else:
            n['discharged'] += 1
    if n['discharged'] < n['obligations'] // 2 and not ctx.violations:
        raise AnchorError('hardly anything could be compared: %r' %
                          skipped[::40])
    ctx.cover(rule='value of each payload getter and each notice, with the '
              'condition under which it is so == reference', 
              skipped=len(skipped), **n)


def said_body(b):
    return {'body': 'some body', 'gone': 'an unavailable body',
            None: 'no known body'}.get(b) or 'the body %r' % b


def show(k):
    if isinstance(k, str):
        return k
    if k[0] == 'value':
        return repr(k[2])
    return str(k)
