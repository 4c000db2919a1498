"""How bodies are delimited: httpolice.framing1 is interpreted abstractly on
streams with a symbolic method, status code, length and contents, for every
shape of the fields that matter; the condition under which the body is each
part of the stream (or unavailable), and under which each notice says why,
must be that of RFC 7230 section 3.3.3."""
import itertools

from ..model import INT, AnchorError
from ..rulespec import isop
from ..streams import Feed
from ..values import K, O, Sy, one

LEVEL = 'other'
ASSUMES = (
    'files behave as io.BufferedReader does',
    'header fields are parsed as C09 and C24 decide',
    'at most three transfer codings (the code treats lists uniformly)',
)
WHERE = 'httpolice/framing1.py (framing of %s)'
MAX = 1024 ** 3

# Transfer-Encoding: text and codings ('!' malformed), or None if absent.
CODINGS = [
    (None, None),
    ('chunked', ['chunked']),
    ('gzip', ['gzip']),
    ('gzip, chunked', ['gzip', 'chunked']),
    ('x-gzip, Chunked', ['x-gzip', 'chunked']),
    ('deflate, gzip, chunked', ['deflate', 'gzip', 'chunked']),
    ('gzip, gzip', ['gzip', 'gzip']),
    ('deflate', ['deflate']),
    ('compress, chunked', ['compress', 'chunked']),
    ('foo', ['foo']),
    ('foo, gzip, chunked', ['foo', 'gzip', 'chunked']),
    ('gzip, foo, chunked', ['gzip', 'foo', 'chunked']),
    ('identity', ['identity']),
    ('chunked, gzip', ['chunked', 'gzip']),
    ('chunked, chunked', ['chunked', 'chunked']),
    ('@', ['!']),
]
LENGTHS = [
    (None, None),
    (['<n>'], 'n'),
    (['@'], '!'),
    (['<n>', '<k>'], '!'),
    (['<n>', '<n>'], 'n'),
    (['0'], 0),
]
BODY = [b'5;x=y \r\n', b'hello', b'\r\n', b'0\r\n', b'T: v\r\n', b'\r\n']


class Outcome:
    """What RFC 7230 makes of a message: {body: condition} and {notice:
    condition}, where a body is a tuple of steps."""

    def __init__(self, I):
        self.I, self.m = I, I.m
        self.bodies = {}
        self.notices = {}
        self.left = 1               # conditions not covered so far
        self.on = 1
        self.goes_on = 0            # parsing goes on after the body ...
        self.at_body = 0            # ... or where it would have been

    def put(self, d, what, g):
        g = self.m.and_(g, self.on)
        if g:
            d[what] = self.m.or_(d.get(what, 0), g)

    def case(self, cond):
        """The part of the inputs not covered so far on which cond holds."""
        self.on = self.m.and_(self.left, cond)
        self.left = self.m.diff(self.left, cond)
        return self.on != 0

    def body(self, b, g=1):
        self.put(self.bodies, b, g)

    def say(self, nid, g=1):
        self.put(self.notices, nid, g)

    def undo(self, codings, base):
        """Decode what was under the transfer codings."""
        m = self.m
        ok = 1
        b = base
        for c in reversed(codings):
            if c in ('gzip', 'x-gzip', 'deflate'):
                n = 'gzip' if 'gzip' in c else c
                b = ('undo', n, b)
                bad = self.I.atom('corrupt', path_of(b)[1:])
                self.say(1027, m.and_(ok, bad))
                self.body('unavailable', m.and_(ok, bad))
                ok = m.diff(ok, bad)
            else:
                if c == 'chunked':
                    self.say(1002, ok)
                elif c != '!':
                    self.say(1003, ok)
                self.body('unavailable', ok)
                return
        self.body(b, ok)


def path_of(b):
    if b[0] == 'undo':
        return ('undo', b[1], path_of(b[2]))
    if b[0] == 'chunks':
        return ('k', 'bytes', b'hello')
    return b


def atoms(F, status=None):
    I = F.I

    def eq(v, c):
        return I.compare('Eq', v, one(K(c)))

    def ge(v, c):
        return I.compare('GtE', v, one(K(c)))
    a = {}
    meth = one(Sy(('method', '1'), ('prim', 'str')))
    a['CONNECT'] = eq(meth, 'CONNECT')
    a['HEAD'] = eq(meth, 'HEAD')
    st = one(Sy(('status', '01'), INT))
    for c in (101, 204, 304):
        a[c] = eq(st, c)
    for c in (1, 2):
        a['%dxx' % c] = I.m.diff(ge(st, c * 100), ge(st, c * 100 + 100))
    a['big'] = I.compare('Gt', one(Sy(('n', 'n'), INT)), one(K(MAX)))
    return a


def framed(o, A, F, codings, length, role, start, end, request):
    """RFC 7230 section 3.3.3, from item 3 on."""
    m, I = F.I.m, F.I
    if codings is not None:
        if codings[-1] == 'chunked':
            o.undo(codings[:-1], ('chunks',))
            o.goes_on = m.or_(o.goes_on, o.on)
        elif request:
            o.say(1001)
            o.body('unavailable')
        else:
            o.undo(codings, ('rest', role, start))
    elif length == '!':
        o.body('unavailable')
    elif length == 0:
        o.body('')
        o.at_body = m.or_(o.at_body, o.on)
    elif length == 'n':
        b = ('block', role, start)
        short = m.conj([
            I.compare('Lt', one(Sy(('len', b), INT)),
                      one(Sy(('n', 'n'), INT))),
            I.compare('Gt', one(Sy(('n', 'n'), INT)), one(K(0)))])
        o.say(1298, A['big'])
        o.say(1004, m.diff(short, A['big']))
        o.body('unavailable', m.or_(short, A['big']))
        ok = m.diff(m.not_(short), A['big'])
        o.body(b, ok)
        o.goes_on = m.or_(o.goes_on, m.and_(o.on, ok))
    elif request:
        o.body('')
        o.at_body = m.or_(o.at_body, o.on)
    else:
        o.body(('rest', role, start))


def expected(F, context, codings, length, start):
    I = F.I
    o = Outcome(I)
    A = atoms(F)
    m = I.m
    if context == 'request':
        o.case(1)
        framed(o, A, F, codings, length, 'in', start, 0, True)
        return o
    known = context == 'response'
    if o.case(A[101]):
        o.body('')
        o.say(1011)
    if known and o.case(m.and_(A['CONNECT'], A['2xx'])):
        o.body('')
        o.say(1012)
    if o.case(m.disj([A['1xx'], A[204], A[304],
                      A['HEAD'] if known else 0])):
        o.body('')
        o.at_body = m.or_(o.at_body, o.on)
    o.case(1)
    framed(o, A, F, codings, length, 'out', start, 0, False)
    return o


def actual(F, o):
    """What the code makes of it."""
    I, m = F.I, F.I.m
    r = {}
    for g, s in o.attrs['body'].alts:
        if g == 0:
            continue
        s = I.prim_of(s)
        if isinstance(s, K) and isinstance(s.v, bytes):
            b = '' if not s.v else ('chunks',) if s.v == b'hello' else s.v
        elif isinstance(s, Sy):
            b = steps(s.path)
        elif isinstance(s, O) and s.cls.name == 'Unavailable':
            b = 'unavailable'
        else:
            return None
        r[b] = m.or_(r.get(b, 0), g)
    return r


def steps(p):
    if p[:1] == ('undo',) and len(p) == 3:
        return ('undo', p[1], steps(p[2]))
    if p == ('k', 'bytes', b'hello'):
        return ('chunks',)
    return p


def show(F, f):
    m = F.I.m
    cubes, _ = isop(m, f, f)
    c = min(cubes, key=len)
    names = []
    for v, b in c:
        names.append(('' if b else 'not ') + str(m.atoms[v]))
    return ' and '.join(names) or 'always'


def run(ctx):
    F = Feed(ctx.model())
    I, m = F.I, F.I.m
    n = dict(shapes=0, obligations=0, discharged=0)
    skipped, why = 0, []
    for context in ('request', 'response', 'lone'):
        for (te, codings), (cl, length) in itertools.product(
                CODINGS, LENGTHS):
            if codings is not None and length not in (None, 'n', '!'):
                continue
            fields = [b'Transfer-Encoding: %s\r\n' % te.encode()] \
                if te else []
            fields += [b'Content-Length: %s\r\n' % x.encode()
                       for x in cl or []]
            start = 1 + len(fields) + 1
            if context == 'request':
                line, after = b'@1 /t HTTP/1.1\r\n', b'@2 /u HTTP/1.1\r\n'
            else:
                line, after = b'HTTP/1.1 001 x\r\n', b'HTTP/1.1 002 x\r\n'
            script = [line] + fields + [b'\r\n'] + BODY + [after, b'\r\n']
            s = (script, {start: start + len(BODY)})
            heading = b'@1 /t HTTP/1.1\r\n\r\n'
            if context == 'request':
                es = F.run(s, None)
            elif context == 'response':
                es = F.run(([b'@1 /t HTTP/1.1\r\n', b'\r\n'], {}), s)
            else:
                es = F.run(None, s)
            what = '%s with %s' % (
                {'request': 'a request', 'response': 'a response',
                 'lone': 'a response without request'}[context],
                ' and '.join(x.decode().strip() for x in fields) or
                'neither Transfer-Encoding nor Content-Length')
            if es is None or F.unsure():
                skipped += 1
                why.append((what, es is None, F.I.undecided[F.u0:][:1]))
                continue
            n['shapes'] += 1
            judge(ctx, F, n, context, es, what, codings, length, start, after)
    if n['shapes'] < 100:
        raise AnchorError('only %d shapes could be analysed (%d skipped: %r)' % (
            n['shapes'], skipped, why[::25]))
    ctx.cover(rule='the condition for each body, for each notice about it '
              'and for parsing to go on == RFC 7230 section 3.3.3', **n)


def judge(ctx, F, n, context, es, what, codings, length, start, after):
    I, m = F.I, F.I.m
    where = WHERE % ('requests' if context == 'request' else 'responses')
    want = expected(F, context, codings, length, start)
    msg, other = None, 0
    told = {}
    for g, req, resps, x in es:
        objs = [(h, o) for h, o in req if isinstance(o, O)] \
            if context == 'request' else resps
        for h, o in objs:
            if mark(I, o, context) == '1':
                if msg is None and h == 1:
                    msg = o
                elif o is not msg:
                    msg = False
            else:
                other = m.or_(other, h)
        if not resps and not any(isinstance(o, O) for _, o in req):
            for i, c in F.notices(x).items():
                told[i] = m.or_(told.get(i, 0), c)

    def bad(key, text, f):
        ctx.violation('%s/%s' % (what, key), where, '%s: %s when %s' % (
            what, text, show(F, f)))
    for x in I.faults:
        bad('raises', 'raises %s' % getattr(x[0], 'name', x[0]), 1)
    if not msg:
        ctx.violation('%s/lost' % what, where,
                      '%s is not read exactly once' % what)
        return
    n['obligations'] += 3
    bodies = actual(F, msg)
    if bodies is None:
        return
    fine = True
    for b in sorted(set(bodies) | set(want.bodies), key=str):
        d = m.xor(bodies.get(b, 0), want.bodies.get(b, 0))
        d = live(F, d)
        if d:
            fine = False
            m1 = m.and_(d, bodies.get(b, 0))
            bad('body', 'the body is %s%s' % (
                '' if m1 else 'not ', said(b)), m1 or d)
    n['discharged'] += fine
    fine = True
    got = {i: g for i, g in F.notices(msg).items()
           if i in (1001, 1002, 1003, 1004, 1005, 1011, 1012, 1027, 1298)}
    for i in sorted(set(got) | set(want.notices)):
        d = live(F, m.xor(got.get(i, 0), want.notices.get(i, 0)))
        if d:
            fine = False
            m1 = m.and_(d, got.get(i, 0))
            bad(i, 'notice %s is %sreported' % (i, '' if m1 else 'not '),
                m1 or d)
    n['discharged'] += fine
    # What follows is read as messages only after a body that was delimited.
    d = live(F, m.xor(other, want.goes_on))
    if d:
        m1 = m.and_(d, other)
        bad('next', 'what follows the body is %sread as messages' % (
            '' if m1 else 'not '), m1 or d)
    else:
        n['discharged'] += 1
    # Where there is no body, what follows is what would have been its start.
    i = 1006 if context == 'request' else 1009
    d = live(F, m.xor(told.get(i, 0), want.at_body))
    if d:
        m1 = m.and_(d, told.get(i, 0))
        bad('after', 'the data after the header is %sread as another message'
            % ('' if m1 else 'not '), m1 or d)


def live(F, d):
    """Conditions that can hold: sizes are not negative, and `small` or
    `large` numbers are what they are."""
    from ..terms import clauses
    m = F.I.m
    if d == 0:
        return 0
    # A length of 0 is a shape of its own.
    d = m.and_(d, F.I.compare('GtE', one(Sy(('n', 'n'), INT)), one(K(1))))
    seen = {m.atoms[v] for v in m.support(d)}
    for cl in clauses(sorted(seen, key=repr)):
        d = m.and_(d, m.disj([m.atom(a) if b else m.not_(m.atom(a))
                              for a, b in cl]))
    return d


def mark(I, o, context):
    v = o.attrs['method' if context == 'request' else 'status']
    s = None
    for g, x in v.alts:
        x = I.prim_of(x)
        if isinstance(x, Sy) and x.path[0] in ('method', 'status'):
            s = x.path[1].lstrip('0')
    return s


def said(b):
    if b == '':
        return 'empty'
    if isinstance(b, str):
        return b
    if b[0] == 'undo':
        return '%s, %s undone' % (said(b[2]), b[1])
    return {'chunks': 'what the chunks contain',
            'block': 'as long as Content-Length says',
            'rest': 'everything that follows'}.get(b[0], str(b))
