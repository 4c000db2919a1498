"""Abstract evaluation of httpolice.framing1 on streams whose lines are known
but whose methods, status codes, lengths and contents are symbolic.

The real Stream reads a scripted file; the method `@i` of a request line and
the status code `0ii` of a status line become symbols (what Method() and
StatusCode() return for them); in header fields `<n>` is a symbolic number;
fields are parsed by the semantic actions of the grammar (derive.py)."""
import os
import re

from .headval import Words
from .model import INT, STR, SimpleContract
from .values import DictV, K, ListV, NatV, O, Sy, TupV, one, NONE

BYTES = ('prim', 'bytes')

HERE = os.path.dirname(os.path.abspath(__file__))
STRUCT = 'httpolice.structure:'


def const(I, v):
    s = v.single()
    s = I.prim_of(s) if s is not None else None
    return s.v if isinstance(s, K) and isinstance(s.v, (str, bytes, int)) \
        else None


def table(I, x):
    d = DictV()
    for a, b in x.items():
        I.setitem(one(d), one(K(a)), one(K(b)))
    return one(d)


class Found(SimpleContract):
    """The match of a constant."""

    def __init__(self, mo):
        self.mo = mo

    def path(self):
        return ('match', str(self.mo.re.pattern), str(self.mo.string))

    def truth(self, I):
        return 1

    def getattr(self, I, name, default=None):
        def f(I, a, kw):
            r = getattr(self.mo, name)(*[const(I, x) for x in a])
            return one(TupV([one(K(x)) for x in r])) \
                if isinstance(r, tuple) else one(K(r))
        return one(NatV('match.' + name, f))

    def getitem(self, I, i):
        return one(K(self.mo[I.prim_of(i).v]))


class Regex(SimpleContract):
    """A compiled constant regular expression."""

    def __init__(self, rx):
        self.rx = rx

    def path(self):
        return ('regex', self.rx.pattern)

    def truth(self, I):
        return 1

    def getattr(self, I, name, default=None):
        if name in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
            return one(NatV('re.' + name, lambda I, a, kw: matching(
                I, name, self.rx, a)))
        return I.unknown(('regex', self.rx.pattern, name))


def matching(I, name, rx, a):
    def go(s):
        xs = [const(I, x) for x in a[:-1]] + [const(I, one(s))]
        if None in xs or type(xs[-1]) is not type(rx.pattern):
            return I.unknown(('re', name, str(rx.pattern)) + tuple(
                I.vpath(x) for x in a[:-1]) + (I.pathof(s),))
        r = getattr(rx, name)(*xs)
        if r is None or isinstance(r, (str, bytes)):
            return one(K(r))
        if isinstance(r, list):
            return one(ListV('list', [(1, one(K(x))) for x in r]))
        return one(Found(r))
    return I.split(a[-1], go)


def regexes(I):
    """Evaluate regular expressions on constants."""
    flags = {'re.' + n: getattr(re, n) for n in (
        'I', 'IGNORECASE', 'A', 'ASCII', 'X', 'VERBOSE', 'S', 'DOTALL')}

    def compiled(I, a, kw):
        xs = [const(I, x) for x in a]
        if len(xs) != 1 or xs[0] is None or kw:
            return None
        return one(Regex(re.compile(xs[0])))

    def direct(name):
        def f(I, a, kw):
            rx = a[0].single() if a else None
            rx = rx.rx if isinstance(rx, Regex) else None
            if rx is None and a and const(I, a[0]) is not None:
                rx = re.compile(const(I, a[0]))
            if rx is None or len(a) != (3 if name == 'sub' else 2) or kw:
                return None
            return matching(I, name, rx, a[1:])
        return f
    I.ext['re.compile'] = compiled
    for n in ('match', 'search', 'fullmatch', 'sub'):
        I.ext['re.' + n] = direct(n)


class Feed(Words):

    def __init__(self, M, symbolic=True):
        Words.__init__(self, M)
        I = self.I
        regexes(I)
        I.import_module('httpolice.stream')
        I.import_module('httpolice.framing1')
        self.parse_streams = M.global_('httpolice.framing1', 'parse_streams')
        self.stream = M.global_('httpolice.stream', 'Stream')
        mod = I.load('bytefile', os.path.join(HERE, 'stubs', 'bytefile.py'))
        self.file = mod.ns['File'].single()
        self.flat = mod.ns['Flat'].single()
        mod.ns['bytefile_kind'] = one(NatV('kind', self.kind))
        mod.ns['bytefile_rest'] = one(NatV('rest', self.rest))
        mod.ns['bytefile_block'] = one(NatV('block', self.block))
        for n in ('Method', 'StatusCode') if symbolic else ():
            I.class_intercepts[STRUCT + n] = getattr(self, 'i_' + n)
        for n in ('gzip', 'deflate'):
            I.intercepts['httpolice.codings:decode_' + n] = self.decoder(n)

    # -- stand-ins -----------------------------------------------------------
    def kind(self, I, a, kw):
        def go(s):
            s = I.prim_of(s)
            if isinstance(s, K):
                return one(K('all' if s.v is None or s.v < 0 else
                             'const' if s.v else 'none'))
            return one(K('some'))
        return I.split(a[0], go)

    def rest(self, I, a, kw):
        role = a[0].single().label
        return I.split(a[1], lambda s: one(Sy(
            ('rest', role, I.prim_of(s).v), BYTES)))

    def block(self, I, a, kw):
        role = a[0].single().label
        return I.split(a[1], lambda s: one(Sy(
            ('block', role, I.prim_of(s).v), BYTES)))

    def real(self, I, cls, args, kwargs):
        name = STRUCT + cls.name
        h = I.class_intercepts.pop(name)
        try:
            return I.call(one(cls), args, kwargs)
        finally:
            I.class_intercepts[name] = h

    def sym(self, I, cls, args, kwargs, pattern, what, ty):
        v = args[0] if args else list(kwargs.values())[0]

        def go(s):
            p = I.prim_of(s)
            if isinstance(p, K) and isinstance(p.v, (str, int)):
                mo = re.match(pattern, str(p.v))
                if mo:
                    s = Sy((what, mo[1]), ty)
            return self.real(I, cls, [one(s)], {})
        return I.split(v, go)

    def i_Method(self, I, cls, args, kwargs):
        return self.sym(I, cls, args, kwargs, r'@(\d)$', 'method', STR)

    def i_StatusCode(self, I, cls, args, kwargs):
        return self.sym(I, cls, args, kwargs, r'0?(\d\d)$', 'status', INT)

    def decoder(self, n):
        def f(I, fn, args, kwargs):
            v = args[0] if args else list(kwargs.values())[0]
            bad = I.atom('bad', n)
            return I.split(v, lambda s: self.undo(I, n, s))
        return f

    def undo(self, I, n, s):
        p = (n, I.pathof(s))
        bad = I.atom('corrupt', p)
        pc0 = I.pc
        r = one(Sy(('undo',) + p, BYTES))
        I.pc = I.m.and_(pc0, bad)
        if I.pc:
            I.raise_named('zlib.error', 'corrupt data', certain=True)
        I.pc = I.m.diff(pc0, bad)
        return r

    def word_of(self, I, d):
        p = I.prim_of(d)
        if isinstance(p, K) and isinstance(p.v, (bytes, str)):
            t = p.v.decode('iso-8859-1') if isinstance(p.v, bytes) else p.v
            mo = re.match(r'^<(\w+)>$', t)
            if mo:
                return [('s', 'Content-Length', one(Sy(('n', mo[1]), INT)),
                         '5')]
        return Words.word_of(self, I, d)

    # -- running -------------------------------------------------------------
    def i_complain(self, I, f, args, kwargs):
        n0 = len(self.M.events)
        r = self.M.i_complain(I, f, args, kwargs)
        for e in self.M.events[n0:]:
            e.obj = args[0].alts[0][1]
        return r

    def make(self, role, script):
        I = self.I
        if isinstance(script, bytes):
            f = O(self.flat, {})
            a = [one(K(script))]
        else:
            f = O(self.file, {})
            a = [one(ListV('list', [(1, one(K(x))) for x in script[0]])),
                 table(I, script[1])]
        f.label = role
        I.call_method(f, '__init__', a)
        return I.call(one(self.stream), [one(f)], {'name': one(K(role))})

    def run(self, inbound, outbound, scheme='http'):
        """The exchanges: [(guard, request or None, [(guard, response)],
        object)]; None if they are not a plain sequence."""
        I = self.I
        m = I.m
        I.pc = 1
        I.steps = 0
        del self.M.events[:]
        del I.faults[:]
        self.u0 = len(I.undecided)
        I.while_limit = 40
        I.intercepts['httpolice.blackboard:Blackboard.complain'] = \
            self.i_complain
        a = []
        for role, s in (('in', inbound), ('out', outbound)):
            a.append(NONE if s is None else self.make(role, s))
        v = I.call(one(self.parse_streams), a + [one(K(scheme))], {})
        out = []
        for g, s in v.alts:
            if g == 0:
                continue
            if not isinstance(s, ListV) or s.opaque is not None:
                return None
            for g2, e in s.entries:
                for g3, x in e.alts:
                    if not isinstance(x, O):
                        continue
                    gg = m.conj([g, g2, g3])
                    if gg == 0:
                        continue
                    resps = []
                    for g4, l in x.attrs['responses'].alts:
                        if m.and_(gg, g4) == 0:
                            continue
                        if not isinstance(l, ListV) or l.opaque is not None:
                            return None
                        for g5, r in l.entries:
                            for g6, y in r.alts:
                                h = m.conj([gg, g4, g5, g6])
                                if h and isinstance(y, O):
                                    resps.append((h, y))
                    req = [(m.and_(gg, g4), y)
                           for g4, y in x.attrs['request'].alts
                           if m.and_(gg, g4)]
                    out.append((gg, req, resps, x))
        return out

    def notices(self, o):
        """{identifier: condition} of what was reported on an object."""
        r = {}
        for e in self.M.events:
            if e.obj is o and e.guard:
                r[e.id] = self.I.m.or_(r.get(e.id, 0), e.guard)
        return r

    def unsure(self):
        """What the last run left undecided."""
        return [u for u in self.I.undecided[self.u0:]
                if not str(u[1][0] if isinstance(u[1], tuple) else '')
                .endswith('header.py')]
