"""Abstract evaluation of httpolice.inputs.har on documents whose content is
known: json.load gives the document, and the exchanges the reader yields are
shown as plain values."""
import base64
import urllib.parse

from .model import SimpleContract
from .streams import Feed, const
from .values import DictV, K, ListV, NatV, O, TupV, one

PATH = '/d/x.har'


class Missing:

    def __repr__(self):
        return 'not known'


UNAVAILABLE, UNSURE = '(unavailable)', Missing()


class Parsed(SimpleContract):
    """What urlparse or urlsplit gives for a constant."""

    def __init__(self, r):
        self.r = r

    def path(self):
        return ('urlparse', self.r.geturl(), type(self.r).__name__)

    def truth(self, I):
        return 1

    def lift(self, I, x):
        if isinstance(x, str) or x is None or isinstance(x, int):
            return one(K(x))
        if isinstance(x, tuple):
            return one(Parsed(x)) if hasattr(x, 'geturl') else \
                one(TupV([one(K(y)) for y in x]))
        return I.unknown(('urlparse', str(x)))

    def getattr(self, I, name, default=None):
        try:
            x = getattr(self.r, name)
        except ValueError as e:             # port
            I.raise_named('ValueError', str(e), certain=True)
            return one(K(None))
        if callable(x):
            def f(I, a, kw):
                ks = {n: const(I, v) for n, v in kw.items()}
                return self.lift(I, x(*[const(I, v) for v in a], **ks))
            return one(NatV('url.' + name, f))
        return self.lift(I, x)

    def getitem(self, I, i):
        return self.lift(I, self.r[I.prim_of(i).v])

    def iterate(self, I):
        return [(1, one(K(x))) for x in self.r]


def url(name):
    def f(I, a, kw):
        x = const(I, a[0]) if len(a) == 1 and not kw else None
        if x is None:
            s = a[0].single() if a else None
            p = I.prim_of(s) if s is not None else None
            if isinstance(p, K) and p.v is None:
                return one(Parsed(getattr(urllib.parse, name)(b'')))
            if isinstance(p, K) or isinstance(s, (DictV, ListV)):
                # urlparse asks the value for `decode`
                I.raise_named('TypeError' if isinstance(p, K) and not p.v
                              else 'AttributeError', name, certain=True)
                return one(K(None))
            return None
        if isinstance(x, int):
            I.raise_named('AttributeError', name, certain=True)
            return one(K(None))
        try:
            return one(Parsed(getattr(urllib.parse, name)(x)))
        except ValueError as e:
            I.raise_named('ValueError', str(e), certain=True)
            return one(K(None))
    return f


class Hars(Feed):

    def __init__(self, M):
        Feed.__init__(self, M, symbolic=False)
        I = self.I
        I.import_module('httpolice.inputs')
        self.formats = M.global_('httpolice.inputs', 'formats')
        self.doc = None
        I.ext.update({
            'io.open': self.x_open, 'open': self.x_open,
            'json.load': self.x_load, 'json.loads': self.x_load,
            'base64.b64decode': self.x_b64,
        })
        for n in ('urlparse', 'urlsplit'):
            I.ext['urllib.parse.' + n] = url(n)

    def x_open(self, I, a, kw):
        p = const(I, a[0])
        if p != PATH:
            if p is not None:
                I.raise_named('FileNotFoundError', p, certain=True)
            return None
        f = O(self.flat, {})
        I.call_method(f, '__init__', [one(K(b'{}'))])
        return one(f)

    def x_load(self, I, a, kw):
        if isinstance(self.doc, Exception):
            I.raise_named(type(self.doc).__name__, str(self.doc),
                          certain=True)
            return one(K(None))
        return self.lift(self.doc)

    def x_b64(self, I, a, kw):
        x = const(I, a[0]) if len(a) == 1 and not kw else None
        if not isinstance(x, (str, bytes)):
            s = a[0].single()
            p = I.prim_of(s) if s is not None else None
            if isinstance(p, K) or isinstance(s, (DictV, ListV)):
                I.raise_named('TypeError', 'b64decode', certain=True)
                return one(K(None))
            return None
        try:
            return one(K(base64.b64decode(x)))
        except ValueError as e:
            I.raise_named('binascii.Error' if 'ascii' not in str(e)
                          else 'ValueError', str(e), certain=True)
            return one(K(None))

    def lift(self, x):
        I = self.I
        if isinstance(x, dict):
            d = DictV()
            for a, b in x.items():
                I.setitem(one(d), one(K(a)), self.lift(b))
            return one(d)
        if isinstance(x, list):
            return one(ListV('list', [(1, self.lift(y)) for y in x]))
        return one(K(x))

    # -- reading -------------------------------------------------------------
    def read(self, doc):
        """('error', exception, text), [exchange] or None"""
        I = self.I
        I.pc, I.steps, I.while_limit = 1, 0, 200
        del self.M.events[:]
        del I.faults[:]
        self.doc = doc
        self.u0 = len(I.undecided)
        f = I.getitem(self.formats if not isinstance(self.formats, O) and
                      hasattr(self.formats, 'alts') else one(self.formats),
                      one(K('har')))
        v = I.call(f, [one(ListV('list', [(1, one(K(PATH)))]))], {})
        if I.faults:
            x = I.faults[0]
            return ('error', x[0], x[1]) if x[2] == 1 else None
        s = v.single()
        if not isinstance(s, ListV) or s.opaque is not None:
            return None
        out = []
        for g, e in s.entries:
            x = e.single()
            if g != 1 or not isinstance(x, O):
                return None
            out.append(x)
        return out

    def shown(self, x):
        req = x.attrs['request'].single()
        resps = x.attrs['responses'].single()
        return (self.message(req, ('scheme', 'method', 'target')),
                [self.message(r.single(), ('status', 'reason'))
                 for g, r in resps.entries if g])

    def message(self, x, names):
        I = self.I
        if not isinstance(x, O):
            return None
        d = {}
        for n in names + ('version', 'body', 'decoded_body', 'unicode_body',
                          'remark'):
            d[n] = self.plain(I.getattr(one(x), n))
        if 'method' in names:
            d['is_to_proxy'] = self.plain(I.getattr(one(x), 'is_to_proxy'))
        hs = []
        for g, e in x.attrs['header_entries'].single().entries:
            hs.append((self.plain(I.getattr(e, 'name')),
                       self.plain(I.getattr(e, 'value'))))
        d['header_entries'] = hs
        return d

    def plain(self, v):
        s = v.single()
        p = self.I.prim_of(s) if s is not None else None
        if isinstance(p, K):
            return p.v
        if isinstance(s, O) and s.cls.name == 'Unavailable':
            return UNAVAILABLE
        if isinstance(s, (DictV, ListV)):
            return [s]
        return UNSURE
