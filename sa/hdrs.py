"""Abstract evaluation of httpolice.header on field lists of every shape.

The lists of header and trailer fields are concrete in length, and each
field's parse result is one of the kinds a grammar can produce (malformed,
a list of n elements, a single value); everything inside is symbolic."""
from .model import Event, AnchorError, make_response, make_request
from .values import K, B, Sy, O, V, one, NONE, ListV, TupV, DictV


STR, BYTES, INT = ('prim', 'str'), ('prim', 'bytes'), ('prim', 'int')
BOTTOM = ('raises',)


class Hdr:

    def __init__(self, M):
        self.M, self.I = M, M.I
        I = self.I
        self.saved = dict(I.intercepts)
        I.intercepts['httpolice.blackboard:Blackboard.complain'] = \
            M.i_complain
        I.intercepts['httpolice.parse:parse'] = self.i_parse
        self.out = {}
        self.parsed = []
        self.he = M.cls('HeaderEntry')
        self.un = M.cls('Unavailable')
        I.pc = 1
        self.msg = make_response(M, 'resp')

    # -- parser stand-in ------------------------------------------------------
    def i_parse(self, I, f, args, kwargs):
        kwargs = dict(kwargs)
        names = ['data', 'symbol', 'complain', 'fail_notice_id',
                 'annotate_classes']
        b = dict(zip(names, args))
        for n in names:
            if n in kwargs:
                b[n] = kwargs.pop(n)
        d = b['data'].single()
        path = I.pathof(d) if d is not None else None
        sym = b['symbol'].single()
        self.parsed.append((path, self.M.symname(sym)
                            if isinstance(sym, O) else None))
        if path not in self.out:
            raise AnchorError('parse() of an unexpected value %r' % (path,))
        r = self.out[path]
        if r is BOTTOM:
            kw = dict(kwargs)
            kw['error'] = one(Sy(('exc', 'ParseError', path),
                                 ('exc', 'ParseError')))
            I.call(b['complain'], [b['fail_notice_id']], kw)
            r = self.unav(b['data'])
        a = b.get('annotate_classes')
        a = a.single() if a is not None else K(None)
        if isinstance(a, K) and not a.v:
            return r
        return one(TupV([r, one(Sy(('annotated', path), ('list', ('any',))))]))

    def unav(self, inner=NONE):
        return self.I.call(one(self.un), [inner], {})

    def entry(self, name, i):
        return self.I.call(one(self.he), [one(K(name)),
                                          one(Sy(('ev', i), BYTES))], {})

    # -- one message ------------------------------------------------------------
    def begin(self, entries):
        """entries: list of (name, in_trailer, outcome V or BOTTOM)."""
        I = self.I
        I.pc = 1
        I.steps = 0
        self.out.clear()
        del self.parsed[:]
        del self.M.events[:]
        del I.faults[:]
        self.u0 = len(I.undecided)
        hs, ts = [], []
        self.es = []
        for i, (name, tr, out) in enumerate(entries):
            e = self.entry(name, i)
            self.es.append(e)
            (ts if tr else hs).append((1, e))
            self.out[('ev', i)] = out
        m = self.msg
        m.attrs['header_entries'] = one(ListV('list', hs))
        m.attrs['trailer_entries'] = one(ListV('list', ts))
        m.attrs['annotations'] = one(DictV())
        I.call_method(m, 'rebuild_headers', [])
        if not isinstance(m.attrs.get('headers', NONE).single(), O):
            raise AnchorError('Message.rebuild_headers sets no headers')

    def view(self, name):
        I = self.I
        key = I.call(one(self.M.cls('FieldName')), [one(K(name))], {})
        return I.getitem(self.msg.attrs['headers'], key)

    def get(self, f):
        """Evaluate; a raised exception becomes ('raises', names)."""
        I = self.I
        n = len(I.faults)
        I.pc = 1
        v = f()
        if I.pc != 1 or len(I.faults) > n:
            I.pc = 1
            ex = sorted({str(getattr(x[0], 'name', x[0]))
                         for x in I.faults[n:]})
            del I.faults[n:]
            return ('raises', tuple(ex))
        return v

    # -- canonical form -----------------------------------------------------------
    def norm(self, v):
        if isinstance(v, (tuple, str, int, type(None))):
            return v
        I = self.I
        alts = [(g, s) for g, s in v.alts if g]
        if len(alts) != 1:
            return ('ite', tuple(sorted((g, self.norm(one(s)))
                                        for g, s in alts)))
        s = alts[0][1]
        if isinstance(s, K):
            return ('k', s.v) if not isinstance(s.v, (list, dict)) else s.v
        if isinstance(s, B):
            return ('b', s.b) if s.b > 1 else ('k', bool(s.b))
        if isinstance(s, Sy):
            return s.path
        if isinstance(s, ListV):
            r = []
            for g, x in s.entries:
                if g == 0:
                    continue
                n = self.norm(x)
                r.append(n if g == 1 else ('if', g, n))
            return ('list', tuple(r))
        if isinstance(s, TupV):
            return ('tuple', tuple(self.norm(x) for x in s.items))
        if isinstance(s, O):
            if s.cls.name == 'Unavailable':
                return ('unav', self.norm(s.attrs.get('inner', NONE)))
            if s.prim is not None:
                p = s.prim.single()
                if s.cls is self.he:
                    return ('entry', self.norm(p.items[1])
                            if isinstance(p, TupV) else None)
                if isinstance(p, TupV):
                    return ('tuple', tuple(self.norm(x) for x in p.items))
                return self.norm(s.prim)
            if s.cls.name == 'MultiDict':
                return ('md', self.norm(s.attrs['sequence']))
            return ('o', s.cls.name)
        return ('?', repr(s))

    def events(self):
        r = []
        for e in self.M.events:
            kw = {n: self.norm(v) for n, v in e.kwargs.items()
                  if n not in ('error',)}
            r.append((e.id, e.guard, kw))
        return r

    def undecided(self):
        return self.I.undecided[self.u0:]
