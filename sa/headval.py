"""Abstract evaluation of header views on words: the fields of a message hold
constant text with symbolic leaves, parse() is replaced by the evaluation of
semantic actions over derivations (derive.py), and the views of
httpolice.header are interpreted on the results.

Word notation: text, with {symbol:name} for a symbolic leaf (anything the
grammar symbol matches) and {symbol:name=example} to give an example spelling;
␉ is a tab, and a field name prefixed with ~ is a trailer field."""
import re

from .derive import Derive
from .extlib import const_date
from .hdrs import Hdr, STR, BYTES
from .model import AnchorError
from .values import K, B, Sy, O, V, one, NONE, ListV, TupV, DictV

LEAF = re.compile(r'\{([^:{}]+):([^={}]+)(?:=([^{}]*))?\}')
EXAMPLE = {'token': 'abc', 'quoted-string': '"abc"', 'URI-reference': 'a/b',
           'field-name': 'Abc', 'method': 'ABC'}


def parse_word(text, as_bytes=False):
    out, pos = [], 0
    text = text.replace('␉', '\t')
    for mo in LEAF.finditer(text):
        out += list(text[pos:mo.start()])
        sym, name, ex = mo.groups()
        out.append(('s', sym, one(Sy((name,), STR)),
                    ex if ex is not None else EXAMPLE[sym]))
        pos = mo.end()
    return out + list(text[pos:])


def spelled(word):
    return ''.join(w if isinstance(w, str) else w[3] for w in word)


class Words(Hdr):

    def __init__(self, M):
        Hdr.__init__(self, M)
        self.words = {}
        self.ambiguous = []
        self.memo = {}

    def i_parse(self, I, f, args, kwargs):
        kwargs = dict(kwargs)
        names = ['data', 'symbol', 'complain', 'fail_notice_id',
                 'annotate_classes']
        b = dict(zip(names, args))
        for n in names:
            if n in kwargs:
                b[n] = kwargs.pop(n)
        a = b.get('annotate_classes', NONE).single()

        def go(s):
            return I.split(b['data'], lambda d: self.parse1(
                I, d, s, b.get('complain', NONE),
                b.get('fail_notice_id', NONE), kwargs))
        r = I.split(b['symbol'], go)
        if isinstance(a, K) and not a.v:
            return r
        return one(TupV([r, one(Sy(('annotated',), ('list', ('any',))))]))

    def word_of(self, I, d):
        p = I.pathof(d)
        if p in self.words:
            return self.words[p]
        d = I.prim_of(d)
        if isinstance(d, K) and isinstance(d.v, bytes):
            return list(d.v.decode('iso-8859-1'))
        if isinstance(d, K) and isinstance(d.v, str):
            return list(d.v)
        return None

    def parse1(self, I, d, s, complain, fail, extra):
        w = self.word_of(I, d)
        if w is None or not isinstance(s, O):
            return self.M.parse1(I, d, s, complain, fail, NONE, extra)
        key = (id(s), tuple(x if isinstance(x, str) else
                            ('s', x[1], x[3], I.pathof(x[2].alts[0][1]))
                            for x in w))
        rs = self.memo.get(key)
        if rs is None:
            saved = I.pc, I.steps
            rs = self.memo[key] = Derive(self.M).evaluate(s, w)
            I.pc, I.steps = saved
        if not rs:
            fs = fail.single()
            if isinstance(fs, K) and fs.v is None:
                return self.M.parse1(I, d, s, complain, fail, NONE, extra)
            kw = dict(extra)
            kw['error'] = one(Sy(('exc', 'ParseError'),
                                 ('exc', 'ParseError')))
            I.call(complain, [fail], kw)
            return self.unav(one(d))
        v, comp, faults = rs[0]
        for x in faults:
            I.faults.append(x)
        pc0 = I.pc
        for nid, g, kw in comp:
            c = complain.single()
            if isinstance(c, K) and c.v is None:
                continue
            I.pc = I.m.and_(pc0, g)
            if I.pc:
                kk = dict(kw)
                kk.update(extra)
                I.call(complain, [one(K(nid))], kk)
        I.pc = pc0
        if v is None:
            I.pc = 0
            return NONE
        return v

    def entry(self, name, i):
        return self.I.call(one(self.he), [
            one(K(name)), one(Sy(('ev', i), BYTES))], {})

    def load(self, name, fields):
        """fields: list of words (text); returns the value of the view of
        `name` over them, rendered, and the sorted notices."""
        name, _, year = name.partition('@')
        self.I.today = (int(year or 2026), 6, 15)
        self.words.clear()
        es = []
        for i, t in enumerate(fields):
            tr = t.startswith('~~')
            w = parse_word(t[2:] if tr else t)
            self.words[('ev', i)] = w
            es.append((name, tr, NONE))
        self.begin(es)
        # begin() may have had views built: start from their absence.
        view = self.view(name)
        v = self.get(lambda: self.I.getattr(view, 'value'))
        out = []
        for e in self.M.events:
            if e.guard == 0:
                continue
            out.append(str(e.id) if e.guard == 1 else '?%s' % e.id)
        return self.render(v), sorted(out)

    def render(self, v):
        I = self.I
        if isinstance(v, tuple) and v and v[0] == 'raises':
            return '!' + ','.join(v[1])
        alts = [(g, s) for g, s in v.alts if g]
        if len(alts) != 1:
            return 'ite(%s)' % ', '.join(sorted(
                self.render(one(s)) for g, s in alts))
        return self.render1(alts[0][1])

    def render1(self, s):
        if isinstance(s, K):
            return repr(s.v) if not hasattr(s.v, 'isoformat') \
                else s.v.isoformat()
        if isinstance(s, B):
            return str(bool(s.b)) if s.b in (0, 1) else '?bool'
        if isinstance(s, Sy):
            return self.path(s.path)
        if isinstance(s, ListV):
            return '[%s]' % ', '.join(
                ('' if g == 1 else '?') + self.render(x)
                for g, x in s.entries if g)
        if isinstance(s, TupV):
            return '(%s)' % ', '.join(self.render(x) for x in s.items)
        if isinstance(s, O):
            n = s.cls.name
            if n == 'Unavailable':
                x = s.attrs.get('inner', NONE).single()
                if isinstance(x, Sy) and x.path not in self.words:
                    return 'Unavailable(...)'
                return 'Unavailable(%s)' % self.render(
                    s.attrs.get('inner', NONE))
            if s.prim is not None:
                p = s.prim.single()
                if isinstance(p, TupV):
                    return '%s(%s)' % (n, ', '.join(self.render(x)
                                                    for x in p.items))
                return '%s(%s)' % (n, self.render(s.prim))
            if n == 'MultiDict':
                return 'MultiDict(%s)' % self.render(s.attrs['sequence'])
            return n
        return '?' + type(s).__name__

    def path(self, p):
        if isinstance(p, tuple) and p and p[0] == 'ev' and len(p) == 2 and \
                p in self.words:
            return '<%s>' % spelled(self.words[p])
        d = const_date(p)
        if d is not None and d is not ValueError:
            return d.isoformat()
        if isinstance(p, tuple) and len(p) == 1:
            return '{%s}' % (p[0],)
        return '{%s}' % (p,)
