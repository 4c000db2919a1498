"""Reports are safe to show: for everything that either report writes, the
characters it may contain are computed from how it was made from the input --
no control or unprintable character, no unescaped markup, one line a notice."""
import re
try:
    from re import _parser as sre_parse
except ImportError:                             # Python < 3.11
    import sre_parse

from ..model import AnchorError, STR, make_request, make_response
from ..reports import Rendering
from ..rules import run_exchange
from ..values import DictV, K, ListV, O, Sy, TupV, V, one
from .c01 import Obligations, PAYLOAD
from .values import table

LEVEL = 'other'
ASSUMES = (
    'dominate escapes the text and attributes it is given',
    'the tab is not a control character here',
)

LF, CR = 10, 13
NL = -1             # a line feed of a constant
OWN = frozenset([NL])
BAD = frozenset(
    [c for c in range(0x20) if c != 9] + list(range(0x7F, 0xA0)) +
    list(range(0xD800, 0xE000)) + list(range(0xFDD0, 0xFDF0)) +
    [0xFFFE, 0xFFFF])
BREAKS = frozenset([LF, CR])
NONE_BAD = frozenset()
SAFE_CASE = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title',
             'capitalize', 'swapcase', 'casefold', 'split', 'rsplit',
             'partition', 'rpartition', 'splitlines', 'expandtabs')


class Chars:
    """Which of the bad characters a value may contain."""

    def __init__(self, I, known, sinks):
        self.I = I
        self.known = known              # characters of what tables hold
        self.sinks = sinks
        self.memo = {}
        self.safe = {}                  # what has been looked at separately
        self.pats = {}

    def value(self, v, g0=1):
        r = NONE_BAD
        for g, s in v.alts:
            c = self.scalar(s)
            if c and g not in (0, 1):
                for q in self.equal(g, self.I.pathof(s)):
                    c = c & self.path(q)
            r |= c
        return r

    def equal(self, g, p):
        """What the value is equal to under the condition."""
        m = self.I.m
        for a in m.support_atoms(g):
            if a[0] != 'eq':
                continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if (x == p or x[0] == 'union' and p in x[1:]) and \
                        m.and_(g, m.not_(m.atom(a))) == 0:
                    yield y

    def scalar(self, s):
        I = self.I
        if isinstance(s, K):
            return self.const(s.v)
        if isinstance(s, Sy) and s.ty[0] == 'prim' and s.ty[1] in (
                'int', 'float', 'bool', 'datetime', 'date'):
            return NONE_BAD
        if isinstance(s, (ListV, TupV)):
            r = NONE_BAD
            for x in (s.entries if isinstance(s, ListV) else s.items):
                x = x[-1] if isinstance(x, tuple) else x
                r |= self.value(x)
            return r
        if isinstance(s, O) and s.prim is None:
            return BAD
        return self.path(I.pathof(s))

    def const(self, c):
        if isinstance(c, bytes):
            c = c.decode('latin-1')
        if isinstance(c, str):
            return frozenset(NL if x == '\n' else ord(x)
                             for x in c) & (BAD | OWN)
        return NONE_BAD

    def path(self, p):
        try:
            return self.memo[p]
        except KeyError:
            pass
        r = self.memo[p] = self.path1(p)
        return r

    def path1(self, p):
        if not isinstance(p, tuple) or not p:
            return BAD
        if p in self.safe:
            return self.safe[p]
        h = p[0]
        if h == 'k':
            return self.const(p[-1])
        if h == 'str' or h == 'repr':
            return self.path(p[1])
        if h in ('len', 'id', 'int', 'ord', 'hash'):
            return NONE_BAD
        if h == 'fmt':
            return self.formatted(p)
        if h == 'in' and p[-1] == 'status':
            return NONE_BAD
        if h == 'a' and p[-1] == 'name' and p[1][:2] == (
                'lib', 'codecs.lookup'):
            return NONE_BAD
        if h == 'op' and p[1] in ('Add', 'Mod', 'Mult'):
            return self.union(p[2:])
        if h == 'slice':
            return self.path(p[1])
        if h in ('union',):
            return self.union(p[1:])
        if h in ('some', 'e', 'i', 'the'):
            return self.path(p[1])
        if h == 'lib' and p[1] == 're.sub':
            return self.resub(dict((x[0], x[1]) for x in p[2:]
                                   if isinstance(x, tuple) and len(x) == 2),
                              p)
        if h == 'm':
            return self.method(p)
        if h == 'lk':
            return self.known
        if h == 'a':
            return self.known if p[-1] in ('title', 'url', 'name') and \
                fixed(p[1]) else BAD
        if h == 'buf':
            b = self.sinks.bufs.get(p[1])
            if b is None:
                return BAD
            r = NONE_BAD
            for g, v in b[1]:
                r |= self.value(v)
            return r
        if h == 't' or h == 'l':
            return self.union(p[1:])
        return BAD

    def union(self, ps):
        r = NONE_BAD
        for q in ps:
            # elements of a list with their conditions: (guard, path)
            if isinstance(q, tuple) and len(q) == 2 and \
                    isinstance(q[0], tuple) and (not q[0] or
                                                 isinstance(q[0][0], tuple)):
                q = q[1]
            r |= self.path(q)
        return r

    def formatted(self, p):
        if p[1][0] == 'k' and len(p) == 3 and isinstance(p[1][-1], str):
            args = p[2][1:] if p[2][:1] == ('t',) else (p[2],)
            specs = re.findall(r'%[-+ #0-9.]*([a-zA-Z])',
                               p[1][-1].replace('%%', ''))
            if len(specs) == len(args):
                return self.union([p[1]] + [
                    a for f, a in zip(specs, args) if f in 'sra'])
        return self.union(p[1:])

    def resub(self, kw, p):
        pat, repl, s = kw.get('pattern'), kw.get('repl'), kw.get('string')
        rest = [x for x in p[2:] if not (
            isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and
            x[0] in ('pattern', 'repl', 'string'))]
        if pat is None and len(rest) == 3:
            pat, repl, s = rest
            rest = []
        if None in (pat, repl, s):
            return BAD
        r = self.path(s)
        if pat[0] != 'k':
            return BAD
        if not rest and repl[0] == 'k' and isinstance(repl[-1], str):
            r = r - self.matched(pat[-1])
            return r | self.const(repl[-1])
        return r | self.path(repl)

    def matched(self, pat):
        """Characters that re.sub with this pattern always replaces."""
        if pat not in self.pats:
            try:
                t = list(sre_parse.parse(pat))
                if len(t) == 1 and str(t[0][0]) == 'MAX_REPEAT' and \
                        t[0][1][0] == 1:
                    t = list(t[0][1][2])
                if len(t) == 1 and str(t[0][0]) == 'SUBPATTERN':
                    t = list(t[0][1][-1])
                ok = len(t) == 1 and str(t[0][0]) in (
                    'IN', 'LITERAL', 'NOT_LITERAL', 'ANY')
                rx = re.compile(pat)
            except Exception:
                ok = False
            self.pats[pat] = frozenset(
                c for c in BAD | OWN if rx.fullmatch(
                    '\n' if c == NL else chr(c))) if ok else NONE_BAD
        return self.pats[pat]

    def method(self, p):
        n = p[1]
        if n == 'replace':
            r = self.path(p[2])
            a, b = p[3], p[4]
            if a[0] == 'k' and b[0] == 'k' and isinstance(a[-1], str):
                if len(a[-1]) == 1 and len(p) == 5:
                    r = r - frozenset([ord(a[-1])]) - \
                        (OWN if a[-1] == '\n' else NONE_BAD)
                return r | self.const(b[-1])
            return r | self.path(b)
        if n in SAFE_CASE:
            return self.path(p[2])
        if n in ('join', 'format', 'ljust', 'rjust', 'center', 'zfill'):
            return self.union(p[2:])
        return BAD


    # -- lines ------------------------------------------------------------------
    def breaks(self, p):
        """How many line feeds a text has, or None."""
        if p[0] == 'k':
            return {p[-1].count('\n') if isinstance(p[-1], str) else 0}
        if not self.path(p) & (OWN | BREAKS):
            return {0}
        if p[0] == 'buf':
            r = {0}
            for g, v in self.sinks.bufs[p[1]][1]:
                c = self.alts(v)
                if c is None:
                    return None
                r = {a + b for a in r for b in c | ({0} if g != 1 else set())}
            return r
        if p[0] == 'union':
            r = set()
            for q in p[1:]:
                c = self.breaks(q)
                if c is None:
                    return None
                r |= c
            return r
        if p[0] in ('fmt', 't') or p[:2] == ('op', 'Add'):
            r = {0}
            for q in p[2 if p[0] == 'op' else 1:]:
                c = self.breaks(q)
                if c is None:
                    return None
                r = {a + b for a in r for b in c}
            return r
        return None

    def alts(self, v):
        r = set()
        for g, s in v.alts:
            c = self.breaks(self.I.pathof(s))
            if c is None:
                return None
            r |= c
        return r

    def ends(self, p):
        """Whether a text ends its line, for sure."""
        if p[0] == 'k':
            return p[-1].endswith('\n') or p[-1] == ''
        if p[0] == 'union':
            return all(self.ends(q) for q in p[1:])
        if p[:2] == ('op', 'Add'):
            return self.ends(p[3]) and (p[3][0] != 'buf' or self.ends(p[2]))
        if p[0] == 'fmt' and p[1][0] == 'k' and len(p) == 3:
            f = p[1][-1]
            if f.endswith('%s') and p[2][0] == 't' and len(p[2]) > 1:
                return self.ends(p[2][-1])
            return f.endswith('\n')
        if p[0] == 'fmt':
            return self.ends(p[-1])
        if p[0] == 'buf':
            return all(self.ends(self.I.pathof(s))
                       for g, v in self.sinks.bufs[p[1]][1]
                       for _, s in v.alts)
        return False


def fixed(p):
    """Whether a value is made of constants, the tables and the grammar."""
    if not isinstance(p, tuple) or not p:
        return not isinstance(p, tuple)
    h = p[0]
    if h in ('k', 'lk', 'exc', 'len', 'id'):
        return True
    if h in ('a', 'e', 'i', 'some', 'the', 'str', 'slice'):
        return fixed(p[1])
    if h in ('fmt', 'op', 'm', 't', 'union', 'l', 'lib'):
        return all(fixed(q) for q in p[1:])
    return False


def tables(M):
    """The bad characters in what the tables and the grammar hold."""
    I = M.I
    seen, n = set(), 0

    def put(s):
        nonlocal n
        if isinstance(s, DictV):
            for e in list(s.entries.values()):
                for v in (e[0], e[2]):
                    for _, x in v.alts:
                        put(x)
            return
        if isinstance(s, O):
            if s.prim is not None:
                put(I.prim_of(s))
            for f in ('title', 'url', 'name', 'citation'):
                if f in s.attrs:
                    for _, x in s.attrs[f].alts:
                        put(x)
            return
        if isinstance(s, K) and isinstance(s.v, str):
            n += 1
            seen.update(c for c in map(ord, s.v) if c in BAD)
    know = M.global_('httpolice.known', 'Knowledge')
    sym = M.global_('httpolice.parse', 'Symbol')
    for name, mod in sorted(I.modules.items()):
        if not name.startswith('httpolice.') or not hasattr(mod, 'ns'):
            continue
        for v in list(mod.ns.values()):
            for _, x in v.alts:
                if not isinstance(x, O):
                    continue
                if x.cls.is_sub(know):
                    raw = x.attrs['raw_by_key'].single()
                    for e in list(raw.entries.values()):
                        put(I.call_method(x, 'get', [e[0]]).single())
                        put(I.prim_of(e[0].single()))
                elif x.cls.is_sub(sym):
                    for f in ('name', 'citation'):
                        for _, y in I.getattr(one(x), f).alts:
                            put(y)
    if n < 3000:
        raise AnchorError('the tables were not found')
    return frozenset(seen), n


def run(ctx):
    X = Rendering(ctx.root)
    Ob = Obligations(ctx, X.M)
    n = dict(texts=0, attributes=0, raw=0, lines=0, reports=0, constant=0)
    known, n['table_values'] = tables(X.M)
    C = Chars(X.M.I, known, X.M.I.sinks)
    for items in (X.rules(), X.payload(PAYLOAD), X.semantic()):
        for it in items:
            look(ctx, it, C, Ob, n)
    C2 = None
    words = [(name, f) for name, f, ns, v in table(ctx) if ns]
    for it in X.views(words):
        if C2 is None:
            I = X.words_model.I
            C2 = Chars(I, known, I.sinks)
        look(ctx, it, C2, None, n)
    X = Rendering(ctx.root)
    plain(ctx, X, previews(X, known), Obligations(ctx, X.M), n)
    if n['reports'] < 300 or n['texts'] < 3000:
        raise AnchorError('too little was analysed')
    ctx.cover(obligations=n['texts'] + n['attributes'] + n['raw'] +
              n['lines'], rule=(
        'the characters that each written value may contain, computed from '
        'the expression that makes it, include no control or unprintable '
        'character; markup and links are made of constants only; and each '
        'line of the text report ends where the program ends it'), **n)


def previews(X, known):
    """The character analysis, with the previews of bodies looked at."""
    M, I = X.M, X.M.I
    C = Chars(I, known, I.sinks)
    for role, mk in (('req', make_request), ('resp', make_response)):
        for name in ('guessed_charset', 'displayable_body'):
            M.concrete = (name,)
            I.pc = 1
            f0, u0 = len(I.faults), len(M.events)
            v = I.getattr(one(mk(M, role)), name)
            del I.faults[f0:], M.events[u0:]
            I.pc = 1
            M.concrete = ()
            if name != 'displayable_body':
                C.safe['pl', role, name] = C.value(v)
                continue
            for i in (0, 1):
                bad = NONE_BAD
                for g, s in v.alts:
                    if not isinstance(s, TupV) or len(s.items) != 2:
                        raise AnchorError('displayable_body is not a pair')
                    x = s.items[i]
                    bad |= C.value(V([
                        (I.m.and_(g, gx), y) for gx, y in x.alts
                        if i or I.pytype(I.prim_of(y)) == 'str']))
                C.safe['i', ('pl', role, name), i] = bad
    for k in list(C.safe):          # all responses are alike
        if 'resp' in (k[1], k[1][1]):
            C.safe[resp2(k)] = C.safe[k]
    return C


def resp2(p):
    if isinstance(p, tuple):
        return tuple(resp2(x) for x in p)
    return 'resp2' if p == 'resp' else p


def plain(ctx, X, C, Ob, n):
    """Exchanges with no complaints: the messages themselves."""
    for cfg in ((True, 1), (True, 0), (False, 1), (True, 2)):
        r = run_exchange(X.M, *cfg)
        I = X.M.I
        for role, o in X.R.targets(r).items():
            if 'remark' in o.attrs:
                o.attrs['remark'] = I.sy(('in', role, 'remark'), (
                    'union', (('none',), STR)))
                n['remarks'] = n.get('remarks', 0) + 1
        for name in X.REPORTS:
            writes, faults = X.R.report(name, r)
            judge(ctx, 'messages', '', name, writes, C, Ob, n, 3)


def look(ctx, it, C, Ob, n):
    e = it.event
    if it.report is None:
        return
    judge(ctx, e.id, 'notice %s reported at %s:%s (%s): ' % (
        e.id, e.site[0], e.site[2], e.site[1]), it.report, it.writes, C, Ob,
        n, 2 if e.target in ('req', 'exch') else 3)


def show(bad):
    out = []
    for name, cs in (('line breaks', BREAKS),
                     ('C0 control characters', range(0x20)),
                     ('DEL', [0x7F]),
                     ('C1 control characters', range(0x80, 0xA0)),
                     ('surrogates', range(0xD800, 0xE000)),
                     ('non-characters', [0xFFFE, 0xFFFF, 0xFDD0])):
        if bad & (frozenset(cs) - (BREAKS if 'C0' in name else NONE_BAD)):
            out.append(name)
    return ', '.join(out) or 'line breaks'


def judge(ctx, key, where, report, writes, C, Ob, n, most):
    I = C.I
    n['reports'] += 1
    mid = {}
    root = None

    def report_(k, site, what, v, g, open_):
        if Ob is not None and Ob.possible(g, open_) is None:
            return
        ctx.violation('%s/%s/%s/%s' % (key, report, site[1], k),
                      '%s:%s (%s)' % (site[0], site[2], site[1]),
                      '%sthe %s report %s: %s' % (
                          where, report, what,
                          ' | '.join(brief(I.pathof(s))
                                     for _, s in v.alts[:3])[:500]))
    for kind, o, g, v, site, open_ in writes:
        if not g:
            continue
        if all(isinstance(s, K) for _, s in v.alts):
            n['constant'] += 1
        if report == 'text' or kind in ('text', 'attr'):
            bad = C.value(v)
            if report == 'text':
                n['lines'] += 1
                bad = bad - OWN
            else:
                n['texts' if kind == 'text' else 'attributes'] += 1
                bad = bad - OWN - BREAKS
            if bad:
                report_('chars', site, 'can contain %s from the input' %
                        show(bad), v, g, open_)
        if report == 'html' and kind in ('raw', 'write') or \
                kind == 'attr' and active(o):
            n['raw'] += 1
            if not all(fixed(I.pathof(s)) for _, s in v.alts):
                report_('raw', site, 'has %s made from the input' % (
                    'an active attribute' if kind == 'attr'
                    else 'unescaped markup'), v, g, open_)
        if report == 'text':
            m = I.m
            for gv, s in v.alts:
                gg = m.and_(g, gv)
                if C.ends(I.pathof(s)):
                    mid[id(o)] = (m.and_(mid.get(id(o), (0,))[0],
                                         m.not_(gg)), site, v)
                else:
                    mid[id(o)] = (m.or_(mid.get(id(o), (0,))[0], gg), site, v)
            root = o
            if 'stream' in o.attrs:
                c = C.alts(v)
                if c is not None and max(c) > most:
                    report_('lines', site, 'has %d lines for one notice' %
                            max(c), v, g, open_)
    for g, site, v in mid.values():
        if g:
            report_('unended', site, 'has a line that is not ended', v, g, ())


def brief(p, d=0):
    if not isinstance(p, tuple):
        return repr(p)[:60]
    if p and p[0] == 'k':
        return repr(p[-1])[:60]
    return '~' if d > 5 else '(%s)' % ' '.join(
        x if isinstance(x, str) else brief(x, d + 1) for x in p[:6])


def active(name):
    n = getattr(name, 'v', name)
    if not isinstance(n, str):
        return False
    n = n.strip('_').lower()
    return n in ('href', 'src', 'style', 'action', 'srcdoc', 'formaction') \
        or n.startswith('on')
