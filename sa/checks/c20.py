"""Combination and comparison of header fields, by abstract evaluation of
httpolice.header and httpolice.structure from source on field lists of every
shape: for each known header (and an unregistered one) and each list of up to
three fields (in headers or trailers; malformed, list-valued or single-valued
after parsing; contents symbolic), the value, entries, presence, truth,
iteration, membership and comparisons must equal those of the specification.
The value classes (case-insensitive names, parametrised items, entity tags,
status classes, multi-dicts) are evaluated likewise."""
import itertools
import json

from ..hdrs import Hdr, BOTTOM, STR, INT, BYTES
from ..model import AnchorError
from ..values import K, Sy, V, one, NONE, ListV, TupV

LEVEL = 'other'
ASSUMES = (
    'fields of one name occur at most three times per message (the code '
    'treats lists uniformly; longer lists are not evaluated).',
    'spec/known.txt gives the combination rule of each header.',
)


def known_headers(ctx):
    r, table = {}, None
    with open(ctx.spec('known.txt'), encoding='utf-8') as f:
        for line in f:
            line = line.rstrip('\n')
            if line.startswith('[') and ',' not in line:
                table = line[1:-1]
            elif line:
                k, d = json.loads(line)
                r.setdefault(table, {})[k] = d
    return r


def sym(*p):
    return one(Sy(('x',) + p, STR))


def outcome(H, kind, i):
    """Kinds of parse results."""
    if kind == 'U':
        return BOTTOM
    if kind == 'S':
        return sym(i, 's')
    n = int(kind[1:])
    return one(ListV('list', [(1, sym(i, j)) for j in range(n)]))


class Case:
    """What the specification says about one header and one shape."""

    def __init__(self, H, rule, parsed, shape, bad_trailer):
        self.ids = []
        kept = []
        self.dropped = [i for i, (tr, _) in enumerate(shape)
                        if tr and bad_trailer]
        order = [i for i, (tr, _) in enumerate(shape) if not tr] + \
                [i for i, (tr, _) in enumerate(shape) if tr]
        self.total = len(shape)
        vals = []
        for i in order:
            if i in self.dropped:
                self.ids.append((1026, ('entry', ('ev', i))))
                continue
            kept.append(i)
            kind = shape[i][1]
            if not parsed:
                vals.append(('raw', i))
            elif kind == 'U':
                self.ids.append((1000, ('entry', ('ev', i))))
                vals.append(('unav', ('ev', i)))
            elif kind == 'S':
                vals.append(('x', i, 's'))
            else:
                vals.append(('list', tuple(('x', i, j)
                                           for j in range(int(kind[1:])))))
        ents = [('entry', ('ev', i)) for i in kept]
        self.present = bool(kept)
        if rule == 'single':
            if len(kept) > 1:
                self.ids.append((1013, ('entries', tuple(ents))))
            self.value = vals[-1] if vals else ('k', None)
            if self.value[0] == 'raw':
                self.value = ('ev', self.value[1])
            self.entries = ents[-1:]
        elif rule == 'multi':
            self.entries = ents
            sing = [v for v in vals if v[0] == 'x']
            if sing and len(vals) > 1:
                self.ids.append((1013, ('entries', tuple(ents))))
                self.value = ('list', (('unav', ('k', None)),))
            elif sing:
                self.value = sing[0]
            else:
                r = []
                for v in vals:
                    r += [v] if v[0] == 'unav' else list(v[1])
                self.value = ('list', tuple(r))
        else:
            self.entries = ents
            self.value = ('join', tuple(('ev', v[1]) for v in vals)) \
                if vals else ('k', None)
        self.okay = self.value != ('k', None) and self.value[0] != 'unav'
        self.items = None
        if self.value[0] == 'list':
            self.items = tuple(x for x in self.value[1] if x[0] != 'unav') \
                if rule == 'multi' else self.value[1]


def same_value(H, got, want, raw):
    if want[0] == 'join':
        if len(want[1]) == 1 and got == want[1][0]:
            return True
        I = H.I
        # b','.join of exactly these values, in order
        ref = I.call(I.getattr(one(K(b',')), 'join'),
                     [one(ListV('list', [(1, one(Sy(p, BYTES)))
                                         for p in want[1]]))], {})
        return got == H.norm(ref)
    return got == want


def show_shape(shape):
    return '[' + ' '.join(('trailer:' if t else '') + k
                          for t, k in shape) + ']'


def kinds_for(rule):
    if rule == 'single':
        return ['U', 'S']
    if rule == 'multi':
        return ['U', 'L0', 'L1', 'L2', 'S']
    return ['S']


def shapes(rule, n, trailers=True):
    ks = kinds_for(rule)
    for m in range(n + 1):
        for kk in itertools.product(ks, repeat=m):
            # a trailer field comes after the header fields
            for t in range(m + 1) if trailers else (0,):
                yield tuple((i >= m - t, k) for i, k in enumerate(kk))


def check_case(ctx, H, name, rule, parsed, bad, shape, full=True):
    I = H.I
    H.begin([(name if i % 2 == 0 else name.swapcase(), tr,
              outcome(H, k, i)) for i, (tr, k) in enumerate(shape)])
    c = Case(H, rule, parsed, shape, bad)
    where = 'httpolice/header.py (%s %s)' % (name, show_shape(shape))

    def bad_(what, got, want):
        if H.undecided():
            ctx.cover(undecided=1)
            return True
        ctx.violation('%s:%s:%s' % (rule, what, show_shape(shape)), where,
                      '%s of %s with fields %s is %r, specified %r' % (
                          what, name, show_shape(shape), got, want))
        return False

    v = H.get(lambda: H.view(name))
    if isinstance(v, tuple):
        return bad_('lookup', v, 'a view')

    def attr(n):
        r = H.get(lambda: I.getattr(v, n))
        return H.norm(r)
    val = attr('value')
    if not same_value(H, val, c.value, c):
        return bad_('value', val, c.value)
    e = attr('entries')
    if e != ('list', tuple(c.entries)):
        return bad_('entries', e, c.entries)
    for n, want in (('is_present', c.present), ('is_absent', not c.present),
                    ('is_okay', c.okay), ('total_entries', c.total)):
        g = attr(n)
        if g != ('k', want):
            return bad_(n, g, want)
    evs = []
    for i, g, kw in H.events():
        if i not in (1000, 1013, 1026):
            continue                    # the parsed value's own notices
        if g != 1:
            return bad_('notice', (i, 'conditional'), c.ids)
        if i in (1026, 1000):
            evs.append((i, kw.get('entry', kw.get('place'))))
        elif i == 1013:
            x = kw.get('entries', ('', ()))
            evs.append((i, ('entries', x[1] if len(x) > 1 else x)))
        else:
            evs.append((i, None))
    if sorted(evs, key=str) != sorted(c.ids, key=str):
        return bad_('notices', evs, c.ids)
    # names in the notice: the view itself
    for i, g, kw in H.events():
        if i == 1013 and kw.get('header') is None:
            return bad_('header of notice 1013', kw, 'the header')
    if not full:
        return True
    # truth
    ref = I.truth(value_of(H, c)) if c.value[0] != 'join' else None
    t = H.get(lambda: I.bv(I.truth(v)))
    if ref is not None:
        want = H.norm(I.bv(ref))
        if H.norm(t) != want:
            return bad_('truth', H.norm(t), want)
    # iteration and membership
    probe = one(Sy(('probe',), STR))
    if c.items is not None:
        it = H.get(lambda: one(ListV('list', list(I.entries_of(v)))))
        if H.norm(it) != ('list', c.items):
            return bad_('iteration', H.norm(it), c.items)
        b = H.get(lambda: I.bv(I.compare('In', probe, v)))
        want = 0
        for x in c.items:
            want = I.m.or_(want, I.compare('Eq', one(Sy(x, STR)), probe))
        if H.norm(b) != H.norm(I.bv(want)):
            return bad_('membership', H.norm(b), c.items)
    # comparisons
    un = H.unav()
    for op in ('Eq', 'NotEq', 'Lt', 'Gt', 'GtE'):
        for tag, other in (('None', NONE), ('Unavailable', un),
                           ('value', one(Sy(('probe',), STR)))):
            ordering = op in ('Lt', 'Gt', 'GtE')
            if tag == 'value' and c.okay and \
                    (c.value[0] in ('list', 'join') or c.value[0] == 'ev'):
                continue
            b = H.get(lambda: I.bv(I.compare(op, v, other)))
            if tag != 'value' or not c.okay:
                want = ('k', False)
            else:
                want = H.norm(I.bv(I.compare(op, value_of(H, c), other)))
            if H.norm(b) != want:
                return bad_('%s %s' % (op, tag), H.norm(b), want)
    return True


def value_of(H, c):
    def mk(x):
        if x[0] == 'x':
            return one(Sy(x, STR))
        if x[0] == 'ev':
            return one(Sy(x, BYTES))
        if x[0] == 'k':
            return one(K(x[1]))
        if x[0] == 'unav':
            return H.unav()
        return one(ListV('list', [(1, mk(y)) for y in x[1]]))
    return mk(c.value)


# -- directives -----------------------------------------------------------------

def first_wins(ctx, H, facts):
    """Lookup of directives in Cache-Control, Prefer etc."""
    I = H.I
    n = 0
    for hname, table, attr, mk in (
            ('Cache-Control', 'cache_directive', 'CacheDirective',
             lambda H, d, a: cc_pair(H, d, a)),
            ('Strict-Transport-Security', 'hsts_directive', 'HSTSDirective',
             plain_pair),
            ('Prefer', 'preference', 'Preference', prefer_pair),
            ('Preference-Applied', 'preference', 'Preference', plain_pair)):
        rows = facts[table]
        single = hname == 'Strict-Transport-Security'
        for d, f in rows.items():
            attrname = ident(d)
            opt = not f.get('argument_required')
            arg = not f.get('no_argument')
            forms = (['-'] if opt else []) + (['A'] if arg else [])
            for nfields in ((1,) if single else (1, 2)):
                for seq in itertools.product(['other'] + forms, repeat=2):
                    n += 1
                    check_dir(ctx, H, hname, attr, d, attrname, seq, nfields,
                              mk, f)
            n += 1
            check_dir(ctx, H, hname, attr, d, attrname, (), 1, mk, f)
            if not single:
                check_dir(ctx, H, hname, attr, d, attrname, None, 1, mk, f)
    return n


def ident(key):
    """The attribute name of a registered name."""
    r = key
    for c in '- /+.':
        r = r.replace(c, '_')
    r = r.lower()
    return r + '_' if r in ('continue', 'for', 'from', 'return') else r


def mkname(H, cls, s):
    return H.I.call(one(H.M.cls(cls)), [one(K(s))], {})


def quote_syms(H):
    I = H.I
    return (I.modules['httpolice.syntax.rfc7230'].ns['token'],
            I.modules['httpolice.syntax.rfc7230'].ns['quoted_string'])


def cc_pair(H, d, a, quoted=None):
    tok, qs = quote_syms(H)
    if a is None:
        arg = NONE
    else:
        arg = one(TupV([qs if quoted else tok, a]))
    return one(TupV([d, arg]))


def plain_pair(H, d, a):
    return one(TupV([d, NONE if a is None else a]))


def prefer_pair(H, d, a):
    inner = one(TupV([d, NONE if a is None else a]))
    return one(TupV([inner, one(ListV('list', []))]))


def check_dir(ctx, H, hname, cls, d, attrname, seq, nfields, mk, f):
    I = H.I
    pairs, want = [], ('k', None)
    args = {}
    if seq is None:
        seq_, malformed = (), True
    else:
        seq_, malformed = seq, False
    for i, form in enumerate(seq_):
        if form == 'other':
            pairs.append(mk(H, mkname(H, cls, 'x-%d' % i), None))
            continue
        nm = d if i == 0 else d.swapcase()
        if form == '-':
            pairs.append(mk(H, mkname(H, cls, nm), None))
            w = ('k', True)
        else:
            a = one(Sy(('arg', i), STR))
            args[('arg', i)] = one(Sy(('parsed', i), STR))
            pairs.append(mk(H, mkname(H, cls, nm), a))
            w = ('parsed', i) if f.get('syntax_for') else ('arg', i)
        if want == ('k', None):
            want = w
    if malformed:
        fields = [(hname, False, BOTTOM)]
    elif nfields == 1:
        fields = [(hname, False, one(ListV('list', [(1, p)
                                                    for p in pairs])))]
    else:
        fields = [(hname, False, one(ListV('list', [(1, p)])))
                  for p in pairs]
    H.begin(fields)
    H.out.update(args)
    v = H.get(lambda: H.view(hname))
    r = v if isinstance(v, tuple) else H.get(lambda: I.getattr(v, attrname))
    r = H.norm(r)
    if r != want and H.undecided():
        ctx.cover(undecided=1)
    elif r != want:
        ctx.violation('directive:%s:%s' % (hname, d), 'httpolice/header.py',
                      'looking up %s in %s with directives %r in %d field(s) '
                      'gives %r, specified %r' % (d, hname, seq, nfields, r,
                                                  want))


# -- structure --------------------------------------------------------------------

def collections(ctx, H):
    """HeadersView: names, iteration, enumerate, clearly."""
    I = H.I
    n = 0
    where = 'httpolice/header.py HeadersView'
    for k in range(4):
        for names in itertools.product(['Foo', 'fOO', 'Bar'], repeat=k):
            for t in range(k + 1):
                n += 1
                fields = [(nm, i >= k - t, sym(i, 's'))
                          for i, nm in enumerate(names)]
                H.begin(fields)
                hd = H.msg.attrs['headers']
                want, low = [], []
                for nm in names:
                    if nm.lower() not in low:
                        low.append(nm.lower())
                        want.append(('k', nm))
                g = H.norm(H.get(lambda: one(ListV('list', list(
                    I.entries_of(I.getattr(hd, 'names')))))))
                if g != ('list', tuple(want)):
                    ctx.violation('names', where, 'names of %r are %r' % (
                        names, g))
                g = H.get(lambda: one(ListV('list', [
                    (gg, I.getattr(x, 'name'))
                    for gg, x in I.entries_of(hd)])))
                if H.norm(g) != ('list', tuple(want)):
                    ctx.violation('iter', where, 'iterating over %r gives '
                                  'views of %r' % (names, H.norm(g)))
                for sel in (None, 'foo'):
                    a = [one(K(sel))] if sel else []
                    if sel:
                        a = [I.call(one(H.M.cls('FieldName')), a, {})]
                    g = H.norm(H.get(lambda: I.call(
                        I.getattr(hd, 'enumerate'), a, {})))
                    w, ih, it = [], 0, 0
                    for i, (nm, tr, _) in enumerate(fields):
                        ix = it if tr else ih
                        if tr:
                            it += 1
                        else:
                            ih += 1
                        if sel is None or nm.lower() == sel:
                            w.append(('tuple', (('k', tr), ('k', ix),
                                                ('entry', ('ev', i)))))
                    if g != ('list', tuple(w)):
                        ctx.violation('enumerate', where,
                                      'enumerate(%r) of %r gives %r' % (
                                          sel, names, g))
    return n


def value_classes(ctx, H):
    I, M = H.I, H.M
    n = [0]

    def expect(key, got, want, what):
        n[0] += 1
        if isinstance(got, V):
            got = H.norm(got)
        if isinstance(want, V):
            want = H.norm(want)
        if got != want and I.undecided:
            ctx.cover(undecided=1)
        elif got != want:
            ctx.violation('value:' + key, 'httpolice/structure.py',
                          '%s is %r, specified %r' % (what, got, want))

    def cmp(op, a, b):
        return H.get(lambda: I.bv(I.compare(op, a, b)))

    def T(b):
        return ('k', b)
    def inst(name, *a):
        return I.call(one(M.cls(name)), list(a), {})
    k = lambda x: one(K(x))
    # case
    nocase = ('FieldName TransferCoding ContentCoding ConnectionOption '
              'MediaType LanguageTag Charset RangeUnit CacheDirective '
              'AuthScheme HSTSDirective Preference ForwardedParam').split()
    case = 'Method UpgradeToken HTTPVersion'.split()
    for cls in nocase + case:
        ci = cls in nocase
        for a, b in (('Foo', 'Foo'), ('Foo', 'fOO'), ('Foo', 'Bar'),
                     ('foo', 'food')):
            eq = a.lower() == b.lower() if ci else a == b
            for other in (inst(cls, k(b)), k(b)):
                expect(cls + ':eq', cmp('Eq', inst(cls, k(a)), other), T(eq),
                       '%s(%r) == %r' % (cls, a, b))
                expect(cls + ':ne', cmp('NotEq', inst(cls, k(a)), other),
                       T(not eq), '%s(%r) != %r' % (cls, a, b))
                expect(cls + ':eqr', cmp('Eq', other, inst(cls, k(a))),
                       T(eq), '%r == %s(%r)' % (b, cls, a))
            d = H.get(lambda: I.bv(I.compare(
                'In', inst(cls, k(b)), mkset(H, [inst(cls, k(a))]))))
            expect(cls + ':hash', d, T(eq), '%s(%r) in {%s(%r)}' % (
                cls, b, cls, a))
        for other in (k(None), k(5), k(b'Foo')):
            expect(cls + ':other', cmp('Eq', inst(cls, k('Foo')), other),
                   T(False), '%s == %r' % (cls, other))
        for a, b, s, e in (('Foo-BAR', 'foo', ci, False),
                           ('Foo-BAR', 'Foo', True, False),
                           ('Foo-BAR', 'bar', False, ci),
                           ('Foo-BAR', 'BAR', False, True),
                           ('Foo-BAR', 'BAZ', False, False)):
            o = inst(cls, k(a))
            expect(cls + ':startswith', H.get(lambda: I.call_method(
                o.single(), 'startswith', [k(b)])), T(s),
                '%s(%r).startswith(%r)' % (cls, a, b))
            expect(cls + ':endswith', H.get(lambda: I.call_method(
                o.single(), 'endswith', [k(b)])), T(e),
                '%s(%r).endswith(%r)' % (cls, a, b))
    # unavailable values
    x, y = one(Sy(('ux',), STR)), one(Sy(('uy',), STR))
    ux, uy, u0 = H.unav(x), H.unav(y), H.unav()
    expect('Unavailable:eq', cmp('Eq', ux, uy),
           I.bv(I.compare('Eq', x, y)), 'Unavailable(x) == Unavailable(y)')
    expect('Unavailable:none', cmp('Eq', u0, H.unav()), T(False),
           'Unavailable() == Unavailable()')
    expect('Unavailable:inner', cmp('Eq', ux, x), T(False),
           'Unavailable(x) == x')
    okay = one(M.cls('okay'))
    for v, w in ((NONE, False), (u0, False), (ux, False), (k(''), True),
                 (k(0), True), (k(False), True), (k(b''), True),
                 (one(ListV('list', [])), True)):
        expect('okay', H.get(lambda: I.call(okay, [v], {})), T(w),
               'okay(%r)' % (v,))
    # parametrised items
    a, b, p, q = (one(Sy(('p', c), STR)) for c in 'abpq')
    pa, pb = inst('Parametrized', a, p), inst('Parametrized', b, q)
    eab = I.compare('Eq', a, b)
    expect('Parametrized:item', cmp('Eq', pa, b), I.bv(eab),
           'Parametrized(a, p) == b')
    expect('Parametrized:ne', cmp('NotEq', pa, b), I.bv(I.m.not_(eab)),
           'Parametrized(a, p) != b')
    both = I.m.and_(eab, I.compare('Eq', p, q))
    expect('Parametrized:pair', cmp('Eq', pa, pb), I.bv(both),
           'Parametrized(a, p) == Parametrized(b, q)')
    expect('Parametrized:pairne', cmp('NotEq', pa, pb),
           I.bv(I.m.not_(both)), 'Parametrized(a, p) != Parametrized(b, q)')
    # warnings
    if 'WarningValue' in M.st:
        c, d = one(Sy(('w', 'c'), INT)), one(Sy(('w', 'd'), INT))
        w = inst('WarningValue', c, a, b, p)
        expect('WarningValue', cmp('Eq', w, d), I.bv(I.compare('Eq', c, d)),
               'WarningValue(c, ...) == d')
    # entity tags
    for w1, w2 in itertools.product((True, False), repeat=2):
        e1 = inst('EntityTag', k(w1), a)
        e2 = inst('EntityTag', k(w2), b)
        expect('EntityTag:weak', H.get(lambda: I.call_method(
            e1.single(), 'weak_equiv', [e2])), I.bv(eab),
            'weak comparison of entity tags (weak=%s, %s)' % (w1, w2))
        expect('EntityTag:strong', H.get(lambda: I.call_method(
            e1.single(), 'strong_equiv', [e2])),
            I.bv(eab if not (w1 or w2) else 0),
            'strong comparison of entity tags (weak=%s, %s)' % (w1, w2))
    # status classes
    for s in list(range(99, 102)) + [199, 200, 201, 299, 300, 399, 400, 499,
                                     500, 599, 600, 0, 999]:
        o = inst('StatusCode', k(s))
        for i, nm in enumerate(('informational', 'successful', 'redirection',
                                'client_error', 'server_error')):
            expect('StatusCode:' + nm, H.get(lambda: I.getattr(o, nm)),
                   T(s // 100 == i + 1), '%s of %d' % (nm, s))
    # multi-dictionaries
    names = ['a', 'A', 'b']
    for ln in range(4):
        for ks in itertools.product(names, repeat=ln):
            for ci in (True, False):
                mk = (lambda z: inst('CacheDirective', k(z))) if ci else k
                norm = str.lower if ci else str
                seq = one(ListV('list', [
                    (1, one(TupV([mk(z), one(Sy(('mv', i), STR))])))
                    for i, z in enumerate(ks)]))
                md = inst('MultiDict', seq)
                o = md.single()
                for z in names:
                    at = [i for i, c in enumerate(ks)
                          if norm(c) == norm(z)]
                    first = ('mv', at[0]) if at else None
                    what = 'of %r in a multi-dictionary of %r' % (z, ks)
                    expect('MultiDict:contains', cmp('In', mk(z), md),
                           T(bool(at)), 'membership ' + what)
                    expect('MultiDict:get', H.get(lambda: I.call_method(
                        o, 'get', [mk(z)])), first or ('k', None),
                        'get ' + what)
                    expect('MultiDict:default', H.get(lambda: I.call_method(
                        o, 'get', [mk(z), k('d')])), first or ('k', 'd'),
                        'get with default ' + what)
                    expect('MultiDict:item', H.get(
                        lambda: I.getitem(md, mk(z))),
                        first or ('raises', ('KeyError',)), 'item ' + what)
                    expect('MultiDict:getall', H.get(lambda: I.call_method(
                        o, 'getall', [mk(z)])),
                        ('list', tuple(('mv', i) for i in at)),
                        'getall ' + what)
                    if at:
                        expect('MultiDict:index', H.get(
                            lambda: I.call_method(o, 'index', [mk(z)])),
                            ('k', at[0]), 'index ' + what)
                expect('MultiDict:len', H.get(lambda: I.call(I.builtin('len'), [md], {})),
                       ('k', len(ks)), 'length of %r' % (ks,))
                seen, dup = [], []
                for c in ks:
                    c0 = norm(c)
                    if c0 in seen and c0 not in dup:
                        dup.append(c0)
                    seen.append(c0)
                g = H.norm(H.get(lambda: I.call_method(o, 'duplicates', [])))
                if isinstance(g, tuple) and g[0] == 'list':
                    g = sorted(norm(v[1]) for v in g[1])
                expect('MultiDict:duplicates', g, sorted(dup),
                       'duplicates of %r' % (ks,))
                g = H.norm(H.get(lambda: one(ListV(
                    'list', list(I.entries_of(md))))))
                if isinstance(g, tuple) and g[0] == 'list':
                    g = [norm(v[1]) for v in g[1]]
                expect('MultiDict:iter', g, list(dict.fromkeys(
                    norm(c) for c in ks)), 'keys of %r' % (ks,))
    return n[0]


def mkset(H, vs):
    I = H.I
    return I.call(one_builtin(I, 'set'), [one(ListV('list', [(1, v)
                                                             for v in vs]))],
                  {})


def one_builtin(I, name):
    return I.builtin(name)


def clearly(ctx, H):
    """HeadersView.clearly(predicate)."""
    I = H.I
    fn = H.M.known['header'].single()
    H.begin([('If-Match', False, sym(0, 's')), ('Foo', False, sym(1, 's')),
             ('if-none-match', True, sym(2, 's')),
             ('IF-MATCH', True, sym(3, 's'))])
    pred = I.getattr(one(fn), 'is_precondition')
    g = H.norm(H.get(lambda: one(ListV('list', list(I.entries_of(
        I.call(I.getattr(H.msg.attrs['headers'], 'clearly'), [pred],
               {})))))))
    got = sorted(v[1].lower() for v in g[1]) if g[0] == 'list' else g
    if got != ['if-match', 'if-none-match']:
        ctx.violation('clearly', 'httpolice/header.py HeadersView',
                      'clearly(is_precondition) gives %r' % (got,))


def run(ctx):
    M = ctx.model()
    H = Hdr(M)
    facts = known_headers(ctx)
    hd = facts['header']
    specials = {'alt-svc', 'cache-control', 'forwarded', 'prefer',
                'preference-applied', 'strict-transport-security'}
    thorough = ctx.tier == 'thorough'
    n, done = 0, set()
    fails = 0
    for name, f in sorted(hd.items()) + [('X-Unregistered', {})]:
        rule = f.get('rule_for', 'unknown')
        if rule == 'special':
            if name.lower() not in specials:
                raise AnchorError('special header ' + name)
            continue
        parsed = bool(f.get('syntax_for'))
        bad = bool(f.get('is_bad_for_trailer'))
        cls = (rule, parsed, bad)
        deep = thorough or cls not in done
        done.add(cls)
        before = len(ctx.violations)
        for sh in shapes(rule, 3 if deep else 1):
            n += 1
            check_case(ctx, H, name, rule, parsed, bad, sh)
            if len(ctx.violations) > before + 3:
                break
    nd = first_wins(ctx, H, facts)
    nc = collections(ctx, H)
    clearly(ctx, H)
    nv = value_classes(ctx, H)
    if n < 400 or nd < 150:
        raise AnchorError('too few cases: %d, %d' % (n, nd))
    ctx.cover(shapes=n, directive_lookups=nd, field_lists=nc, value_cases=nv,
              headers=len(hd) + 1)
