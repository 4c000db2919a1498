"""Silencing: which notices are left out is computed as a condition on symbolic
identifiers, for every order of reporting and silencing, and what the checks
silence is compared with what HTTPolice-Silence asks for."""
import ast
import itertools
import os
import re

from ..headval import Words, parse_word
from ..model import (AnchorError, INT, STR, make_exchange, make_request,
                     make_response)
from ..reports import Rendering
from ..rules import run_exchange
from ..values import DictV, K, ListV, O, one

LEVEL = 'other'
ASSUMES = (
    'the value of HTTPolice-Silence is a list of pairs of a number and '
    'whether "resp" follows it (decided by C09 and C24)',
)
BB = 'httpolice/blackboard.py'


def run(ctx):
    X = Rendering(ctx.root)
    n = dict(histories=0, obligations=0, silencings=0)
    asked(ctx, X, n)
    with Real(X.M):
        histories(ctx, X, n)
        repeated(ctx, X, n)
        families(ctx, X, n)
        reports(ctx, X, n)
    views(ctx, X, n)
    writers(ctx, X, n)
    if n['histories'] < 12 or n['silencings'] < 9:
        raise AnchorError('too little was analysed')
    ctx.cover(rule='a complaint is in .complaints exactly if it was made and '
              'its identifier was not silenced on that object or, through '
              'its exchange, on it; the rules silence exactly what the '
              'HTTPolice-Silence headers ask for; reports show .complaints; '
              'nothing else touches what they are kept in', **n)


class Real:
    """The real blackboard, for as long as this lasts."""

    def __init__(self, M):
        self.I = M.I

    def __enter__(self):
        I = self.I
        self.saved = {n: I.intercepts.pop(n) for n in list(I.intercepts)
                      if n.startswith('httpolice.blackboard:')}
        I.pc = 1

    def __exit__(self, *exc):
        self.I.intercepts.update(self.saved)
        self.I.pc = 1


def under(I, g, f):
    I.pc = g
    r = f()
    I.pc = 1
    return r


def new(I, cls):
    I.pc = 1
    b = I.call(one(cls), [], {})
    I.pc = 1
    return b


def shown(I, b, attr='complaints'):
    """[(condition, identifier, complaint)] in order."""
    out = []
    I.pc = 1
    v = I.getattr(b, attr)
    for g, s in v.alts:
        if not isinstance(s, ListV):
            return None
        for g2, e in s.entries:
            for g3, x in e.alts:
                i = I.getattr(one(x), 'id').single()
                i = I.prim_of(i) if i is not None else None
                gg = I.m.and_(I.m.and_(g, g2), g3)
                out.append((gg, i.v if isinstance(i, K) else None, x))
    return out


def seen(I, b, attr='complaints'):
    r = {}
    c = shown(I, b, attr)
    if c is None:
        return None
    for g, i, _ in c:
        r[i] = I.m.or_(r.get(i, 0), g)
    return {i: g for i, g in r.items() if g}


def call(I, o, name, *args, **kw):
    if I.pc == 0:
        raise AnchorError('%s: nothing follows' % name)
    return I.call(I.getattr(o, name), list(args), kw)


def faults(ctx, I, key, where, what):
    for x in I.faults:
        exc = getattr(x[0], 'name', x[0])
        ctx.violation('%s/%s' % (key, exc), where, '%s raises %s: %s' % (
            what, exc, str(x[1])[:200]))
    del I.faults[:]


def histories(ctx, X, n):
    M, I = X.M, X.M.I
    m = I.m
    cls = M.global_('httpolice.blackboard', 'Blackboard')
    A, B, S, T = (I.atom('T', x) for x in 'abst')
    x, y, z = (I.sy(('T', 'x%d' % i), INT) for i in range(3))
    del I.faults[:]

    def eq(v, k):
        return I.compare('Eq', v, one(K(k)))
    steps = {
        'report 1001': (A, lambda b: call(I, b, 'complain', one(K(1001)))),
        'report 1003': (B, lambda b: call(I, b, 'complain', one(K(1003)),
                                          coding=I.sy(('T', 'c'), STR))),
        'silence x, y': (S, lambda b: call(I, b, 'silence', one(ListV(
            'list', [(1, x), (1, y)])))),
        'silence z': (T, lambda b: call(I, b, 'silence', one(ListV(
            'list', [(1, z)])))),
    }
    def off(k):
        return m.or_(m.and_(S, m.or_(eq(x, k), eq(y, k))),
                     m.and_(T, eq(z, k)))
    want = {1001: m.and_(A, m.not_(off(1001))),
            1003: m.and_(B, m.not_(off(1003)))}
    for order in itertools.permutations(steps):
        n['histories'] += 1
        b = new(I, cls)
        for s in order:
            g, f = steps[s]
            under(I, g, lambda: f(b))
        for attr in ('complaints', 'notices'):
            n['obligations'] += 2
            got = seen(I, b, attr)
            if got != want:
                bad = [k for k in want if got is None or
                       got.get(k) != want[k]]
                ctx.violation(
                    'history/%s' % attr, '%s (Blackboard.%s)' % (BB, attr),
                    'after "%s", %s is not among .%s exactly when it was '
                    'reported and not silenced' % (
                        '; '.join(order), ' and '.join(
                            'notice %s' % k for k in bad) or 'something',
                        attr))
                return
        c = shown(I, b)
        ids = [i for g, i, _ in c if g]
        first = [s[-4:] for s in order if s.startswith('report')]
        if [str(i) for i in ids] != first:
            ctx.violation('order', BB, 'after "%s", the notices are not in '
                          'the order of reporting' % '; '.join(order))
    faults(ctx, I, 'history', BB, 'reporting or silencing')


def repeated(ctx, X, n):
    """The same notice again: dropped only if everything is the same."""
    M, I = X.M, X.M.I
    m = I.m
    cls = M.global_('httpolice.blackboard', 'Blackboard')
    c1, c2 = (I.sy(('T', 'c%d' % i), STR) for i in (1, 2))
    b = new(I, cls)
    call(I, b, 'complain', one(K(1003)), coding=c1)
    call(I, b, 'complain', one(K(1003)), coding=c2)
    call(I, b, 'complain', one(K(1003)), coding=c1)
    call(I, b, 'complain', one(K(1002)), coding=c1)
    c = shown(I, b)
    n['obligations'] += 3
    same = I.compare('Eq', c1, c2)
    got = [(g, i) for g, i, _ in c if g]
    if [i for g, i in got] != [1003, 1003, 1002] or \
            got[0][0] != 1 or got[1][0] != m.not_(same) or got[2][0] != 1:
        ctx.violation('repeated', BB + ' (Blackboard.complain)', 'of several '
                      'reports of one notice, not exactly the different ones '
                      'are kept')
    faults(ctx, I, 'repeated', BB, 'reporting a notice again')


def families(ctx, X, n):
    """What silencing on one object does to the others."""
    M, I = X.M, X.M.I
    objs = {}

    def fresh():
        cls = {'req': ('request', 'Request'), 'resp': ('response',
                                                       'Response')}
        objs.clear()
        for name in ('req', 'resp', 'resp2', 'other'):
            o = make_request(M, 'req') if name in ('req', 'other') else \
                make_response(M, name)
            objs[name] = o
        objs['exch'] = make_exchange(M, objs['req'], [objs['resp'],
                                                      objs['resp2']])
        objs['another'] = make_exchange(M, objs['other'], [])
    reach = {'exch': {'exch', 'req', 'resp', 'resp2'},
             'another': {'another', 'other'}}
    for name in ('exch', 'req', 'resp', 'resp2', 'other', 'another'):
        fresh()
        # an iterator serves as well as a list
        call(I, one(objs[name]), 'silence',
             one(ListV('once', [(1, one(K(1001)))])))
        for o in objs.values():
            call(I, one(o), 'complain', one(K(1001)))
            call(I, one(o), 'complain', one(K(1002)))
        for other, o in objs.items():
            n['obligations'] += 1
            gone = other in reach.get(name, {name})
            got = seen(I, one(o))
            if got != ({1002: 1} if gone else {1001: 1, 1002: 1}):
                ctx.violation(
                    'family/%s-%s' % (name, other), BB + ' (silence)',
                    'silencing a notice on %s %s' % (
                        LABEL[name], 'does not silence (just) it on %s' %
                        LABEL[other] if gone else
                        'has an effect on %s' % LABEL[other]))
    faults(ctx, I, 'family', BB, 'silencing')


LABEL = {'exch': 'an exchange', 'req': 'its request',
         'resp': 'a response', 'resp2': 'another response of the exchange',
         'other': 'another request', 'another': 'another exchange'}


def asked(ctx, X, n):
    """What the rules silence, and where."""
    M, I = X.M, X.M.I
    m = I.m
    for cfg, want in (
            ((True, 1), {'req': [('req', False)],
                         'resp': [('resp', None), ('req', True)]}),
            ((True, 0), {'req': [('req', False)]}),
            ((False, 1), {'resp': [('resp', None)]}),
            ((True, 2), {'req': [('req', False)],
                         'resp': [('resp', None), ('req', True)],
                         'resp2': [('resp2', None), ('req', True)]})):
        n0 = len(M.silences)
        M.__dict__.pop('ran', None)
        run_exchange(M, *cfg)
        got = {}
        for role, pc, v, site in M.silences[n0:]:
            n['silencings'] += 1
            for g, ids in v.alts:
                for ge, x in entries(ids):
                    for gx, s in x.alts:
                        gg = m.and_(m.and_(pc, g), m.and_(ge, gx))
                        if not gg:
                            continue
                        p = I.pathof(s)
                        src = source(p)
                        if src is None:
                            ctx.violation(
                                'asked/%s' % site[1], '%s:%s (%s)' % (
                                    site[0], site[2], site[1]),
                                'silences something that is not from '
                                'HTTPolice-Silence: %s' % str(p)[:200])
                            continue
                        k = (role, src[0], src[1])
                        got[k] = m.or_(got.get(k, 0), gg)
                        sites[k] = site
        ws = {}
        for role, hs in want.items():
            for h, in_resp in hs:
                ws[role, h] = in_resp
        for (role, h, e), g in sorted(got.items(), key=str):
            n['obligations'] += 1
            site = sites[role, h, e]
            where = '%s:%s (%s)' % (site[0], site[2], site[1])
            if (role, h) not in ws:
                ctx.violation('asked/%s-by-%s' % (role, h), where,
                              'notices on the %s are silenced by the header '
                              'of the %s' % (role, h))
                continue
            for a in m.support_atoms(g):
                if a[0] == 'isunav':
                    g = m.restrict(g, m.atom_index[a], 0)
            w = m.atom(('elem', e))
            flag = m.not_(m.atom(('isnone', ('i', e, 1))))
            if ws[role, h] is not None:
                w = m.and_(w, flag if ws[role, h] else m.not_(flag))
            if g != w:
                ctx.violation('asked/%s-when-%s' % (role, h), where,
                              'notices on the %s are not silenced by the '
                              'header of the %s exactly %s' % (
                                  role, h, 'always' if ws[role, h] is None
                                  else 'when "resp" is %s' % (
                                      'given' if ws[role, h] else
                                      'not given')))
        for (role, h) in ws:
            n['obligations'] += 1
            if not any(k[:2] == (role, h) for k in got):
                ctx.violation('asked/%s-not-by-%s' % (role, h),
                              'httpolice/%s.py' % (
                                  'request' if role == 'req' else 'response'),
                              'the HTTPolice-Silence header of the %s does '
                              'not silence notices on the %s' % (h, role))


sites = {}


def entries(s):
    if isinstance(s, ListV):
        return s.entries
    if isinstance(s, DictV):
        return [(e[1], e[0]) for e in s.entries.values()]
    raise AnchorError('identifiers to silence: %s' % type(s).__name__)


def source(p):
    """('i', ('e', ('hv', msg, 'httpolice-silence'), n), 0)"""
    if p[0] == 'i' and p[2] == 0 and p[1][0] in ('e', 'the') and \
            isinstance(p[1][1], tuple) and p[1][1][0] == 'hv' and \
            p[1][1][2] == 'httpolice-silence':
        return p[1][1][1], p[1]
    return None


def reports(ctx, X, n):
    """A report of an exchange with a silenced and another notice."""
    M, I, R = X.M, X.M.I, X.R
    for name in X.REPORTS:
        for target in ('req', 'resp', 'exch'):
            req, resp = make_request(M, 'req'), make_response(M, 'resp')
            exch = make_exchange(M, req, [resp])
            o = {'req': req, 'resp': resp, 'exch': exch}[target]
            for x in (req, resp):
                for a in ('header_entries', 'trailer_entries'):
                    x.attrs[a] = one(ListV('list', []))
            M.light = True
            try:
                call(I, one(o), 'complain', one(K(1001)))
                call(I, one(o), 'complain', one(K(1002)))
                call(I, one(o), 'silence', one(ListV('list', [
                    (1, one(K(1001)))])))
                state = R.module_state()
                out, _ = R.report(name, {'exch': exch})
                for x, old in state:
                    x.entries = old
            finally:
                M.light = False
            del I.faults[:]
            for i, there in ((1001, False), (1002, True)):
                n['obligations'] += 1
                g = 0
                for kind, _, pc, v, site, _ in out:
                    for gv, s in v.alts:
                        if mentions(I.pathof(s), i):
                            g = I.m.or_(g, I.m.and_(pc, gv))
                if there and g != 1 or not there and g != 0:
                    ctx.violation(
                        'report/%s-%s-%s' % (name, target, i),
                        'httpolice/reports/%s.py' % name,
                        'the %s report %s notice %s, which is %s on %s' % (
                            name, 'does not always show' if there else
                            'shows', i, 'reported' if there else 'silenced',
                            LABEL[target]))


def mentions(p, i):
    if not isinstance(p, tuple):
        return False
    if p and p[0] == 'k':
        return p[-1] == i or isinstance(p[-1], str) and \
            re.search(r'\b%d\b' % i, p[-1]) is not None
    return any(mentions(q, i) for q in p)


def views(ctx, X, n):
    """Notices about different headers are different, whatever their values
    (Blackboard.complain compares them)."""
    M = X.model()
    W = Words(M)
    I = M.I
    for word, names in (
            ('"a"', ('ETag', 'If-Match', 'If-None-Match')),
            ('5', ('Age', 'Content-Length', 'Retry-After')),
            ('Thu, 31 Dec 2015 18:26:56 GMT', (
                'Date', 'If-Modified-Since', 'If-Unmodified-Since',
                'Last-Modified', 'Expires')),
            ('no-cache', ('Cache-Control', 'Pragma')),
            ('return=minimal', ('Prefer', 'Preference-Applied')),
            ('a', ('X-One', 'X-Two', 'Vary', 'Allow'))):
        W.words.clear()
        for i in range(len(names)):
            W.words['ev', i] = parse_word(word)
        W.begin([(name, False, one(K(None))) for name in names])
        vs = [W.view(name) for name in names]
        for v in vs:
            W.get(lambda: I.getattr(v, 'value'))
        for i, v in enumerate(vs):
            for j, w in enumerate(vs):
                n['obligations'] += 1
                I.pc = 1
                e = I.compare('Eq', v, w)
                if e != (i == j):
                    ctx.violation(
                        'views%s' % ('' if i != j else '/same'),
                        'httpolice/header.py (HeaderView)',
                        'of two notices, one about %s and one about %s with '
                        'the same value, the second is dropped' % (
                            names[i], names[j]) if i != j else
                        '%s is not equal to itself, so that notices about '
                        'it are repeated' % names[i])
    I.pc = 1
    del I.faults[:]


def writers(ctx, X, n):
    """Who else touches what notices and silenced identifiers are kept in."""
    files = {s[0] for s in sites.values()}
    kept = fields(ctx)
    for d, _, fs in os.walk(os.path.join(ctx.root, 'httpolice')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, ctx.root)
            with open(p) as fh:
                tree = ast.parse(fh.read())
            for c in ast.walk(tree):
                if isinstance(c, ast.Attribute) and c.attr in kept and \
                        rel != BB:
                    n['obligations'] += 1
                    ctx.violation('touches/%s' % rel, '%s:%d' % (
                        rel, c.lineno), 'touches %s, which belongs to '
                        'Blackboard' % c.attr)
                if isinstance(c, ast.Call) and \
                        isinstance(c.func, ast.Attribute) and \
                        c.func.attr == 'silence':
                    n['obligations'] += 1
                    if rel not in (BB, 'httpolice/cli.py') and \
                            not any(x.endswith(rel) for x in files):
                        ctx.violation('silences/%s' % rel, '%s:%d' % (
                            rel, c.lineno), 'silences notices, though '
                            'neither the user nor a header asked for it')


def fields(ctx):
    """The attributes that Blackboard keeps lists and sets in, but which are
    not part of its interface."""
    out = set()
    with open(os.path.join(ctx.root, BB)) as f:
        for c in ast.walk(ast.parse(f.read())):
            if isinstance(c, ast.ClassDef) and c.name == 'Blackboard':
                for a in ast.walk(c):
                    if isinstance(a, ast.Attribute) and \
                            isinstance(a.ctx, ast.Store) and \
                            a.attr.startswith('_'):
                        out.add(a.attr)
    if not out:
        raise AnchorError('the state of Blackboard was not found')
    return out
