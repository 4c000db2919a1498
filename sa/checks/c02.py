"""Every notice can be rendered with the data it is given: both reports are
interpreted on every notice that the abstract runs of the checks can report,
with exactly the values it is given and under the condition it is reported."""
import ast
import os

from .. import rulespec, terms
from ..model import AnchorError
from ..reports import Rendering
from ..values import DictV, K, ListV, O, Sy, TupV, one
from .c01 import Obligations, PAYLOAD
from .values import table

LEVEL = 'other'
ASSUMES = (
    'dominate accepts text, numbers and its own elements, and lxml builds '
    'the tree of notices.xml (stand-ins in sa/stubs)',
    'notices are reported with the values that the analyses of C01, C13-C17 '
    'and C24 compute; those of the stream and file readers are checked by '
    'the names of their arguments only',
)


def run(ctx):
    X = Rendering(ctx.root)
    Ob = Obligations(ctx, X.M)
    for x in X.M.load_faults:
        Ob.fault(x, 'when loading the modules: ')
    n = dict(rendered=0, writes=0)

    def look(items):
        for it in items:
            n['rendered'] += 1
            n['writes'] += len(it.writes)
            check(ctx, Ob, it)
    look(X.rules())
    look(X.payload(PAYLOAD))
    look(X.semantic())
    Ob.I = X.M.I
    words = [(name, f) for name, f, ns, v in table(ctx)
             if ns]
    views(ctx, X, words, n)
    errors(ctx, X)
    blanks(ctx, X)
    static = arguments(ctx, X)
    missing = sorted(set(X.R.notices) - X.ids - static)
    if n['rendered'] < 400 or len(X.ids) < 250:
        raise AnchorError('too little was analysed')
    ctx.cover(renderings=n['rendered'], pieces_written=n['writes'],
              notices_rendered=len(X.ids), arguments_only=len(static - X.ids),
              not_reached=len(missing), obligations=Ob.n, discharged=Ob.ok,
              rule='interpreting text_report() and html_report() on each '
                   'reported notice raises nothing, and no part of its text '
                   'is None, unavailable or an object without a text form')


def check(ctx, Ob, it):
    e = it.event
    for x in it.faults:
        Ob.n += 1
        exc, what, g, site, stack, open_ = x
        c = Ob.possible(g, open_)
        if c is None:
            Ob.ok += 1
            continue
        exc = getattr(exc, 'name', exc)
        ctx.violation(
            '%s/%s/%s' % (e.id, site[1], exc),
            '%s:%s (%s)' % (e.site[0], e.site[2], e.site[1]),
            'notice %s reported here (%s) makes the %s report fail: %s %s, '
            'at %s:%s (%s), when: %s' % (
                e.id, ', '.join(sorted(e.kwargs)), it.report, exc,
                str(what)[:160], site[0], site[2], site[1], c[:300]))
    Ob.n += 1
    Ob.ok += 1
    for s, p, g, site in it.strs:
        Ob.n += 1
        bad = blank(p)
        if bad is None or Ob.possible(g) is None:
            Ob.ok += 1
            continue
        ctx.violation(
            '%s/shows-%s' % (e.id, bad),
            '%s:%s (%s)' % (e.site[0], e.site[2], e.site[1]),
            'notice %s reported here (%s) is shown in the %s report with %s '
            'in its text (%s:%s)' % (
                e.id, ', '.join(sorted(e.kwargs)), it.report, bad,
                site[0], site[2]))


def blank(p):
    """How a value would look that has no text form of its own."""
    if isinstance(p, K):
        if p.v is None:
            return 'None'
        return None if isinstance(p.v, (str, int, float)) else \
            'a ' + type(p.v).__name__
    if isinstance(p, Sy):
        t = p.ty
        if t[0] == 'none':
            return 'None'
        if t[0] == 'unav':
            return 'an Unavailable'
        if t[0] == 'exc':
            return None
        if t[0] == 'prim' and t[1] in ('datetime', 'date', 'time',
                                       'timedelta'):
            return None
        return 'a value of unknown kind' if t[0] == 'any' else \
            'a ' + str(t[1] if t[0] == 'prim' else t[0])
    if isinstance(p, O):
        return 'an object of ' + p.cls.name
    return 'a ' + type(p).__name__


def views(ctx, X, words, n):
    it = X.views(words)
    Ob = None
    for x in it:
        if Ob is None:
            Ob = Obligations(ctx, X.M)
        n['rendered'] += 1
        n['writes'] += len(x.writes)
        plain(ctx, x)


def plain(ctx, it):
    """Notices on constant words: the conditions are about the word only."""
    e = it.event
    for exc, what, g, site, stack, open_ in it.faults:
        if g:
            ctx.violation(
                '%s/%s/%s' % (e.id, site[1], getattr(exc, 'name', exc)),
                '%s:%s (%s)' % (e.site[0], e.site[2], e.site[1]),
                'notice %s reported here (%s) makes the %s report fail: %s '
                '%s, at %s:%s' % (
                    e.id, ', '.join(sorted(e.kwargs)), it.report,
                    getattr(exc, 'name', exc), str(what)[:160], site[0],
                    site[2]))
    for s, p, g, site in it.strs:
        bad = blank(p)
        if bad is not None and g:
            ctx.violation(
                '%s/shows-%s' % (e.id, bad),
                '%s:%s (%s)' % (e.site[0], e.site[2], e.site[1]),
                'notice %s reported here (%s) is shown in the %s report with '
                '%s in its text' % (e.id, ', '.join(sorted(e.kwargs)),
                                    it.report, bad))


def errors(ctx, X):
    for b, v, faults in X.errors():
        if faults:
            ctx.violation('error/%r' % b, 'httpolice/reports/common.py',
                          'a parse error at the byte %r cannot be shown: %s '
                          '%s' % (b, getattr(faults[0][0], 'name',
                                             faults[0][0]), faults[0][1]))
            continue
        t = flatten(X.M.I, v)
        if t is None or any(not x for x in t) or len(t) < 2 or \
                b is not None and len(t) < 3:
            ctx.violation('error/%r' % b, 'httpolice/reports/common.py',
                          'a parse error at the byte %r is shown as %r' % (
                              b, t))


def flatten(I, v):
    """The paragraphs (text) of a constant explanation."""
    s = v.single()
    if not isinstance(s, ListV):
        return None
    out = []
    for g, p in s.entries:
        ps = p.single()
        if not isinstance(ps, ListV):
            return None
        t = ''
        for g2, x in ps.entries:
            xs = x.single()
            if not isinstance(xs, K) or not isinstance(xs.v, str):
                return None
            t += xs.v
        out.append(t)
    return out


def blanks(ctx, X):
    """Symbols that explanations of parse errors mention have names."""
    for s in X.R.pivots:
        nm = X.R.value(s, 'name')
        if not isinstance(nm, str) or not nm:
            ctx.violation('pivot', 'httpolice/syntax', 'a symbol that parse '
                          'errors mention has no name')


def arguments(ctx, X):
    """Calls that the abstract runs do not reach: names of arguments."""
    roots = {}
    for nid, v in X.R.notices.items():
        roots[nid] = names(X, v.single(), set())
    out = set()
    for d, _, fs in os.walk(os.path.join(ctx.root, 'httpolice')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            with open(p) as fh:
                tree = ast.parse(fh.read())
            for c in ast.walk(tree):
                if not isinstance(c, ast.Call):
                    continue
                fn = c.func.attr if isinstance(c.func, ast.Attribute) else \
                    getattr(c.func, 'id', '')
                a = [x for x in c.args[:1] + [
                    kw.value for kw in c.keywords if kw.arg == 'notice_id']
                    if isinstance(x, ast.Constant) and
                    type(x.value) is int]
                if 'complain' not in fn and fn != 'complaint_box' or \
                        len(a) != 1 or a[0].value in X.ids:
                    continue
                nid = a[0].value
                rel = os.path.relpath(p, ctx.root)
                if nid not in roots:
                    ctx.violation('%s/none' % nid, '%s:%d' % (rel, c.lineno),
                                  'there is no notice %s' % nid)
                    continue
                out.add(nid)
                kws = {kw.arg for kw in c.keywords}
                if None in kws:
                    continue
                own = {'msg', 'req', 'resp', 'exch', 'self', 'place'}
                for r in sorted(roots[nid] - kws - own):
                    ctx.violation(
                        '%s/%s' % (nid, r), '%s:%d' % (rel, c.lineno),
                        'notice %s mentions %s, which is not given here' % (
                            nid, r))
    return out


def names(X, s, seen):
    """The variables that a piece of a notice mentions."""
    out = set()
    if id(s) in seen:
        return out
    seen.add(id(s))
    I = X.M.I
    if isinstance(s, O):
        cn = {c.name for c in s.cls.mro}
        if 'ExceptionDetails' in cn:
            out.add('error')
        if cn & {'Var', 'Ref'}:
            r = I.getattr(one(s), 'reference').single()
            xs = r.items if isinstance(r, TupV) else [
                v for _, v in r.entries] if isinstance(r, ListV) else [
                one(K(x)) for x in r.v] if isinstance(r, K) else []
            if xs and isinstance(xs[0].single(), K):
                out.add(xs[0].single().v)
        for a in ('title', 'explanation', 'content', 'info'):
            if s.cls.lookup(a) is not None or a in s.attrs:
                v = I.getattr(one(s), a)
                I.pc = 1
                for _, x in v.alts:
                    out |= names(X, x, seen)
    elif isinstance(s, (ListV,)):
        for _, v in s.entries:
            for _, x in v.alts:
                out |= names(X, x, seen)
    elif isinstance(s, TupV):
        for v in s.items:
            for _, x in v.alts:
                out |= names(X, x, seen)
    return out
