"""The catalogue of notices: every notice that can be reported is in it once,
complete and well-formed, and every notice in it can be reported; severities
compare as documented."""
import ast
import os
import re
import xml.etree.ElementTree as ET

from ..model import AnchorError
from ..reports import Rendering
from ..values import K, ListV, O, TupV, one
from .c01 import Obligations, PAYLOAD
from .c02 import names
from .values import table

LEVEL = 'other'
ASSUMES = (
    'lxml gives the elements of notices.xml the classes registered for them',
    'notices of the stream and file readers count as reportable when their '
    'number occurs in the code that reports them',
)
ORDER = ('debug', 'comment', 'error')
XML = 'httpolice/notices.xml'


def run(ctx):
    seen = elements(ctx)
    if seen is None:
        return
    try:
        X = Rendering(ctx.root)
    except AnchorError:
        if ctx.violations:
            return
        raise
    X.REPORTS = ()
    M, I = X.M, X.M.I
    n = dict(elements=0, citations=0, known=0, references=0, comparisons=0)
    for x in M.load_faults:
        ctx.violation('load/%s' % str(x[1])[:60], XML,
                      'the catalogue cannot be loaded: %s %s' % (
                          getattr(x[0], 'name', x[0]), str(x[1])[:200]))
    ids = listed(ctx, X, seen)
    for nid in sorted(X.R.notices):
        notice(ctx, X, nid, X.R.notices[nid].single(), n)
    severities(ctx, X, n)
    Ob = Obligations(ctx, M)
    reached, dead = {}, set()
    for items in (X.rules(), X.payload(PAYLOAD), X.semantic()):
        for it in items:
            pass
    reached.update(X.sites)
    possible = set()
    for nid, es in reached.items():
        if any(w[0] == 'semantic' or Ob.possible(e.guard, e.open) is not None
               for w, e in es):
            possible.add(nid)
        else:
            dead.add(nid)
    for it in X.views([(name, f) for name, f, ns, v in table(ctx) if ns]):
        pass
    possible |= {nid for nid, es in X.sites.items()
                 if any(w[0] == 'views' for w, _ in es)}
    for nid, es in sorted(X.sites.items(), key=str):
        if nid not in ids:
            w, e = es[0]
            ctx.violation('%s/none' % nid, '%s:%s (%s)' % (
                e.site[0], e.site[2], e.site[1]),
                'notice %s is reported here but not in the catalogue' % nid)
    static, mentioned = calls(ctx)
    for nid, site in sorted(static.items()):
        if nid not in ids:
            ctx.violation('%s/none' % nid, site, 'notice %s is reported here '
                          'but not in the catalogue' % nid)
    for nid in sorted(ids - possible - mentioned | (dead & ids - possible)):
        ctx.violation('%s/never' % nid, XML, 'notice %s is in the catalogue '
                      'but nothing can report it' % nid)
    if len(ids) < 250 or len(possible) < 250:
        raise AnchorError('too little was found')
    ctx.cover(notices=len(ids), reported_in_abstract_runs=len(possible),
              reported_by_readers=len(ids & mentioned - possible),
              obligations=sum(n.values()) + len(ids), rule=(
                  'the elements of notices.xml and the interpreted catalogue '
                  'agree one to one; title, severity, citations, names and '
                  'references of each are well-formed; reported numbers and '
                  'the catalogue are the same set; Severity is totally '
                  'ordered debug < comment < error'), **n)


def elements(ctx):
    """The notices in the file."""
    p = os.path.join(ctx.root, XML)
    try:
        root = ET.parse(p).getroot()
    except ET.ParseError as e:
        ctx.violation('xml', XML, 'the catalogue is not well-formed: %s' % e)
        return None
    seen = {}
    for e in root:
        i = e.get('id')
        if e.tag not in ORDER:
            ctx.violation('severity/%s' % i, XML, 'notice %s has the unknown '
                          'severity %s' % (i, e.tag))
        if i is None or not re.match(r'^[1-9]\d{3}$', i):
            ctx.violation('id/%s' % i, XML, 'a notice has the identifier %s'
                          % i)
            continue
        if i in seen:
            ctx.violation('twice/%s' % i, XML, 'notice %s is in the '
                          'catalogue twice' % i)
        seen[i] = e
    return seen


def listed(ctx, X, seen):
    """... against those that the program loads."""
    loaded = {str(k) for k in X.R.notices}
    for i in sorted(set(seen) ^ loaded):
        ctx.violation('loaded/%s' % i, 'httpolice/notice.py', 'notice %s is '
                      '%s' % (i, 'not loaded' if i in seen else
                              'loaded but not in the file'))
    return {int(i) for i in set(seen) & loaded}


def notice(ctx, X, nid, s, n):
    """Everything the reports ask of a notice can be had."""
    M, I = X.M, X.M.I

    def bad(key, what):
        ctx.violation('%s/%s' % (nid, key), XML, 'notice %s %s' % (nid, what))

    def get(o, a):
        f0 = len(I.faults)
        I.pc = 1
        v = I.getattr(one(o), a)
        for x in I.faults[f0:]:
            bad('%s/%s' % (a, getattr(x[0], 'name', x[0])),
                'is malformed: getting the %s of <%s> fails with %s (%s)' % (
                    a, tag(o), getattr(x[0], 'name', x[0]), str(x[1])[:120]))
        del I.faults[f0:]
        I.pc = 1
        return v

    def tag(o):
        t = o.attrs['tag'].single() if 'tag' in o.attrs else None
        return t.v if isinstance(t, K) else '?'

    def walk(v, depth=0):
        """The text in a piece, with all of its parts looked at."""
        out = ''
        for _, p in v.alts:
            if isinstance(p, K):
                out += p.v if isinstance(p.v, str) else ''
            elif isinstance(p, ListV):
                for _, x in p.entries:
                    out += walk(x, depth + 1)
            elif isinstance(p, TupV):
                for x in p.items:
                    out += walk(x, depth + 1)
            elif isinstance(p, O) and p.prim is not None:
                n['known'] += 1
                q = I.prim_of(p)
                out += str(q.v) if isinstance(q, K) else '?'
                known(p)
            elif isinstance(p, O):
                out += element(p, depth)
        return out

    def known(p):
        """Whether a protocol item is one that HTTPolice knows about."""
        v = M.global_('httpolice.known', 'citation')
        f0 = len(I.faults)
        c = I.call(one(v), [one(p)], {}).single()
        if isinstance(c, K) and c.v is None:
            bad('known/%s' % I.prim_of(p), 'names the %s %r, which is in none '
                'of the tables' % (p.cls.name, I.prim_of(p).v))
        for x in I.faults[f0:]:
            bad('known/%s' % I.prim_of(p), 'names a %s that cannot be looked '
                'up' % p.cls.name)
        del I.faults[f0:]

    def element(p, depth):
        n['elements'] += 1
        cn = {c.name for c in p.cls.mro}
        if '_Comment' in cn:
            return ''
        if p.cls.name == 'ElementBase':
            bad('vocabulary/%s' % tag(p), 'has the element <%s>, which is '
                'not of the vocabulary' % tag(p))
            return ''
        out = ''
        if 'Cite' in cn:
            n['citations'] += 1
            cite(p)
        if cn & {'Var', 'Ref'}:
            n['references'] += 1
            r = walk(one(ListV('list', [
                (g, one(K('.'.join(seq(x))))) for g, x in get(
                    p, 'reference').alts])))
            if not re.match(r'^[A-Za-z_]\w*(\.[A-Za-z_]\w*)*$', r):
                bad('reference', 'has the malformed reference %r' % r)
            return '?'
        if 'ExceptionDetails' in cn:
            return '?'
        if p.cls.lookup('content') is not None:
            out = walk(get(p, 'content'), depth + 1)
            if 'Known' in cn and not out.strip():
                bad('empty/%s' % tag(p), 'has an empty <%s>' % tag(p))
        return out

    def seq(x):
        xs = x.items if isinstance(x, TupV) else [v for _, v in x.entries] \
            if isinstance(x, ListV) else [one(K(y)) for y in x.v] \
            if isinstance(x, K) else []
        return [v.single().v for v in xs if isinstance(v.single(), K)]

    def cite(p):
        at = {}
        d = p.attrs['_attrib'].single()
        for kk, e in d.entries.items():
            at[kk[1]] = e[2].single().v
        v = get(p, 'info').single()
        if tag(p) == 'rfc':
            for a, rx in (('num', r'[1-9]\d{2,4}'),
                          ('sect', r'\d+(\.\d+)*'),
                          ('appendix', r'[A-Z](\.\d+)*'),
                          ('errata', r'[1-9]\d*')):
                if at.get(a) is not None and not re.match(
                        '^%s$' % rx, at[a]):
                    bad('rfc/' + a, 'cites an RFC with %s=%r' % (a, at[a]))
            if 'num' not in at:
                bad('rfc/num', 'cites an RFC without its number')
            extra = set(at) - {'num', 'sect', 'appendix', 'errata'}
        else:
            if not re.match(r'^https?://\S+$', at.get('url') or ''):
                bad('cite/url', 'cites the address %r' % at.get('url'))
            extra = set(at) - {'title', 'url'}
        if extra:
            bad('cite/extra', 'has a citation with %s' % ', '.join(
                sorted(extra)))
        if isinstance(v, O):
            u = I.getattr(one(v), 'url').single()
            if not isinstance(u, K) or not isinstance(u.v, str) or \
                    not u.v.startswith('http'):
                bad('cite', 'has a citation with no address')

    kid = I.prim_of(get(s, 'id').single())
    if not isinstance(kid, K) or kid.v != nid:
        bad('id', 'does not have its own identifier')
    sev = get(s, 'severity').single()
    short = get(s, 'severity_short').single()
    if not isinstance(sev, O) or member(sev) not in ORDER or \
            member(sev) != tag(s):
        bad('severity', 'does not have the severity of its element')
    elif not isinstance(short, K) or short.v != tag(s)[0].upper():
        bad('severity', 'has the wrong severity letter')
    if not walk(get(s, 'title')).strip():
        bad('title', 'has no title')
    for _, x in get(s, 'explanation').alts:
        walk(one(x))


def member(s):
    lab = getattr(s, 'label', None)
    while isinstance(lab, tuple) and lab:
        lab = lab[-1]
    return lab


def severities(ctx, X, n):
    M, I = X.M, X.M.I
    c = M.global_('httpolice.notice', 'Severity')
    vals = {}
    for name in ORDER:
        I.pc = 1
        vals[name] = I.getattr(one(c), name)
    import operator
    for i, a in enumerate(ORDER):
        for j, b in enumerate(ORDER):
            for op, f in (('Lt', operator.lt), ('LtE', operator.le),
                          ('Gt', operator.gt), ('GtE', operator.ge),
                          ('Eq', operator.eq), ('NotEq', operator.ne)):
                n['comparisons'] += 1
                f0 = len(I.faults)
                g = I.compare(op, vals[a], vals[b])
                if len(I.faults) > f0 or g != (1 if f(i, j) else 0):
                    ctx.violation(
                        'order/%s-%s-%s' % (a, op, b),
                        'httpolice/util/ordered_enum.py',
                        'Severity.%s %s Severity.%s does not hold exactly '
                        'when it should' % (a, op, b))
                del I.faults[f0:]


def calls(ctx):
    """Numbers given to functions that report, and all that are mentioned."""
    static, mentioned = {}, set()
    for d, _, fs in os.walk(os.path.join(ctx.root, 'httpolice')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            with open(p) as fh:
                tree = ast.parse(fh.read())
            for c in ast.walk(tree):
                if isinstance(c, ast.Constant) and type(c.value) is int:
                    mentioned.add(c.value)
                if not isinstance(c, ast.Call):
                    continue
                fn = c.func.attr if isinstance(c.func, ast.Attribute) else \
                    getattr(c.func, 'id', '')
                if fn == 'complain' or fn == 'complaint_box':
                    for x in c.args[:1]:
                        if isinstance(x, ast.Constant) and \
                                type(x.value) is int:
                            static[x.value] = '%s:%d' % (
                                os.path.relpath(p, ctx.root), c.lineno)
    return static, mentioned
