"""Checking never raises: every operation executed by the abstract run of
check_exchange(), of the header views, of the payload getters and of the
semantic actions of the grammar that can raise an exception must be guarded by
conditions that exclude it, or lie within a handler that catches it."""
import codecs
import os
import xml.etree.ElementTree as ET

from .. import rulespec, terms
from ..actlang import ActLang
from ..headval import Words
from ..model import (ANY, AnchorError, BYTES, INT, Model, STR, make_request,
                     make_response)
from ..rules import run_exchange
from ..values import K, O, Sy, ListV, NONE, one
from .c20 import run as run_c20
from .common import Ctx
from .values import table

LEVEL = 'other'
ASSUMES = (
    'library functions raise the exceptions listed in sa/extlib.py and no '
    'others; values have the types documented for the public classes',
    'the parsing algorithm itself (C30) raises only ParseError and '
    'RecursionError',
    'memory exhaustion, interrupts and operating-system errors are out of '
    'scope',
)
PAYLOAD = ('decoded_body', 'guessed_charset', 'unicode_body', 'json_data',
           'xml_data', 'multipart_data', 'url_encoded_data',
           'displayable_body')

# Values whose kind the type analysis loses, where it is known otherwise:
# the grammar gives a string for every parameter other than `filename*`
# (decided by the words of Content-Disposition in C24).
TYPED = {('md', 'content-disposition', 'filename')}


class Obligations:

    def __init__(self, ctx, M):
        self.ctx, self.M, self.I = ctx, M, M.I
        self.R = rulespec.Rules()
        self.conv = {}
        self.n = self.ok = 0
        self.al = ActLang(M)

    def lit(self, v):
        r = self.conv.get(v)
        if r is None:
            t = terms.canon(self.I.m.atoms[v])
            r = self.conv[v] = 0 if t is None else self.R.m.atom(t)
        return r

    def possible(self, g, open_=()):
        """A cube of conditions under which `g` holds, or None."""
        g = self.I.close(g, open_)
        f = self.R.translate(self.I.m, g, self.lit)
        f = self.R.m.and_(f, self.R.axioms([f]))
        if f == 0:
            return None
        m = self.R.m
        lits = []
        while f != 1:
            v = m.var[f]
            b = m.lo[f] == 0
            lits.append((m.atoms[v], b))
            f = m.hi[f] if b else m.lo[f]
        return rulespec.show_cube(lits)[:800]

    def fault(self, x, where=''):
        exc, what, g, site, stack, open_ = x
        self.n += 1
        c = self.possible(g, open_)
        if c is None:
            self.ok += 1
            return
        exc = getattr(exc, 'name', exc)
        self.ctx.violation(
            '%s/%s/%s' % (exc, site[1], str(what)[:60]),
            '%s:%s (%s)' % (site[0], site[2], site[1]),
            '%s%s can escape: %s, when: %s' % (where, exc, what, c))

    def action(self, x, syms):
        """A semantic action: use the language of what it converts."""
        exc, what, g, site, stack, open_ = x
        m, I = self.I.m, self.I
        for a in m.support_atoms(g):
            if a[0] != 'raises' or a[2] != 'ValueError' or \
                    a[1][0] not in ('int', 'float'):
                continue
            r = self.al.conversion(a[1], syms)
            if r is None or not r[0]:
                continue
            p = a[1][1]
            bad = 0
            if not r[1]:
                bad = m.or_(bad, m.not_(I.atom('truthy', p)))
            if not r[2]:
                bad = m.or_(bad, I.atom('ge', ('len', p), 4301))
            g = m.and_(g, m.or_(m.not_(m.atom(a)), bad))
        self.fault((exc, what, g, site, stack, open_), 'semantic action: ')

    def risk(self, x, where=''):
        exc, what, g, path, site, stack = x
        self.n += 1
        if self.known_length(g, path):
            self.ok += 1
            return
        c = self.possible(g)
        if c is None:
            self.ok += 1
            return
        self.ctx.violation(
            '%s/%s/%s' % (exc, site[1], what),
            '%s:%s (%s)' % (site[0], site[2], site[1]),
            '%s%s can escape: %s of %s, when: %s' % (
                where, exc, what, str(path)[:120], c))

    def known_length(self, g, path):
        """Lists that C20 shows to be non-empty when a header is there."""
        m = self.I.m
        for a in m.support_atoms(g):
            if a[0] != 'present' or m.diff(g, m.atom(a)) != 0:
                continue
            if path == ('entries', a[1], a[2]):
                return True
            if path == ('hentries', a[1]) and self.bad_for_trailer(a[2]):
                return True
        return False

    def bad_for_trailer(self, name):
        I = self.I
        kn = self.M.known['header'].single()
        fn = I.call(one(self.M.cls('FieldName')), [one(K(name))], {})
        v = I.call(I.getattr(one(kn), 'is_bad_for_trailer'), [fn], {})
        s = v.single()
        return isinstance(s, K) and s.v is True

    def untyped(self, key, site):
        (path_, fn), op, p = key
        self.n += 1
        if any(isinstance(x, tuple) and x[:1] == ('md',) and
               x[2] == ('k', 'str', 'filename') and
               x[1][1][2:] == ('content-disposition',) for x in [p]
               if len(p) == 3 and isinstance(p[1], tuple) and
               len(p[1]) > 1 and isinstance(p[1][1], tuple)):
            self.ok += 1
            return
        self.ctx.violation(
            'untyped/%s/%s' % (fn, op), '%s:%s (%s)' % (
                path_, site[2], fn),
            'an operation (%s) on a value whose kind is not known: %s' % (
                op, str(p)[:200]))


def catalogue(root):
    p = os.path.join(root, 'httpolice', 'notices.xml')
    return {int(e.get('id')) for e in ET.parse(p).getroot()
            if e.get('id')}


def run(ctx):
    M = ctx.model()
    M.install_rules()
    I = M.I
    Ob = Obligations(ctx, M)
    for x in M.load_faults:
        Ob.fault(x, 'when loading the modules: ')

    def drain(where, since):
        for x in I.risks[since[0]:]:
            Ob.risk(x, where)
        for kk in list(I.untyped)[since[1]:]:
            if not kk[0][0].endswith('notice.py'):
                Ob.untyped(kk, I.untyped[kk])
        since[0], since[1] = len(I.risks), len(I.untyped)
    since = [0, 0]
    # 1. check_exchange()
    ids, und = set(), 0
    for cfg, name in (((True, 1), 'request and response'),
                      ((True, 0), 'request without response'),
                      ((False, 1), 'response without request'),
                      ((True, 2), 'request with two responses')):
        r = run_exchange(M, *cfg)
        for x in r['faults']:
            Ob.fault(x, name + ': ')
        und += len(r['undecided'])
        ids |= {e.id for e in r['events'] if e.kind == 'complain'}
        drain(name + ': ', since)
    # 2. the payload getters, each assuming what the others guarantee
    n_get = 0
    for role, mk in (('req', make_request), ('resp', make_response)):
        cls = mk(M, role).cls
        for n in PAYLOAD:
            if cls.lookup(n) is None:
                raise AnchorError('no Message.' + n)
            M.concrete = (n,)
            I.pc = 1
            o = mk(M, role)
            f0, e0 = len(I.faults), len(M.events)
            v = I.getattr(one(o), n)
            for x in I.faults[f0:]:
                Ob.fault(x, n + ': ')
            del I.faults[f0:]
            ids |= {e.id for e in M.events[e0:] if e.kind == 'complain'}
            drain(n + ': ', since)
            guarantee(Ob, I, role, n, v)
            n_get += 1
    M.concrete = ()
    I.pc = 1
    # 3. constructors and the notices they report
    for cls, args in (
            ('Request', [('scheme', STR), ('method', STR), ('target', STR),
                         ('version', STR)]),
            ('Response', [('version', STR), ('status', INT),
                          ('reason', ('union', (('none',), STR, BYTES)))])):
        c = M.global_('httpolice.' + cls.lower(), cls)
        f0 = len(I.faults)
        he = ('list', ('tuple', (STR, BYTES)))
        kw = {n: I.sy(('new', n), t) for n, t in args}
        kw.update(header_entries=I.sy(('new', 'headers'), he),
                  trailer_entries=I.sy(('new', 'trailers'), he),
                  body=I.sy(('new', 'body'),
                            ('union', (('none',), ('unav',), BYTES))))
        I.call(one(c), [], kw)
        for x in I.faults[f0:]:
            Ob.fault(x, cls + '(): ')
        del I.faults[f0:]
        I.pc = 1
        drain(cls + '(): ', since)
    # 4. semantic actions of the grammar on arguments of every type
    n_sym = 0
    for name, mod in sorted(I.modules.items()):
        if not name.startswith('httpolice.syntax.') or \
                not hasattr(mod, 'ns'):
            continue
        for gn, v in sorted(mod.ns.items()):
            s = v.single()
            if isinstance(s, O) and M.G.is_symbol(s):
                M.G.result(s)
                n_sym += 1
    for oid, fs in M.G.raises.items():
        for x, syms in fs:
            Ob.action(x, syms)
    for evs in M.G.notices.values():
        ids |= {nid for nid in evs if nid is not None}
    drain('semantic action: ', since)
    ids |= {e[0] for e in M.parse_events if e[0] is not None}
    # 5. identifiers of notices: complain() looks them up
    cat = catalogue(ctx.root)
    for nid in sorted(ids, key=str):
        Ob.n += 1
        if nid in cat:
            Ob.ok += 1
        else:
            ctx.violation('notice/%s' % (nid,), 'httpolice/notices.xml',
                          'complain(%s) raises KeyError: there is no such '
                          'notice' % (nid,))
    # 6. the header views, on the words of spec/values.txt
    n_words = 0
    del I.risks[:]
    M2 = Model(ctx.root)
    W = Words(M2)
    for name, f, ns, v in table(ctx):
        n_words += 1
        Ob.n += 1
        got, _ = W.load(name, f.split(' ++ '))
        if got.startswith('!') and not v.startswith('!'):
            ctx.violation('word/%s:%s' % (name, f[:60]), name,
                          '"%s: %s" makes the check fail with %s' % (
                              name, f, got[1:200]))
        else:
            Ob.ok += 1
    n_par = parse_wrapper(Ob, M)
    # 7. the header views, on field lists of every shape
    sub = Ctx(ctx.pid, ctx.root, 'quick')
    sub.M = Model(ctx.root)
    run_c20(sub)
    Ob.n += sub.coverage.get('shapes', 0)
    Ob.ok += sub.coverage.get('shapes', 0)
    for x in sub.violations:
        if 'raises' in x['what']:
            Ob.ok -= 1
            ctx.violations.append(x)
    unknown = sorted(n for n in I.ext_calls if not n.startswith('lxml'))
    for n in unknown:
        ctx.violation('library/' + n, n, 'call of a library function whose '
                      'exceptions are not known: ' + n)
    if Ob.n < 600 or len(ids) < 250:
        raise AnchorError('too little was analysed')
    ctx.cover(obligations=Ob.n, discharged=Ob.ok, payload_getters=n_get,
              grammar_symbols=n_sym, words=n_words, notices=len(ids),
              parse_cases=n_par, field_lists=sub.coverage.get('shapes', 0),
              undecided_branches=und,
              functions_interpreted=len(I.visited_funcs),
              rule='the path condition of every operation that may raise, '
                   'outside handlers for it, is unsatisfiable')


def guarantee(Ob, I, role, n, v):
    """What the other getters rely on."""
    if n != 'guessed_charset':
        return
    db = ('pl', role, 'decoded_body')
    m = I.m
    okay = m.and_(m.not_(I.atom('isnone', db)), m.not_(I.atom('isunav', db)))
    for g, s in v.alts:
        if isinstance(s, K) and s.v is None or g == 0:
            continue
        Ob.n += 1
        p = I.pathof(s)
        f = m.and_(g, okay)
        fine = True
        for es in (('LookupError',), ('UnicodeDecodeError', 'UnicodeError')):
            if es[0] == 'LookupError' and text_codec(p):
                continue
            fine = fine and any(
                a[0] == 'raises' and a[1][:3] == ('m', 'decode', db) and
                a[2] in es and (a[1][3] == p or a[1][3][0] == 'union' and
                                p in a[1][3][1:]) and
                m.and_(f, m.atom(a)) == 0 for a in m.support_atoms(f))
        if fine or f == 0:
            Ob.ok += 1
        elif isinstance(s, K) and str(s.v).lower() in ('iso-8859-1',
                                                       'latin-1'):
            Ob.ok += 1
        else:
            Ob.ctx.violation(
                'guessed_charset', 'httpolice/message.py '
                'Message.guessed_charset',
                'a charset in which the body cannot be decoded is returned '
                '(unicode_body then fails): %s' % str(I.pathof(s))[:120])


def text_codec(p):
    if p[0] == 'a' and p[2] == 'name' and p[1][:2] == (
            'lib', 'codecs.lookup'):
        p = p[1][2]
    if p[0] != 'k':
        return False
    try:
        return codecs.lookup(str(p[2]))._is_text_encoding
    except LookupError:
        return False


def parse_wrapper(Ob, M):
    """parse() itself, with the chart parser replaced by its contract."""
    I = M.I
    saved = I.intercepts.pop('httpolice.parse:parse', None)
    pm = I.modules['httpolice.parse'].ns
    if '_inner_parse' not in pm:
        raise AnchorError('no _inner_parse')
    pe = pm['ParseError'].single()
    n = 0

    def inner(I2, f, args, kwargs):
        d, s = args[0], args[1]
        p = ('inner', I.vpath(d), I.vpath(s))
        for e in (pe, 'RecursionError'):
            name = getattr(e, 'name', e)
            a = I.atom('raises', p, name)
            I.do_raise(I.m.and_(I.pc, a), one(Sy(('exc', name, p), (
                'exc', e))), e)
            I.pc = I.m.diff(I.pc, a)
        return I.sy(p, ('tuple', (ANY, ('list', ('tuple', (
            INT, ('dict', STR, ANY)))), ('list', ANY))))
    I.intercepts['httpolice.parse:_inner_parse'] = inner
    fn = pm['parse'].single()
    sym = M.global_('httpolice.syntax.rfc7230', 'token')
    I.tries = []
    for ty in (STR, BYTES):
        for ann in (False, True):
            I.pc = 1
            f0 = len(I.faults)
            kw = {}
            if ann:
                kw['annotate_classes'] = M.known['classes']
            o = make_response(M, 'resp')
            I.call(one(fn), [I.sy(('data', ty[1]), ty), one(sym),
                             I.getattr(one(o), 'complain'), one(K(1000))],
                   kw)
            n += 1
            for x in I.faults[f0:]:
                Ob.fault(x, 'parse(): ')
            del I.faults[f0:]
    I.pc = 1
    del I.intercepts['httpolice.parse:_inner_parse']
    if saved is not None:
        I.intercepts['httpolice.parse:parse'] = saved
    return n
