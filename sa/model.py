"""Contracts that stand for already-verified components, and message models.

The rule modules (message/request/response/exchange) are analysed *assuming*
that the header views, the parser, the blackboard and the knowledge tables
behave as specified; those assumptions are discharged by separate checks
(C20 for the views and comparison operators, C09/C10 for the grammar, C18 for
the tables, C06 for the blackboard).
"""
import glob
import os

from .gtypes import Grammar, v2ty
from .interp import Interp, elemvars, subst_path
from .values import (ANY, B, BoundV, ClassV, Contract, DictV, ExtV, FuncV, K,
                     ListV, NatV, NONE, O, PropV, Sy, TupV, UNDEF, V, WrapV,
                     k, one, ty_union)

STR = ('prim', 'str')
BYTES = ('prim', 'bytes')
INT = ('prim', 'int')


class AnchorError(Exception):
    """A construct the analysis is anchored on has vanished."""


class Event:
    __slots__ = ('kind', 'id', 'guard', 'target', 'kwargs', 'site', 'open',
                 'stack', 'obj')

    def __init__(self, kind, id_, guard, target, kwargs, site, open_, stack):
        self.kind = kind
        self.id = id_
        self.guard = guard
        self.target = target
        self.kwargs = kwargs
        self.site = site
        self.open = open_
        self.stack = stack
        self.obj = None

    def __repr__(self):
        return 'Event(%s %s @%s %s)' % (self.kind, self.id, self.target,
                                        self.site)


# --------------------------------------------------------------------------

class Model:

    def __init__(self, root, all_syntax=True, modules=(), prepare=None):
        I = self.I = Interp(root)
        I.model = self
        if prepare is not None:
            prepare(I)
        self.root = root
        I.import_module('httpolice')
        for n in ('known', 'structure', 'parse', 'blackboard', 'header',
                  'message', 'request', 'response', 'exchange') + \
                tuple(modules):
            mod = I.import_module('httpolice.' + n)
            if isinstance(mod, ExtV):
                raise AnchorError('module httpolice.%s not found' % n)
        if all_syntax:
            for f in sorted(glob.glob(os.path.join(
                    root, 'httpolice', 'syntax', '*.py'))):
                b = os.path.basename(f)[:-3]
                if b != '__init__':
                    I.import_module('httpolice.syntax.' + b)
        self.load_faults = list(I.faults)
        del I.faults[:]
        self.G = Grammar(I)
        self.known = I.modules['httpolice.known'].ns
        self.header_k = self.global_('httpolice.known', 'header')
        self.h = self.global_('httpolice.known', 'h')
        self.st = I.modules['httpolice.structure'].ns
        self.hv_cls = self.global_('httpolice.header', 'HeaderView')
        self.events = []
        self.hinfo_memo = {}
        self.access = []
        self.lk_dom = {}
        self.opaque_payload = True
        self.light = False
        self.known_citation = ClassV('Citation', [self.citation_cls()], {},
                                     None)
        self.known_citation.meta['attrs'] = {
            'title': ('union', (('none',), STR)), 'url': STR}
        self.concrete = ()
        self.muted = 0
        self.silences = []
        self.parse_events = []

    def global_(self, mod, name):
        v = self.I.modules[mod].ns.get(name)
        if v is None:
            raise AnchorError('%s.%s not found' % (mod, name))
        return v.alts[0][1]

    def cls(self, name):
        v = self.st.get(name)
        if v is None:
            raise AnchorError('httpolice.structure.%s not found' % name)
        return v.alts[0][1]

    # -- installation --------------------------------------------------------
    def install_parse(self):
        self.I.intercepts['httpolice.parse:parse'] = self.i_parse

    def install_rules(self):
        I = self.I
        self.install_parse()
        I.intercepts['httpolice.blackboard:Blackboard.complain'] = \
            self.i_complain
        I.intercepts['httpolice.blackboard:Blackboard.silence'] = \
            self.i_silence
        I.intercepts['httpolice.known:Knowledge.get'] = self.i_kget
        I.intercepts['httpolice.known:Knowledge.__contains__'] = \
            self.i_kcontains
        for meth in ('get', '__getitem__', '__contains__', 'getall',
                     'duplicates', 'index', '__iter__', '__len__',
                     'dictionary'):
            I.intercepts['httpolice.structure:MultiDict.' + meth] = \
                self.i_multidict
        I.class_intercepts['httpolice.header:HeadersView'] = self.i_headers
        I.class_intercepts['httpolice.known:KnowledgeAccessor'] = None
        I.class_intercepts.pop('httpolice.known:KnowledgeAccessor')
        I.fields.update({'item': 0, 'param': 1})
        self.payload = {}
        for name in ('decoded_body', 'guessed_charset', 'unicode_body',
                     'json_data', 'xml_data', 'multipart_data',
                     'url_encoded_data', 'displayable_body'):
            I.intercepts['httpolice.message:Message.' + name] = \
                self.i_payload

    def i_payload(self, I, f, args, kwargs):
        name = f.name.rpartition('.')[2]
        if name == 'displayable_body' and self.light:
            return one(TupV([one(K('')), one(ListV('list', []))]))
        if not self.opaque_payload or name in self.concrete:
            return None
        o = args[0].alts[0][1]
        role = self.role(o)
        self.access.append((name, role, I.pc, tuple(I.open), I.site()))
        p = ('pl', role, name)
        ty = {
            'decoded_body': ('union', (('none',), ('unav',), BYTES)),
            'unicode_body': ('union', (('none',), ('unav',), STR)),
            'guessed_charset': ('union', (('none',), STR)),
            'json_data': ANY,
            'xml_data': ANY,
            'multipart_data': ('union', (('none',), ('unav',),
                                         ('prim', 'emailmsg'))),
            'url_encoded_data': ('union', (('none',), ('unav',),
                                           ('prim', 'qsdict'))),
            'displayable_body': ('tuple', (
                ('union', (('none',), ('unav',), STR)), ('list', STR))),
        }[name]
        return I.sy(p, ty)

    def role(self, o):
        lab = o.label if isinstance(o, O) else None
        if isinstance(lab, tuple) and lab and lab[0] == 'msg':
            return lab[1]
        return '?'

    # -- blackboard ------------------------------------------------------------
    def record(self, kind, id_, target, kwargs, I=None):
        I = self.I
        if self.muted:
            return
        self.events.append(Event(kind, id_, I.pc, target, kwargs, I.site(),
                                 tuple(I.open), tuple(I.stack_sites())))

    def i_complain(self, I, f, args, kwargs):
        pos = list(args)
        o = pos[0].alts[0][1] if pos else None
        if len(pos) > 1:
            idv = pos[1]
        else:
            kwargs = dict(kwargs)
            idv = kwargs.pop('notice_id', NONE)
        if len(pos) != 2 and 'notice_id' not in kwargs and len(pos) != 2:
            pass
        for g, s in I.live(idv):
            nid = I.prim_of(s)
            pc0 = I.pc
            I.pc = g
            self.record('complain', nid.v if isinstance(nid, K) else
                        ('sym', I.pathof(s)),
                        self.role(o) if o is not None else '?', dict(kwargs))
            I.pc = pc0
        return NONE

    def i_silence(self, I, f, args, kwargs):
        o = args[0].alts[0][1]
        v = args[1] if len(args) > 1 else kwargs.get('notice_ids', NONE)
        self.silences.append((self.role(o), I.pc, v, I.site()))
        return NONE

    # -- parser ------------------------------------------------------------------
    def i_parse(self, I, f, args, kwargs):
        kwargs = dict(kwargs)
        pos = list(args)
        names = ['data', 'symbol', 'complain', 'fail_notice_id',
                 'annotate_classes']
        b = {}
        for n, v in zip(names, pos):
            b[n] = v
        for n in names:
            if n in kwargs:
                b[n] = kwargs.pop(n)
        data = b.get('data', NONE)
        symbol = b.get('symbol', NONE)
        complain = b.get('complain', NONE)
        fail = b.get('fail_notice_id', NONE)
        ann = b.get('annotate_classes', NONE)

        def go(s):
            return I.split(data, lambda d: self.parse1(
                I, d, s, complain, fail, ann, kwargs))
        return I.split(symbol, go)

    def parse1(self, I, d, s, complain, fail, ann, extra):
        G = self.G
        if isinstance(d, (K, B, O)):
            d0 = I.prim_of(d)
            if isinstance(d0, (K, B)) and I.pytype(d0) not in ('str',
                                                               'bytes') or \
                    isinstance(d0, O) and d0.prim is None:
                what = 'None' if isinstance(d0, K) and d0.v is None else \
                    I.pytype(d0) or getattr(getattr(d0, 'cls', None),
                                            'name', '?')
                I.fault('AttributeError', '%s passed to parse()' % what)
                return NONE
        if isinstance(d, Sy) and I.pytype(d) not in ('str', 'bytes', None):
            I.fault('AttributeError', '%s passed to parse()' % I.pytype(d))
            return NONE
        if not G.is_symbol(s) if isinstance(s, O) else True:
            if isinstance(s, Sy):
                ty, name = ANY, ('symbol', s.path)
            else:
                I.fault('AttributeError', 'parse() with a non-symbol')
                return NONE
        else:
            ty = G.result(s)
            if ty is None:
                ty = ANY
            name = self.symname(s)
            if G.attr(s, 'name') is None:
                pass
        dp = I.pathof(d)
        path = ('parse', dp, name)
        fk = fail.single()
        self.parse_events.append((fk.v if isinstance(fk, K) else None, dp,
                                  s, name, I.pc, I.site()))
        m = I.m
        bad = I.atom('isunav', path)
        pc0 = I.pc
        I.pc = m.and_(pc0, bad)
        if I.pc:
            fs = fail.single()
            if isinstance(fs, K) and fs.v is None:
                pe = I.modules['httpolice.parse'].ns.get('ParseError')
                exc = pe.alts[0][1] if pe is not None else 'Exception'
                ev = one(Sy(('exc', 'ParseError', path), ('exc', exc)))
                I.do_raise(I.pc, ev, exc)
                I.pc = 0
            else:
                kw = dict(extra)
                kw['error'] = one(Sy(('exc', 'ParseError', path),
                                     ('exc', 'ParseError')))
                I.call(complain, [fail], kw)
                I.pc = m.and_(pc0, bad)
        badpc = I.pc
        I.pc = m.diff(pc0, bad)
        cs = complain.single()
        if I.pc and isinstance(s, O) and \
                not (isinstance(cs, K) and cs.v is None):
            for nid, evs in sorted(G.semantic_notices(s).items(),
                                   key=lambda x: str(x[0])):
                a = I.atom('sem', path, nid)
                save = I.pc
                I.pc = m.and_(save, a)
                kw = dict(extra)
                for (_, kk, _) in evs:
                    for n in kk:
                        kw[n] = I.unknown(('semctx', path, nid, n))
                if I.pc:
                    I.call(complain, [k(nid)], kw)
                I.pc = save
        I.pc = m.or_(I.pc, badpc)
        if badpc == 0:
            r = I.sy(path, ty)
        else:
            r = I.ite(bad, I.make_unav(path), I.sy(path, ty))
        self.parse_sites = getattr(self, 'parse_sites', 0) + 1
        a = ann.single()
        if isinstance(a, K) and not a.v:
            return r
        return one(TupV([r, one(Sy(('annotated', path), ('list', ANY)))]))

    def symname(self, s):
        n = s.attrs.get('name')
        n = n.single() if n is not None else None
        if isinstance(n, K) and isinstance(n.v, str):
            return n.v
        if s.label is not None:
            return s.label[1] if s.label[0] == 'sym' else s.label
        # An anonymous symbol: named by the module global holding it.
        for mn in ('request', 'response', 'message', 'framing1'):
            mod = self.I.modules.get('httpolice.' + mn)
            if mod is None:
                continue
            for gn, v in mod.ns.items():
                if v.single() is s:
                    s.label = ('sym', gn)
                    return gn
        n = self.__dict__.setdefault('anon', [])
        n.append(s)
        s.label = ('sym', 'anon%d' % len(n))
        return s.label[1]

    # -- knowledge tables --------------------------------------------------------
    def keypath(self, s):
        I = self.I
        p = I.pathof(s)
        c = I.clsof(s)
        if c is not None and any(x.name == 'CaseInsensitive' for x in c.mro):
            if p[0] == 'k':
                return ('k', 'str', p[2].lower())
            return lower_path(p)
        return p

    def i_kget(self, I, f, args, kwargs):
        if len(args) < 2:
            return None
        kv = args[1]
        if all(I.norm_simple(s) is not None for _, s in kv.alts):
            if len(kv.alts) == 1:
                return None

        def go(s):
            if isinstance(s, K) and s.v is None:
                return one(DictV())
            if I.norm_simple(s) is not None:
                h = I.intercepts.pop('httpolice.known:Knowledge.get')
                try:
                    return I.call(one(f), [args[0], one(s)], {})
                finally:
                    I.intercepts['httpolice.known:Knowledge.get'] = h
            table = args[0].alts[0][1]
            return one(KInfo(table, self.keypath(s)))
        return I.split(kv, go)

    def i_kcontains(self, I, f, args, kwargs):
        kv = args[1]
        if all(I.norm_simple(s) is not None for _, s in kv.alts):
            return None

        def go(s):
            nk = I.norm_simple(s)
            table = args[0].alts[0][1]
            if nk is not None:
                raw = table.attrs['raw_by_key'].single()
                return I.bv(I.dict_has(raw, one(s)))
            return one(B(I.atom('known', self.table_name(table),
                                self.keypath(s))))
        return I.split(kv, go)

    def table_name(self, table):
        return I_str(table.attrs['name'])

    def table_domain(self, table, field):
        """Possible values of `field` over the rows of a table."""
        kk = (id(table), field)
        r = self.lk_dom.get(kk)
        if r is not None:
            return r
        I = self.I
        raw = table.attrs['raw_by_key'].single()
        tys = []
        has_none = True
        seen = set()
        saved = (I.pc, I.open, I.tries, I.journal)
        I.pc, I.open, I.tries, I.journal = 1, [], [], []
        for e in list(raw.entries.values()):
            d = I.call_method(table, 'get', [e[0]]).single()
            if not isinstance(d, DictV):
                continue
            x = d.entries.get(('k', field))
            if x is None:
                continue
            s = x[2].single()
            if isinstance(s, K):
                if (type(s.v), s.v) not in seen:
                    seen.add((type(s.v), s.v))
                    tys.append(('const', (type(s.v).__name__, s)))
            elif isinstance(s, O) and s.cls.meta.get('enum'):
                if (id(s.cls), s.label) not in seen:
                    seen.add((id(s.cls), s.label))
                    tys.append(('const', ('enum', s)))
            elif isinstance(s, O) and s.cls.is_sub(self.citation_cls()):
                tys.append(('cls', s.cls, None))
                for a in ('title', 'url'):
                    v = I.pathof(s.attrs[a].single())
                    if not (v[:2] == ('k', 'str') or
                            v[:2] == ('k', 'NoneType') and a == 'title'):
                        tys[-1] = ANY
            else:
                tys = None
                break
        I.pc, I.open, I.tries, I.journal = saved
        if tys and all(t[0] == 'cls' for t in tys):
            r = ('union', (('none',), ('cls', self.known_citation, None)))
        elif tys and len(tys) > 8 and all(
                t[0] == 'const' and t[1][0] == 'str' for t in tys):
            r = ('union', (('none',), STR))
        elif tys is None or len(tys) > 8:
            r = ANY
        else:
            tys.sort(key=lambda t: repr(I.pathof(t[1][1])))
            r = ('union', (('none',),) + tuple(tys)) if tys else ('none',)
        self.lk_dom[kk] = r
        return r

    def citation_cls(self):
        return self.global_('httpolice.citation', 'Citation')

    # -- MultiDict -------------------------------------------------------------
    def i_multidict(self, I, f, args, kwargs):
        s = args[0].single()
        if not isinstance(s, Sy):
            return None
        name = f.name.rpartition('.')[2]
        p = s.path
        kt, vt = self.md_types(s)
        if name == 'dictionary':
            return one(MDict(s))
        if name == '__len__':
            return one(Sy(('len', ('mdseq', p)), INT))
        if name == '__iter__':
            e = ('e', ('mdkeys', p), 0)
            return one(ListV('iter', [(I.atom('elem', e), I.sy(e, kt))]))
        if name == 'duplicates':
            e = ('e', ('mdkeys', p), 0)
            g = I.m.and_(I.atom('elem', e), I.atom('mddup', e))
            return one(ListV('list', [(g, I.sy(e, kt))]))
        key = args[1] if len(args) > 1 else kwargs.get('name', NONE)

        def go(ks):
            kp = self.mdkey(ks)
            has = I.atom('mdhas', p, kp)
            if name == '__contains__':
                return I.bv(has)
            if name == 'getall':
                e = ('e', ('mdall', p, kp), 0)
                return one(ListV('list', [(I.m.and_(has, I.atom('elem', e)),
                                           I.sy(e, md_val(vt)))]))
            if name == 'index':
                bad = I.m.diff(I.pc, has)
                if bad:
                    pc0 = I.pc
                    I.pc = bad
                    I.raise_named('ValueError', 'MultiDict.index of a '
                                  'missing key', certain=True)
                    I.pc = I.m.and_(pc0, has)
                return one(Sy(('mdidx', p, kp), INT))
            val = I.sy(('md', p, kp), md_val(vt))
            if name == '__getitem__':
                bad = I.m.diff(I.pc, has)
                if bad:
                    pc0 = I.pc
                    I.pc = bad
                    I.raise_named('KeyError', 'MultiDict lookup of %s' %
                                  (kp[-1],), certain=True)
                    I.pc = I.m.and_(pc0, has)
                return val
            default = args[2] if len(args) > 2 else \
                kwargs.get('default', NONE)
            return I.ite(has, val, default)
        return I.split(key, go)

    def mdkey(self, ks):
        p = self.I.pathof(ks)
        if p[0] == 'k' and isinstance(p[2], str):
            return ('k', 'str', p[2].lower())
        return lower_path(p)

    def md_types(self, s):
        t = s.ty
        if t[0] == 'cls' and len(t) > 2 and t[2]:
            st = t[2][0]
            if st[0] == 'list' and st[1] is not None and \
                    st[1][0] == 'tuple' and len(st[1][1]) == 2:
                return st[1][1]
            if st[0] == 'list' and st[1] is not None and \
                    st[1][0] == 'cls' and len(st[1]) > 2 and st[1][2]:
                return st[1][2][:2]
        return (ANY, ANY)

    # -- headers ---------------------------------------------------------------
    def i_headers(self, I, cls, args, kwargs):
        msg = args[0] if args else kwargs.get('message')
        return one(Headers(self, cls, msg.alts[0][1]))

    def header_info(self, key):
        """(kind, view class, element type / value type, knowledge) of a
        header with a constant name."""
        name = key_name(key)
        r = self.hinfo_memo.get(name)
        if r is not None:
            return r
        I = self.I
        G = self.G
        saved = (I.pc, I.open, I.tries, I.journal, I.faults)
        I.pc, I.open, I.tries, I.journal, I.faults = 1, [], [], [], []
        self.muted += 1
        try:
            rule = I.call_method(self.header_k, 'rule_for',
                                 [one(key)]).single()
            rule = rule.label if isinstance(rule, O) else None
            syn = I.call_method(self.header_k, 'syntax_for',
                                [one(key)]).single()
            hs = self.global_('httpolice.header', 'HeadersView')
            sc = hs.lookup('special_cases').single()
            cls = None
            if I.dict_has(sc, one(key)) == 1:
                cls = I.dict_get(sc, one(key)).single()
            kind = rule
            if cls is not None:
                names = {c.name for c in cls.mro}
                kind = 'multi' if 'MultiHeaderView' in names else 'single'
            elif rule == 'single':
                cls = self.global_('httpolice.header', 'SingleHeaderView')
            elif rule == 'multi':
                cls = self.global_('httpolice.header', 'MultiHeaderView')
            else:
                kind = 'unknown'
                cls = self.global_('httpolice.header', 'UnknownHeaderView')
            if isinstance(syn, O):
                ty = G.result(syn) or ANY
            else:
                ty = BYTES
            knowledge = None
            args_view = any(c.name == 'ArgumentsView' for c in cls.mro)
            dirs = any(c.name == 'DirectivesView' for c in cls.mro)
            if args_view:
                kv = cls.lookup('knowledge')
                knowledge = kv.single() if kv is not None else None
                if isinstance(syn, O):
                    ty = self.processed_type(cls, ty)
            r = (kind, cls, ty, knowledge, dirs, syn)
        finally:
            self.muted -= 1
            I.pc, I.open, I.tries, I.journal, I.faults = saved
        self.hinfo_memo[name] = r
        return r

    def processed_type(self, cls, ty):
        """Type of the header value after `_process_parsed`."""
        I = self.I
        msg = O(self.global_('httpolice.message', 'Message'), {},
                label=('msg', 'probe'))
        view = O(cls, {'message': one(msg), 'name': cls.lookup('name')
                       or NONE}, label=('probe-view',))
        parts = ty[1] if ty[0] == 'union' else (ty,)
        out = []
        for t in parts:
            v = I.sy(('probe', cls.name, t[0]), t)
            r = I.call_method(view, '_process_parsed', [NONE, v])
            if I.pc == 0:
                I.pc = 1
                continue
            out.append(v2ty(I, r))
        return ty_union(out) if out else ANY


def I_str(v):
    s = v.single()
    return s.v if isinstance(s, K) else '?'


def md_val(t):
    """Value type of a MultiDict: a mixed union is kept opaque, because the
    type merge has lost which key has which type."""
    if t[0] == 'union':
        parts = [x for x in t[1] if x[0] != 'none']
        if len(parts) == 1:
            return t
        return ANY
    return t


def lower_path(p):
    if p[0] == 'm' and p[1] == 'lower':
        return p
    if p[0] == 'k' and isinstance(p[2], str):
        return ('k', 'str', p[2].lower())
    return ('m', 'lower', p)


def key_name(key):
    p = key.prim.single() if isinstance(key, O) and key.prim is not None \
        else key
    return p.v.lower() if isinstance(p, K) and isinstance(p.v, str) else None


class SimpleContract(Contract):
    __slots__ = ()

    def elems(self):
        return set(elemvars(self.path()))

    def subst(self, I, mp):
        return self

    def truth(self, I):
        return 1

    def compare(self, I, nm, y):
        return None

    def contains(self, I, x):
        return I.atom('in', I.pathof(x), self.path())

    def iterate(self, I):
        e = ('e', self.path(), 0)
        return [(I.atom('elem', e), I.sy(e, ANY))]

    def getitem(self, I, i):
        return I.unknown(('item', self.path(), I.pathof(i)))

    def call(self, I, args, kw):
        I.fault('TypeError', 'calling %s' % (self.path(),))
        return NONE

    def isinstance_(self, I, c):
        return 0

    def length(self, I):
        return one(Sy(('len', self.path()), INT))

    def setattr(self, I, n, v):
        pass

    def getattr(self, I, name, default=None):
        return I.unknown(('a', self.path(), name))


class KInfo(SimpleContract):
    """The processed table row of a symbolic key."""
    __slots__ = ('table', 'kp')

    def __init__(self, table, kp):
        self.table = table
        self.kp = kp

    def key(self):
        return ('KInfo', id(self.table), self.kp)

    def path(self):
        return ('row', I_str(self.table.attrs['name']), self.kp)

    def subst(self, I, mp):
        p = subst_path(self.kp, mp)
        return self if p is self.kp else KInfo(self.table, p)

    def truth(self, I):
        return I.atom('known', I_str(self.table.attrs['name']), self.kp)

    def lookup(self, I, f):
        if f == 'key':
            c = self.table.attrs['cls'].alts[0][1]
            return I.sy(('lk', I_str(self.table.attrs['name']), f, self.kp),
                        ('union', (('none',), ('cls', c, None))))
        return I.sy(('lk', I_str(self.table.attrs['name']), f, self.kp),
                    I.model.table_domain(self.table, f))

    def getattr(self, I, name, default=None):
        if name == 'get':
            def get(I2, args, kw):
                f = args[0].single()
                if not isinstance(f, K):
                    return I2.unknown(('row', self.path(),
                                       I2.vpath(args[0])))
                v = self.lookup(I2, f.v)
                d = args[1] if len(args) > 1 else None
                if d is None:
                    return v
                none = I2.m.disj(g for g, s in v.alts
                                 if isinstance(s, K) and s.v is None)
                return I2.ite(none, d, v)
            return one(NatV('row.get', get))
        return I.unknown(('a', self.path(), name))

    def getitem(self, I, i):
        if isinstance(i, K):
            return self.lookup(I, i.v)
        return I.unknown(('row', self.path(), I.pathof(i)))


class MDict(SimpleContract):
    """`MultiDict.dictionary` of a symbolic MultiDict."""
    __slots__ = ('sy_',)

    def __init__(self, s):
        self.sy_ = s

    def key(self):
        return ('MDict', self.sy_.path)

    def path(self):
        return ('mddict', self.sy_.path)

    def subst(self, I, mp):
        return MDict(I.subst_simple(self.sy_, mp))

    def truth(self, I):
        return I.atom('truthy', ('mdseq', self.sy_.path))

    def contains(self, I, x):
        return I.atom('mdhas', self.sy_.path, I.model.mdkey(x))


# --------------------------------------------------------------------------

class Headers(SimpleContract):
    """`HeadersView` of one message."""
    __slots__ = ('model', 'cls', 'msg')

    def __init__(self, model, cls, msg):
        self.model = model
        self.cls = cls
        self.msg = msg

    def role(self):
        return self.model.role(self.msg)

    def key(self):
        return ('Headers', self.role(), id(self.msg))

    def path(self):
        return ('headers', self.role())

    def elems(self):
        return set()

    def view(self, I, key):
        def go(s):
            if I.norm_simple(s) is not None and key_name(s) is not None:
                fn = self.model.cls('FieldName')
                if I.clsof(s) is None:
                    # a bare string is not equal to a FieldName key unless
                    # it hashes alike; treat like the class
                    pass
                return one(HView(self.model, self.msg, s))
            if isinstance(s, Sy):
                return one(HView(self.model, self.msg, s))
            I.fault('KeyError', 'headers[%s]' % (I.pathof(s),))
            return NONE
        return I.split(key, go)

    def getattr(self, I, name, default=None):
        if name == '_message':
            return one(self.msg)
        if name == '__class__':
            return one(self.cls)
        if name == 'names':
            return one(ListV('iter', self.names(I)))
        if name == 'enumerate':
            return one(NatV('headers.enumerate', self.do_enumerate))
        if name == '_cache':
            return I.unknown(('headers-cache', self.role()))
        cv = self.cls.lookup(name)
        if cv is not None and name not in ('__init__',):
            return I.bind_class_attr(cv, self, self.cls)
        key = I.getattr(one(self.model.h), name, default)
        if I.pc == 0:
            return NONE
        if default is not None and key is default:
            return default
        return self.view(I, key)

    def names(self, I):
        e = ('e', ('headers', self.role()), 0)
        fn = self.model.cls('FieldName')
        return [(I.atom('elem', e), one(Sy(e, ('cls', fn, None))))]

    def iterate(self, I):
        return [(g, one(HView(self.model, self.msg, v.alts[0][1])))
                for g, v in self.names(I)]

    def getitem(self, I, i):
        return self.view(I, one(i))

    def do_enumerate(self, I, args, kw):
        nm = args[0] if args else kw.get('name')
        p = ('entries', self.role(), I.vpath(nm) if nm is not None else None)
        e = ('e', p, 0)
        he = self.model.cls('HeaderEntry')
        return one(ListV('list', [(I.atom('elem', e), one(TupV([
            one(B(I.atom('truthy', ('i', e, 0)))),
            one(Sy(('i', e, 1), INT)),
            one(Sy(('i', e, 2), ('cls', he, None)))])))]))

    def contains(self, I, x):
        return I.any_eq(self.names(I), x)


class HView(SimpleContract):
    """`HeaderView` of one header (name constant or symbolic)."""
    __slots__ = ('model', 'msg', 'name')

    def __init__(self, model, msg, name):
        self.model = model
        self.msg = msg
        self.name = name

    def role(self):
        return self.model.role(self.msg)

    def key(self):
        return ('HView', self.role(), self.npath())

    def npath(self):
        n = key_name(self.name)
        if n is not None:
            return n
        return lower_path(self.model.I.pathof(self.name))

    def path(self):
        return ('hdr', self.role(), self.npath())

    def subst(self, I, mp):
        n = I.subst_simple(self.name, mp)
        return self if n is self.name else HView(self.model, self.msg, n)

    def const(self):
        return key_name(self.name) is not None

    def info(self):
        if not self.const():
            return ('sym', self.model.hv_cls, ANY, None, False, None)
        return self.model.header_info(self.name)

    @property
    def cls(self):
        return self.info()[1]

    def present(self, I):
        if not self.const() and isinstance(self.name, Sy) and \
                self.name.path[0] == 'e' and \
                self.name.path[1] == ('headers', self.role()):
            # present unless only a forbidden trailer: keep symbolic
            pass
        return I.atom('present', self.role(), self.npath())

    def vp(self):
        return ('hv', self.role(), self.npath())

    def parsed(self, I):
        """The parsed value of a present header."""
        kind, cls, ty, knowledge, dirs, syn = self.info()
        p = self.vp()
        if kind == 'unknown':
            return one(Sy(p, BYTES))
        if kind == 'sym':
            return I.sy(p, ANY)
        if kind == 'single':
            if not isinstance(syn, O):
                return I.sy(p, ty)
            return I.ite(I.atom('isunav', p), I.make_unav(p), I.sy(p, ty))
        # multi
        lists, sing = [], []
        for t in (ty[1] if ty[0] == 'union' else (ty,)):
            (lists if t[0] in ('list', 'any') else sing).append(t)
        et = ANY
        if lists and lists[0][0] == 'list':
            et = lists[0][1] or ANY
        ut = ('union', (('unav',), et)) if et != ANY and et[0] != 'union' \
            else (('union', (('unav',),) + et[1]) if et[0] == 'union'
                  else ANY)
        lv = one(Sy(p, ('list', ut)))
        if not sing:
            return lv
        return I.ite(I.atom('singular', p), I.sy(p, ty_union(sing)), lv)

    def value(self, I):
        kind = self.info()[0]
        self.model.access.append(('value', self.path(), I.pc,
                                  tuple(I.open), I.site()))
        v = self.parsed(I)
        if kind == 'multi':
            # An absent list header has the value [].
            p = self.vp()
            alts = []
            m = I.m
            for g, s in v.alts:
                if isinstance(s, Sy) and s.ty[0] == 'list':
                    alts.append((g, s))
                else:
                    alts.append((g, s))
            return V(tuple(alts))
        return I.ite(self.present(I), v, NONE)

    def okay(self, I):
        m = I.m
        kind = self.info()[0]
        p = self.present(I)
        if kind == 'multi':
            return 1
        if kind == 'unknown':
            return p
        v = self.parsed(I)
        bad = m.disj(g for g, s in v.alts
                     if isinstance(s, O) and s.cls.name == 'Unavailable'
                     or isinstance(s, Sy) and s.ty[0] == 'unav'
                     or isinstance(s, K) and s.v is None)
        if kind == 'sym':
            return I.atom('okay', self.vp())
        return m.diff(p, bad)

    def isinstance_(self, I, c):
        if isinstance(c, ClassV):
            return 1 if c in self.cls.mro else 0
        return 0

    def truth(self, I):
        m = I.m
        kind = self.info()[0]
        if kind == 'multi':
            return I.truth(self.value(I))
        pc0 = I.pc
        t = m.and_(self.present(I), I.truth(self.parsed(I)))
        I.pc = pc0
        return t

    def compare(self, I, nm, y):
        m = I.m
        if isinstance(y, HView):
            if nm == 'eq':
                return 1 if y.key() == self.key() else 0
            if nm == 'ne':
                return 0 if y.key() == self.key() else 1
            I.fault('TypeError', 'ordering two header views')
            return 0
        ok = self.okay(I)
        if isinstance(y, K) and y.v is None or \
                isinstance(y, O) and y.cls.name == 'Unavailable' or \
                isinstance(y, Sy) and y.ty[0] in ('unav', 'none'):
            return 0
        pc0 = I.pc
        g = m.and_(pc0, ok)
        if g == 0:
            return 0
        I.pc = g
        v = self.value(I)
        op = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE',
              'gt': 'Gt', 'ge': 'GtE'}[nm]
        b = I.compare(op, v, one(y))
        I.pc = m.or_(I.pc, m.diff(pc0, ok))
        return m.and_(ok, b)

    def iterate(self, I):
        m = I.m
        kind, cls, ty, knowledge, dirs, syn = self.info()
        itf = cls.lookup('__iter__')
        if kind != 'multi':
            v = self.value(I)
            out = []
            return I.entries_of(v)
        v = self.value(I)
        out = []
        for g, s in v.alts:
            pc0 = I.pc
            I.pc = m.and_(pc0, g)
            if I.pc == 0:
                I.pc = pc0
                continue
            for g2, x in I.entries1(s):
                for g3, y in x.alts:
                    if isinstance(y, O) and y.cls.name == 'Unavailable':
                        continue
                    h = m.conj([g, g2, g3])
                    if h:
                        out.append((h, one(y)))
            I.pc = m.or_(I.pc, m.diff(pc0, g)) if I.pc else \
                m.diff(pc0, g)
        # merge alternatives of one element
        by = {}
        res = []
        for g, x in out:
            kk = I.pathof(x.alts[0][1])
            els = tuple(sorted(I.bdd_elems(g), key=repr))
            kk = els
            if els and kk in by:
                i = by[kk]
                og, ox = res[i]
                alts = list(ox) + [(g, x.alts[0][1])]
                res[i] = (m.or_(og, g), alts)
            else:
                by[kk] = len(res)
                res.append((g, [(g, x.alts[0][1])]))
        fin = []
        for g, alts in res:
            if len(alts) == 1:
                fin.append((g, one(alts[0][1])))
            else:
                fin.append((g, V(tuple((m.constrain(a, g), s)
                                       for a, s in alts))))
        return fin

    def contains(self, I, x):
        pc0 = I.pc
        r = I.any_eq(self.iterate(I), x)
        return r

    def length(self, I):
        I.fault('TypeError', 'len() of a header view')
        return NONE

    def getattr(self, I, name, default=None):
        m = I.m
        if name == 'is_present':
            return I.bv(self.present(I))
        if name == 'is_absent':
            return I.bv(m.not_(self.present(I)))
        if name == 'is_okay':
            return I.bv(self.okay(I))
        if name == 'value':
            return self.value(I)
        if name == 'name':
            return one(self.name)
        if name == 'message':
            return one(self.msg)
        if name == 'entries':
            he = self.model.cls('HeaderEntry')
            fn = self.model.cls('FieldName')
            return one(Sy(('entries', self.role(), self.npath()),
                          ('list', ('cls', he, (('cls', fn, None), BYTES)))))
        if name == 'total_entries':
            return one(Sy(('nentries', self.role(), self.npath()), INT))
        if name == '__class__':
            return one(self.cls)
        kind, cls, ty, knowledge, dirs, syn = self.info()
        cv = cls.lookup(name)
        if cv is not None:
            return I.bind_class_attr(cv, self, cls)
        if dirs:
            acc = I.getattr(one(knowledge), 'accessor')
            key = I.getattr(acc, name, default)
            if I.pc == 0:
                return NONE
            return I.split(key, lambda s: self.getitem(I, s))
        return I.getattr(self.value(I), name, default)

    def getitem(self, I, i):
        kind, cls, ty, knowledge, dirs, syn = self.info()
        if not dirs:
            I.fault('TypeError', 'indexing a %s' % cls.name)
            return NONE
        m = I.m
        if kind == 'single':
            pc0 = I.pc
            ok = self.okay(I)
            bad = m.diff(pc0, ok)
            if bad:
                I.pc = bad
                I.fault('TypeError', 'directive lookup in a header that is '
                        'absent or malformed')
                I.pc = m.or_(I.pc, m.and_(pc0, ok))
                if I.pc == 0:
                    return NONE
        key = I.norm_simple(i)
        if key is None:
            p = ('dir', self.role(), self.npath(),
                 self.model.keypath(i))
            return I.sy(p, ('union', (('none',), ANY)))
        kp = self.model.keypath(i)
        name = kp[2] if kp[0] == 'k' else kp
        p = ('dir', self.role(), self.npath(), name)
        dt = self.model_dir_type(I, knowledge, i)
        return I.sy(p, ('union', (('none',),) + dt))

    def model_dir_type(self, I, knowledge, key):
        """Types of a present directive's argument."""
        memo = self.model.hinfo_memo
        kk = ('dirtype', id(knowledge), I.pathof(key))
        if kk in memo:
            return memo[kk]
        saved = (I.pc, I.open, I.tries, I.journal)
        I.pc, I.open, I.tries, I.journal = 1, [], [], []
        info = I.call_method(knowledge, 'get', [one(key)])
        arg = I.call(I.getattr(info, 'get'), [k('argument')], {}).single()
        arg = arg.label if isinstance(arg, O) else None
        syn = I.call_method(knowledge, 'syntax_for', [one(key)]).single()
        I.pc, I.open, I.tries, I.journal = saved
        T = []
        tr = ('const', ('bool', K(True)))
        if arg != 'required':
            T.append(tr)
        else:
            T.append(('unav',))
        if arg == 'no':
            T.append(('unav',))
        elif isinstance(syn, O):
            T.append(('unav',))
            t = self.model.G.result(syn) or ANY
            T += list(t[1]) if t[0] == 'union' else [t]
        else:
            T.append(STR)
        out = []
        for t in T:
            if t not in out:
                out.append(t)
        r = tuple(out)
        memo[kk] = r
        return r

    def setattr(self, I, n, v):
        I.undecided.append(('assignment to %s of a header view' % n,
                            I.site()))


# --------------------------------------------------------------------------
# message construction

def make_request(M, role='req'):
    I = M.I
    cls = M.global_('httpolice.request', 'Request')

    def inp(n, ty):
        return I.sy(('in', role, n), ty)
    optstr = ('union', (('none',), STR))
    o = None
    r = construct(M, cls, role, dict(
        scheme=inp('scheme', optstr), method=inp('method', STR),
        target=inp('target', STR), version=inp('version', optstr),
        header_entries=one(ListV('list', [])),
        body=inp('body', ('union', (('none',), ('unav',), BYTES)))))
    return r


def make_response(M, role='resp', req=None):
    I = M.I
    cls = M.global_('httpolice.response', 'Response')

    def inp(n, ty):
        return I.sy(('in', role, n), ty)
    optstr = ('union', (('none',), STR))
    return construct(M, cls, role, dict(
        version=inp('version', optstr), status=inp('status', INT),
        reason=inp('reason', optstr),
        header_entries=one(ListV('list', [])),
        body=inp('body', ('union', (('none',), ('unav',), BYTES)))))


def construct(M, cls, role, kwargs):
    I = M.I
    v = I.call(one(cls), [], kwargs)
    o = v.single()
    if not isinstance(o, O):
        raise AnchorError('constructing %s failed: %r' %
                          (cls.name, I.faults[-1:]))
    o.label = ('msg', role)
    he = M.cls('HeaderEntry')
    fn = M.cls('FieldName')
    et = ('list', ('cls', he, (('cls', fn, None), BYTES)))
    o.attrs['header_entries'] = one(Sy(('hentries', role), et))
    o.attrs['trailer_entries'] = one(Sy(('tentries', role), et))
    return o


def make_exchange(M, req, resps):
    I = M.I
    cls = M.global_('httpolice.exchange', 'Exchange')
    v = I.call(one(cls), [one(req) if req is not None else NONE,
                          one(ListV('list', [(1, one(r))
                                             for r in resps]))], {})
    o = v.single()
    o.label = ('msg', 'exch')
    return o
