"""Interpreting the reports on everything that the checks can report."""
from . import catalogue
from .headval import Words
from .model import (Event, INT, Model, STR, make_exchange, make_request,
                    make_response)
from .rules import run_exchange
from .values import ClassV, DictV, K, ListV, NONE, O, Sy, V, one


class Reports:

    def __init__(self, M):
        self.M, self.I = M, M.I
        self.complaint = M.global_('httpolice.blackboard', 'Complaint')
        self.all = M.global_('httpolice.notice', 'all_notices')
        self.notices = {}
        for kk, e in self.all.entries.items():
            k = self.I.prim_of(e[0].single())
            self.notices[k.v] = e[2]
        self.typed()

    def typed(self):
        """The types of what describes a parse error (see parse.py)."""
        M = self.M
        optstr = ('union', (('none',), STR))
        sym = M.global_('httpolice.parse', 'Symbol')
        cite = ClassV('Citation of a symbol', [M.citation_cls()], {}, None)
        names, cites, titles, self.pivots = set(), set(), set(), []
        for n, mod in self.I.modules.items():
            if not n.startswith(('httpolice.syntax', 'httpolice.parse')):
                continue
            for v in mod.ns.values():
                for _, x in v.alts:
                    if not (isinstance(x, O) and x.cls.is_sub(sym)):
                        continue
                    c = self.value(x, 'citation')
                    cites.add(type(c) is O)
                    if type(c) is O:
                        titles.add(self.value(c, 'title'))
                    if self.value(x, 'is_pivot'):
                        self.pivots.append(x)
                        names.add(self.value(x, 'name'))

        def opt(vs, ty):
            return ty if all(vs) else ('union', (('none',), ty))
        cite.meta['attrs'] = {'title': opt(titles, STR), 'url': STR}
        sym.meta['attrs'] = {'name': opt(names, STR),
                             'citation': opt(cites, ('cls', cite, None))}
        found = [('const', ('bytes', K(b))) for b in (
            b'', b'A', b'5', b' ', b'!', b'\0', b'\x80', b'\xff')]
        self.I.exc_attrs['ParseError'] = {
            'name': optstr, 'position': INT,
            'found': ('union', tuple([('none',)] + found)),
            'expected': ('list', ('tuple', (optstr, ('union', (
                ('none',), ('list', ('cls', sym, None)))))))}

    def value(self, o, name):
        s = self.I.getattr(one(o), name).single()
        return s.v if isinstance(s, K) else s

    def targets(self, r):
        objs = {'exch': r['exch'], 'req': r['req']}
        for i, x in enumerate(r['resps']):
            objs['resp' if i == 0 else 'resp%d' % (i + 1)] = x
        return {n: o for n, o in objs.items() if o is not None}

    def event(self, name, r, e):
        """The report when just this event has happened.

        Returns (what was written, faults)."""
        I = self.I
        o = self.targets(r)[e.target]
        # the elements of lists that the event is about, as individuals
        mp = {x: ('the', x[1], x[2]) for x in e.open}
        kw = {n: I.subst_value(v, mp) for n, v in e.kwargs.items()} \
            if mp else dict(e.kwargs)
        saved = [(x, dict(x.attrs), [
            (y, y.entries.copy()) for v in x.attrs.values()
            for _, y in v.alts if isinstance(y, (DictV, ListV))])
            for x in self.targets(r).values()]
        state = self.module_state()
        f0 = len(I.faults)
        kg = {}
        for n, f in (('get', self.M.i_kget),
                     ('__contains__', self.M.i_kcontains)):
            n = 'httpolice.known:Knowledge.' + n
            kg[n] = I.intercepts.get(n)
            I.intercepts[n] = f
        try:
            # the messages themselves are looked at separately
            for x in self.targets(r).values():
                for a in ('header_entries', 'trailer_entries'):
                    if a in x.attrs:
                        x.attrs[a] = one(ListV('list', []))
                for v in x.attrs.values():
                    for _, y in v.alts:
                        if isinstance(y, DictV):
                            y.entries = {
                                k: e for k, e in y.entries.items()
                                if k != ('k', 'displayable_body')}
                if 'remark' in x.attrs:
                    x.attrs['remark'] = NONE
            self.M.light = True
            I.pc = I.subst_bdd(e.guard, mp) if mp else e.guard
            if len(I.m.support(I.pc)) > 20:
                # only that it is reported matters
                kw = {n: V([(I.m.constrain(g, I.pc), x) for g, x in v.alts
                            if I.m.and_(g, I.pc)]) for n, v in kw.items()}
                I.pc = I.m.atom(('reported', e.id))
            self.complain(o, e.id, kw)
            I.pc = 1
            out, faults = self.report(name, r)
            faults = I.faults[f0:] + faults
            del I.faults[f0:]
            return out, faults
        finally:
            self.M.light = False
            for n, f in kg.items():
                if f is None:
                    del I.intercepts[n]
            I.pc = 1
            for x, old in state:
                x.entries = old
            for x, attrs, conts in saved:
                x.attrs.clear()
                x.attrs.update(attrs)
                for y, es in conts:
                    y.entries = es

    def complain(self, o, nid, kw):
        I = self.I
        saved = {n: I.intercepts.pop(n) for n in list(I.intercepts)
                 if n.startswith('httpolice.blackboard:')}
        try:
            I.call(I.getattr(one(o), 'complain'), [one(K(nid))], kw)
        finally:
            I.intercepts.update(saved)

    def module_state(self):
        """Mutable objects that the modules of the reports hold."""
        out = []
        for n, mod in self.I.modules.items():
            if n.startswith('httpolice.reports'):
                for v in mod.ns.values():
                    for _, x in v.alts:
                        if isinstance(x, (DictV, ListV)):
                            out.append((x, x.entries.copy()))
        return out

    def report(self, name, r):
        I = self.I
        f = self.M.global_('httpolice.reports.' + name, name + '_report')
        buf = O(I.modules['httpio'].ns['StringIO'].single(), {})
        n0, f0 = len(I.sinks.out), len(I.faults)
        I.call(one(f), [one(ListV('list', [(1, one(r['exch']))])),
                        one(buf)], {})
        out, faults = I.sinks.out[n0:], I.faults[f0:]
        del I.faults[f0:], I.sinks.out[n0:]
        return out, faults


class Item:
    """A notice being reported somewhere, and how a report shows it."""

    def __init__(self, where, report, event, writes, faults, strs):
        self.where = where
        self.report = report
        self.event = event
        self.writes = writes
        self.faults = faults
        self.strs = strs


class Rendering:
    """All notices that the interpreted code can report, in both reports."""

    REPORTS = ('text', 'html')

    def __init__(self, root):
        self.root = root
        self.M = self.model()
        self.M.install_rules()
        self.R = Reports(self.M)
        self.ids = set()
        self.sites = {}
        self.done = set()

    def model(self):
        return Model(self.root, prepare=catalogue.install,
                     modules=('notice', 'reports.text', 'reports.html'))

    def watch(self, I):
        strs = []

        def on(s, p):
            c = I.clsof(s)
            if c is not None and c.lookup('__str__') is not None or \
                    I.pytype(p) in ('str', 'int', 'float'):
                return
            strs.append((s, p, I.pc, I.site()))
        I.on_str = on
        return strs

    def one(self, R, r, e, where):
        """Render one event, unless the like of it has been."""
        I = R.I
        key = (where[0], r['req'] is None, e.id, e.site, tuple(sorted(e.kwargs)),
               tuple(sorted((n, tuple(kind(I, s) for _, s in v.alts))
                            for n, v in e.kwargs.items())))
        if key in self.done:
            return
        self.done.add(key)
        self.ids.add(e.id)
        self.sites.setdefault(e.id, []).append((where, e))
        if e.id not in R.notices:
            yield Item(where, None, e, [], [(
                'KeyError', 'no notice %s' % (e.id,), e.guard, e.site, (),
                e.open)], [])
            return
        for name in self.REPORTS:
            strs = self.watch(I)
            n0, u0 = len(I.risks), len(I.untyped)
            writes, faults = R.event(name, r, e)
            I.on_str = None
            faults = faults + [
                (x[0], '%s of %s' % (x[1], x[2]), x[2], x[4], (), ())
                for x in I.risks[n0:]] + [
                ('TypeError', 'value of unknown kind %s' % str(k)[:80], 1,
                 I.untyped[k], (), ()) for k in list(I.untyped)[u0:]]
            yield Item(where, name, e, writes, faults, strs)

    def rules(self):
        M, R = self.M, self.R
        for cfg, name in (((True, 1), 'request and response'),
                          ((True, 0), 'request without response'),
                          ((False, 1), 'response without request'),
                          ((True, 2), 'request with two responses')):
            r = run_exchange(M, *cfg)
            for e in r['events']:
                if e.kind == 'complain':
                    yield from self.one(R, r, e, ('rules', name))

    def base(self):
        return run_exchange(self.M, True, 1)

    def payload(self, getters):
        """Notices reported while decoding the body."""
        M, R, I = self.M, self.R, self.M.I
        r = self.base()
        for role, mk in (('req', make_request), ('resp', make_response)):
            for n in getters:
                M.concrete = (n,)
                I.pc = 1
                e0, f0 = len(M.events), len(I.faults)
                I.getattr(one(mk(M, role)), n)
                del I.faults[f0:]
                I.pc = 1
                M.concrete = ()
                for e in M.events[e0:]:
                    if e.kind == 'complain':
                        yield from self.one(R, r, e, ('payload', n))

    def semantic(self):
        """Notices of the grammar, with what every caller of parse() adds."""
        M, R, I = self.M, self.R, self.M.I
        r = self.base()
        for mn, mod in sorted(I.modules.items()):
            if not mn.startswith('httpolice.syntax.') or \
                    not hasattr(mod, 'ns'):
                continue
            for gn, v in sorted(mod.ns.items()):
                s = v.single()
                if isinstance(s, O) and M.G.is_symbol(s):
                    M.G.result(s)
        for evs in list(M.G.notices.values()):
            for nid, es in evs.items():
                for g, kw, site in es:
                    kw = dict(kw, place=I.sy(('place',), STR))
                    if any(p[:1] == ('semctx',) for v in kw.values()
                           for p in [I.vpath(v)]):
                        continue        # handed on by an inner parse()
                    els = set(I.bdd_elems(g))
                    for v in kw.values():
                        els |= set(I.value_elems(v))
                    e = Event('complain', nid, g, 'req', kw, site,
                              tuple(sorted(els, key=repr)), ())
                    yield from self.one(R, r, e, ('semantic', 'grammar'))

    def views(self, words):
        """Notices of the header views, on the words of spec/values.txt."""
        M = self.words_model = self.model()
        R = Reports(M)
        W = Words(M)
        I = M.I
        I.intercepts.setdefault(
            'httpolice.message:Message.displayable_body', M.i_payload)
        r = {'exch': make_exchange(M, None, [W.msg]), 'req': None,
             'resps': [W.msg]}
        for name, f in words:
            W.load(name, f.split(' ++ '))
            events = list(M.events)
            for e in events:
                e.target = 'resp'
                if e.guard:
                    yield from self.one(R, r, e, ('views', name))
            I.pc = 1

    def errors(self):
        """What is shown of a parse error, for every byte there may be."""
        M, I = self.M, self.M.I
        cls = M.global_('httpolice.parse', 'ParseError')
        f = M.global_('httpolice.reports.common', 'expand_error')
        for b in [None, b''] + [bytes([i]) for i in range(256)]:
            f0 = len(I.faults)
            I.pc = 1
            e = I.call(one(cls), [NONE, one(K(3)),
                                  one(ListV('list', []))],
                       {'found': one(K(b))})
            v = I.call(one(f), [e], {})
            faults = I.faults[f0:]
            del I.faults[f0:]
            I.pc = 1
            yield b, v, faults


def kind(I, s):
    if isinstance(s, K):
        return type(s.v).__name__
    if isinstance(s, O):
        return s.cls.name
    c = I.clsof(s)
    if c is not None:
        return c.name
    if isinstance(s, Sy):
        return str(s.ty)[:200]
    return type(s).__name__
