"""Result-type inference for the combinator grammar.

The grammar object graph is what the analysis obtains by evaluating the
`httpolice.parse` combinators and the `httpolice.syntax` modules (module-level
code only: no input is ever parsed).  For every symbol the semantic actions are
interpreted once on abstract nodes, giving the type of its parse result, the
notices the action can report and the exceptions it can raise.
"""
import itertools

from .values import (ANY, B, BoundV, ClassV, Contract, DictV, ExtV, FuncV, K,
                     ListV, NatV, O, Sy, TupV, V, NONE, k, one, ty_label,
                     ty_union)

SKIP = ('skip',)


def v2ty(I, v, depth=0):
    return ty_union([s2ty(I, s, depth) for g, s in v.alts if g != 0])


def s2ty(I, s, depth=0):
    if depth > 8:
        return ANY
    if isinstance(s, K):
        if s.v is None:
            return ('none',)
        if isinstance(s.v, tuple):
            return ('tuple', tuple(s2ty(I, K(x), depth + 1) for x in s.v))
        return ('const', (type(s.v).__name__, s))
    if isinstance(s, B):
        return ('prim', 'bool')
    if isinstance(s, Sy):
        if s.path[0] == 'ci':
            return ('const', ('ci:' + s.path[1] + ':' + ty_label(s.ty), s))
        return s.ty
    if isinstance(s, TupV):
        return ('tuple', tuple(v2ty(I, x, depth + 1) for x in s.items))
    if isinstance(s, ListV):
        if s.opaque is not None:
            return ('list', ANY)
        if not s.entries:
            return ('list', None)
        tys = []
        for g, v in s.entries:
            tys += [s2ty(I, x, depth + 1) for g2, x in v.alts
                    if I.m.and_(g, g2) != 0]
        return ('list', ty_union(tys) if tys else None)
    if isinstance(s, O):
        c = s.cls
        if c.name == 'Unavailable':
            return ('unav',)
        if c is I.symbol_cls or (I.symbol_cls is not None and
                                 c.is_sub(I.symbol_cls)):
            return ('const', ('sym', s))
        nf = I.nt_fields(c)
        if nf is not None and s.prim is not None:
            p = s.prim.single()
            if isinstance(p, TupV):
                return ('cls', c, tuple(v2ty(I, x, depth + 1)
                                        for x in p.items))
            return ('cls', c, None)
        if I.cls_base(c) in ('str', 'int', 'bytes', 'float'):
            p = s.prim.single() if s.prim is not None else None
            return ('cls', c, None)
        if c.meta.get('enum'):
            return ('const', ('enum', s))
        names = sorted(s.attrs)
        if names:
            c.meta.setdefault('attr_order', tuple(names))
            if tuple(names) == c.meta['attr_order']:
                return ('cls', c, tuple(v2ty(I, s.attrs[n], depth + 1)
                                        for n in names))
        return ('cls', c, None)
    return ANY


class Grammar:

    def __init__(self, I):
        self.I = I
        pm = I.import_module('httpolice.parse')
        self.pm = pm

        def cls(n):
            v = pm.ns.get(n)
            return v.alts[0][1] if v is not None else None
        self.Symbol = cls('Symbol')
        I.symbol_cls = self.Symbol
        self.Terminal = cls('Terminal')
        self.Repeated = cls('RepeatedNonterminal')
        self.SKIP = cls('_SKIP')
        self.memo = {}
        self.busy = set()
        self.notices = {}       # id(symbol) -> {(notice id, ctx keys)}
        self.raises = {}        # id(symbol) -> [(fault, symbols)]
        self.outs = {}          # id(symbol) -> [(symbols, alternatives)]
        self.deps = {}
        self.actions = 0
        self.rule_memo = {}

    # -- structure ----------------------------------------------------------
    def attr(self, o, name):
        v = self.I.getattr(one(o), name)
        return v.single()

    def is_symbol(self, s):
        return isinstance(s, O) and s.cls.is_sub(self.Symbol)

    def is_terminal(self, o):
        return o.cls.is_sub(self.Terminal)

    def is_repeated(self, o):
        return o.cls.is_sub(self.Repeated)

    def rules(self, o):
        """[(symbols, action simple or None)] of a nonterminal."""
        r = self.rule_memo.get(id(o))
        if r is not None:
            return r
        I = self.I
        saved = I.pc
        I.pc = 1
        rv = self.attr(o, 'rules')
        out = []
        for _, x in I.entries_of(one(rv)):
            rule = x.single()
            syms = [v.single() for _, v in
                    I.entries_of(rule.attrs['symbols'])]
            act = rule.attrs['action'].single()
            if isinstance(act, K):
                act = None
            out.append((syms, act))
        I.pc = saved
        self.rule_memo[id(o)] = (out)
        return out

    def mask(self, o):
        return self.attr(o, 'bits').v.mask

    def name(self, o):
        s = o.attrs.get('name')
        s = s.single() if s is not None else None
        return s.v if isinstance(s, K) else None

    # -- result types ---------------------------------------------------------
    def result(self, o):
        """Type of the parse result of symbol `o` (None while recursive)."""
        r = self.memo.get(id(o))
        if r is not None:
            return r
        if id(o) in self.busy:
            return None
        if o.label is None:
            n = self.name(o)
            if isinstance(n, str):
                o.label = ('sym', n)
        if self.is_terminal(o):
            r = self.terminal_type(o)
            self.memo[id(o)] = r
            return r
        self.busy.add(id(o))
        try:
            if self.is_repeated(o):
                inner = o.attrs['inner'].single()
                t = self.result(inner)
                if t is None:
                    return None
                r = ('list', t)
            else:
                tys = []
                for syms, act in self.rules(o):
                    t = self.rule_result(o, syms, act)
                    if t is not None:
                        tys.append(t)
                if not tys:
                    return None
                r = ty_u(tys)
        finally:
            self.busy.discard(id(o))
        self.memo[id(o)] = r
        return r

    def terminal_type(self, o):
        mask = self.mask(o)
        n = bin(mask).count('1')
        if n == 1:
            return ('const', ('str', K(chr(mask.bit_length() - 1))))
        if n == 2:
            cs = [chr(i) for i in range(256) if mask >> i & 1]
            if cs[0].lower() == cs[1] and ord(cs[1]) < 128:
                return ('const', ('ci:' + cs[1] + ':str',
                                  Sy(('ci', cs[1]), ('prim', 'str'))))
        return ('prim', 'str')

    def rule_result(self, o, syms, act):
        tys = []
        for s in syms:
            t = self.result(s)
            if t is None:
                return None
            tys.append(t)
        # Split alternatives that are skipped.
        opts = []
        for t in tys:
            parts = t[1] if t[0] == 'union' else (t,)
            nos = [x for x in parts if x != SKIP]
            alt = []
            if len(nos) != len(parts):
                alt.append(SKIP)
            if nos:
                alt.append(ty_union(nos) if len(nos) > 1 else nos[0])
            opts.append(alt)
        res = []
        for combo in itertools.islice(itertools.product(*opts), 64):
            t = self.apply(o, combo, act, syms)
            if t is not None:
                res.append(t)
        return ty_u(res) if res else None

    def apply(self, o, combo, act, syms=()):
        I = self.I
        nodes = []
        for i, t in enumerate(combo):
            if t == SKIP:
                nodes.append(one(self.SKIP))
            else:
                nodes.append(I.sy(('g', i), t))
        if act is None:
            out = [(1, TupV(nodes))]
        else:
            self.actions += 1
            saved = (I.pc, I.faults, I.tries, I.open, I.journal, I.frames)
            I.pc, I.faults, I.tries, I.open, I.journal = 1, [], [], [], []

            def complain(I2, args, kwargs):
                nid = args[0].single()
                nid = nid.v if isinstance(nid, K) else None
                self.notices.setdefault(id(o), {}).setdefault(
                    nid, []).append((I.pc, dict(kwargs), I.site()))
                return NONE
            r = I.call(one(act), [one(NatV('complain', complain)),
                                  one(TupV(nodes))], {})
            if I.faults:
                self.raises.setdefault(id(o), []).extend(
                    (x, syms) for x in I.faults)
            dead = I.pc == 0
            (I.pc, I.faults, I.tries, I.open, I.journal, I.frames) = saved
            if dead:
                return None
            out = list(r.alts)
        self.outs.setdefault(id(o), []).append((syms, out))
        tys = []
        for _, s in out:
            items = None
            if isinstance(s, TupV):
                items = list(s.items)
            elif isinstance(s, K) and isinstance(s.v, tuple):
                items = [k(x) for x in s.v]
            elif isinstance(s, ListV):
                items = [v for _, v in s.entries]
            if items is None:
                tys.append(ANY)
                continue
            per = []
            for v in items:
                if v.single() is self.SKIP:
                    continue
                per.append(v2ty(I, v))
            if not per:
                tys.append(SKIP)
            elif len(per) == 1:
                tys.append(per[0])
            else:
                tys.append(('tuple', tuple(per)))
        return ty_u(tys)

    # -- reachable symbols -------------------------------------------------------
    def reachable(self, o, seen=None):
        seen = {} if seen is None else seen
        todo = [o]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen[id(x)] = x
            if self.is_terminal(x):
                continue
            for syms, _ in self.rules(x):
                todo.extend(syms)
        return seen

    def semantic_notices(self, o):
        """Notices that parsing `o` successfully may report."""
        self.result(o)
        r = {}
        for i, x in self.reachable(o).items():
            self.result(x)
            for nid, evs in self.notices.get(i, {}).items():
                r.setdefault(nid, []).extend(evs)
        return r


def ty_u(tys):
    """ty_union that keeps the skip marker."""
    flat = []
    for t in tys:
        flat += list(t[1]) if t[0] == 'union' else [t]
    sk = any(t == SKIP for t in flat)
    rest = [t for t in flat if t != SKIP]
    if not rest:
        return SKIP
    u = ty_union(rest)
    if not sk:
        return u
    return ('union', ((SKIP,) + (u[1] if u[0] == 'union' else (u,))))
