"""Operations on abstract values: truth, comparison, attributes, items."""
import operator
import re

from .values import (ANY, B, BoundV, ClassV, Contract, DictV, ExtMeth, ExtV,
                     FuncV, K, ListV, ModV, NONE, NatV, O, PropV, Sy, TupV,
                     UNDEF, V, WrapV, k, one, ty_union)

STRT = ('prim', 'str')
BYTEST = ('prim', 'bytes')
INTT = ('prim', 'int')
FLOATT = ('prim', 'float')
BOOLT = ('prim', 'bool')

PYOPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul,
         'Div': operator.truediv, 'FloorDiv': operator.floordiv,
         'Mod': operator.mod, 'Pow': operator.pow, 'BitOr': operator.or_,
         'BitAnd': operator.and_, 'BitXor': operator.xor,
         'LShift': operator.lshift, 'RShift': operator.rshift,
         'MatMult': operator.matmul}
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
          'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'BitOr': 'or',
          'BitAnd': 'and', 'BitXor': 'xor', 'LShift': 'lshift',
          'RShift': 'rshift', 'MatMult': 'matmul'}
CMP = {'Lt': ('lt', operator.lt), 'LtE': ('le', operator.le),
       'Gt': ('gt', operator.gt), 'GtE': ('ge', operator.ge),
       'Eq': ('eq', operator.eq), 'NotEq': ('ne', operator.ne)}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq',
        'ne': 'ne'}


def install(cls):
    for name, fn in list(globals().items()):
        if name.startswith('op_'):
            setattr(cls, name[3:], fn)


# ---------------------------------------------------------------------------
# helpers

def op_unprim(self, s):
    """Strip the class off a str/int subclass instance."""
    if isinstance(s, O) and s.prim is not None:
        p = s.prim.single()
        if p is not None and not isinstance(p, TupV):
            return p
    return s


def op_vpath(self, v):
    s = v.single()
    if s is not None:
        return self.pathof(s)
    alts = self.live(v)
    if len(alts) == 1:
        return self.pathof(alts[0][1])
    ps = sorted({self.pathof(s) for _, s in alts}, key=repr)
    return ps[0] if len(ps) == 1 else ('union',) + tuple(ps)


def op_pathof(self, s):
    if isinstance(s, Sy):
        return s.path
    if isinstance(s, K):
        v = s.v
        if isinstance(v, slice):
            return ('k', 'slice', (v.start, v.stop, v.step))
        try:
            hash(v)
        except TypeError:
            return ('k', type(v).__name__, repr(v))
        return ('k', type(v).__name__, v)
    if isinstance(s, B):
        return ('bool', self.fkey(s.b))
    if isinstance(s, O):
        if s.prim is not None:
            return self.vpath(s.prim)
        if s.label is not None:
            return s.label if isinstance(s.label, tuple) else ('obj', s.label)
        return ('obj', s.cls.name)
    if isinstance(s, TupV):
        return ('t',) + tuple(self.vpath(x) for x in s.items)
    if isinstance(s, ListV):
        if len(s.entries) > 40:
            return ('biglist', len(s.entries))
        return ('l',) + tuple((self.fkey(g) if g != 1 else (),
                               self.vpath(v)) for g, v in s.entries)
    if isinstance(s, DictV):
        return ('dict', s.label if isinstance(s.label, str) else '?')
    if isinstance(s, ClassV):
        return ('class', s.name)
    if isinstance(s, FuncV):
        return ('func', s.name)
    if isinstance(s, ExtV):
        return ('ext', s.name)
    if isinstance(s, Contract):
        return s.path()
    if isinstance(s, BoundV):
        return ('bound', self.pathof(s.func), self.vpath(s.self_))
    if isinstance(s, ExtMeth):
        return ('meth', self.pathof(s.self_), s.name)
    if isinstance(s, ModV):
        return ('mod', s.name)
    return ('?', type(s).__name__)


def op_nt_fields(self, cls):
    for c in cls.mro:
        f = c.meta.get('fields')
        if f is not None:
            return f
    return None


def op_cls_base(self, cls):
    """Builtin base type name of a class ('str', 'int', 'tuple', ...)."""
    if self.nt_fields(cls) is not None:
        return 'tuple'
    for b in cls.ext_bases():
        if isinstance(b, ExtV) and b.name in ('str', 'int', 'bytes', 'float',
                                              'tuple', 'dict', 'list',
                                              'bool'):
            return b.name
    return None


def op_pytype(self, s):
    """Name of the builtin type (or base) of a simple value, or None."""
    if isinstance(s, K):
        return type(s.v).__name__
    if isinstance(s, B):
        return 'bool'
    if isinstance(s, O):
        return self.cls_base(s.cls)
    if isinstance(s, TupV):
        return 'tuple'
    if isinstance(s, ListV):
        return {'iter': 'generator', 'once': 'generator'}.get(s.kind, s.kind)
    if isinstance(s, DictV):
        return 'dict'
    if isinstance(s, Sy):
        t = s.ty
        if t[0] == 'prim':
            return t[1]
        if t[0] == 'cls':
            return self.cls_base(t[1])
        if t[0] in ('tuple', 'list', 'dict'):
            return t[0]
        if t[0] == 'none':
            return 'NoneType'
    return None


def op_clsof(self, s):
    if isinstance(s, O):
        return s.cls
    if isinstance(s, Sy) and s.ty[0] == 'cls':
        return s.ty[1]
    return None


def op_index_sy(self, s, i):
    path = ('i', s.path, i)
    t = s.ty
    if t[0] == 'cls':
        fields = t[2] if len(t) > 2 else None
        if fields is not None and -len(fields) <= i < len(fields):
            return self.sy(path, fields[i])
        return self.sy(path, ANY)
    if t[0] == 'tuple' and -len(t[1]) <= i < len(t[1]):
        return self.sy(('i', s.path, i % len(t[1])), t[1][i])
    if t[0] == 'list':
        return self.sy(path, t[1] if t[1] is not None else ANY)
    if t[0] == 'prim':
        if t[1] == 'str':
            return one(Sy(path, STRT))
        if t[1] == 'bytes':
            return one(Sy(path, INTT))
    return self.sy(path, ANY)


# ---------------------------------------------------------------------------
# truth

def op_truth(self, v):
    m = self.m
    alts = v.alts
    if len(alts) == 1:
        return self.truth1(alts[0][1]) if alts[0][0] == 1 or True else 0
    r = 0
    pc0 = self.pc
    for g, s in alts:
        gg = m.and_(pc0, g)
        if gg == 0:
            continue
        self.pc = gg
        t = self.truth1(s)
        r = m.or_(r, m.and_(g, t))
    self.pc = pc0
    return r


def op_truth1(self, s):
    m = self.m
    if isinstance(s, B):
        return s.b
    if isinstance(s, K):
        return 1 if s.v else 0
    if isinstance(s, Sy):
        t = s.ty
        if t[0] == 'none':
            return 0
        if t[0] in ('unav', 'exc'):
            return 1
        if t[0] == 'cls':
            cls = t[1]
            base = self.cls_base(cls)
            f = cls.lookup('__bool__') or cls.lookup('__len__')
            if f is not None:
                r = self.call_method(s, '__bool__' if cls.lookup('__bool__')
                                     else '__len__', [])
                return self.truth(r)
            if base == 'tuple' or base is None:
                return 1
            if base == 'int':
                return m.not_(self.int_eq(s.path, 0))
        if t == INTT:
            return m.not_(self.int_eq(s.path, 0))
        if t == FLOATT:
            return m.not_(self.atom('eq', s.path, ('k', 'num', 0)))
        if t[0] == 'prim' and t[1] in ('datetime', 'timedelta', 'object',
                                       'codec', 'match'):
            return 1
        return self.atom('truthy', s.path)
    if isinstance(s, O):
        for dn in ('__bool__', '__len__'):
            if s.cls.lookup(dn) is not None:
                return self.truth(self.call_method(s, dn, []))
        if s.prim is not None:
            return self.truth(s.prim)
        return 1
    if isinstance(s, TupV):
        return 1 if s.items else 0
    if isinstance(s, ListV):
        if s.kind in ('iter', 'once'):
            return 1
        return self.nonempty(s)
    if isinstance(s, DictV):
        if s.opaque:
            return self.atom('truthy', ('dict', str(s.label)))
        return m.disj(e[1] for e in s.entries.values())
    if isinstance(s, Contract):
        return s.truth(self)
    return 1


def op_nonempty(self, lst):
    m = self.m
    r = 0
    for g, v in lst.entries:
        if g == 1:
            return 1
        els = self.bdd_elems(g) - set(self.open)
        r = m.or_(r, self.close(g, els))
    if lst.opaque is not None:
        r = m.or_(r, self.atom('truthy', lst.opaque))
    return r


# ---------------------------------------------------------------------------
# comparison

def op_compare(self, op, a, b):
    """BDD of `a op b`."""
    m = self.m
    r = 0
    pc0 = self.pc
    pc1 = 0
    for g1, s in a.alts:
        g = m.and_(pc0, g1)
        if g == 0:
            continue
        for g2, t in b.alts:
            gg = m.and_(g, g2)
            if gg == 0:
                continue
            self.pc = gg
            x = self.compare1(op, s, t)
            pc1 = m.or_(pc1, self.pc)
            r = m.or_(r, m.and_(m.and_(g1, g2), x))
    self.pc = pc1
    return r


def op_compare1(self, op, s, t):
    m = self.m
    if op == 'Is':
        return self.is_same(s, t)
    if op == 'IsNot':
        return m.not_(self.is_same(s, t))
    if op == 'In':
        return self.contains(t, s)
    if op == 'NotIn':
        return m.not_(self.contains(t, s))
    name, fn = CMP[op]
    return self.rich(name, s, t)


def op_rich(self, name, s, t):
    m = self.m
    cs, ct = self.clsof(s), self.clsof(t)
    order = [(s, t, name, False), (t, s, SWAP[name], True)]
    if cs is not ct and ct is not None and \
            self.subclass_of_type(ct, s) and \
            ct.lookup('__%s__' % SWAP[name]) is not None:
        order.reverse()
    for (x, y, nm, refl) in order:
        if isinstance(x, Contract):
            r = x.compare(self, nm, y)
            if r is not None:
                return r
            continue
        cx = self.clsof(x)
        if cx is None:
            continue
        meth = cx.lookup('__%s__' % nm)
        if meth is not None:
            v = self.call(one(BoundV(meth.alts[0][1], one(x))), [one(y)], {})
            if self.pc == 0:
                return 0
            ss = v.single()
            if isinstance(ss, ExtV) and ss.name == 'NotImplemented':
                continue
            return self.truth_ni(v, lambda: self.base_cmp(name, s, t))
        if nm == 'ne':
            meth = cx.lookup('__eq__')
            if meth is not None:
                v = self.call(one(BoundV(meth.alts[0][1], one(x))),
                              [one(y)], {})
                ss = v.single()
                if isinstance(ss, ExtV) and ss.name == 'NotImplemented':
                    continue
                return m.not_(self.truth_ni(
                    v, lambda: self.base_cmp('eq', s, t)))
    return self.base_cmp(name, s, t)


def op_truth_ni(self, v, fallback):
    """Truth of a rich-comparison result that may be NotImplemented on some
    alternatives."""
    m = self.m
    r = 0
    for g, s in self.live(v):
        if isinstance(s, ExtV) and s.name == 'NotImplemented':
            r = m.or_(r, m.and_(g, fallback()))
        else:
            r = m.or_(r, m.and_(g, self.truth1(s)))
    # `live` conjoins pc; keep result meaningful under pc
    return m.constrain(r, self.pc) if self.pc not in (0, 1) and \
        len(v.alts) == 1 else r


def op_subclass_of_type(self, c, s):
    cs = self.clsof(s)
    if cs is not None:
        return c is not cs and c.is_sub(cs)
    pt = self.pytype(s)
    return pt is not None and pt == self.cls_base(c)


def op_base_cmp(self, name, s, t):
    """Comparison of the primitive contents."""
    m = self.m
    if name == 'ne':
        return m.not_(self.base_cmp('eq', s, t))
    s0, t0 = self.prim_of(s), self.prim_of(t)
    if name == 'eq':
        return self.base_eq(s0, t0)
    # ordering
    if isinstance(s0, K) and isinstance(t0, K):
        try:
            return 1 if CMPF[name](s0.v, t0.v) else 0
        except TypeError:
            self.fault('TypeError', 'ordering %s and %s' %
                       (type(s0.v).__name__, type(t0.v).__name__))
            return 0
    for x in (s0, t0):
        if isinstance(x, K) and x.v is None:
            self.fault('TypeError', 'ordering comparison with None')
            return 0
        if isinstance(x, O) and x.prim is None and \
                not x.cls.ext_bases() and \
                x.cls.lookup('__lt__') is None:
            self.fault('TypeError', 'ordering comparison with %s' %
                       x.cls.name)
            return 0
    ta, tb = self.pytype(s0), self.pytype(t0)
    if ta in PRIMS and tb in PRIMS and ta != tb and \
            not {ta, tb} <= {'int', 'float', 'bool'}:
        self.fault('TypeError', 'ordering %s and %s' % (ta, tb))
        return 0
    for x in (s0, t0):
        if isinstance(x, Sy) and x.ty[0] == 'any':
            self.note_untyped('ordering', x)
    ps, pt = self.pathof(s0), self.pathof(t0)
    if isinstance(t0, K) and isinstance(t0.v, int) and \
            self.is_inty(s0):
        if name == 'ge':
            return self.int_ge(ps, t0.v)
        if name == 'gt':
            return self.int_ge(ps, t0.v + 1)
        if name == 'lt':
            return m.not_(self.int_ge(ps, t0.v))
        if name == 'le':
            return m.not_(self.int_ge(ps, t0.v + 1))
    if isinstance(s0, K) and isinstance(s0.v, int) and self.is_inty(t0):
        return self.base_cmp(SWAP[name], t0, s0)
    if isinstance(s0, (ListV, TupV)) or isinstance(t0, (ListV, TupV)):
        pass
    # canonical: everything through 'lt'
    if name == 'lt':
        return self.atom('lt', ps, pt)
    if name == 'gt':
        return self.atom('lt', pt, ps)
    if name == 'ge':
        return m.not_(self.atom('lt', ps, pt))
    return m.not_(self.atom('lt', pt, ps))


CMPF = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt,
        'ge': operator.ge}


def op_is_inty(self, s):
    if isinstance(s, Sy):
        return self.pytype(s) in ('int', None)
    return False


def op_int_ge(self, path, n):
    if path[0] == 'len':
        if n <= 0:
            return 1
        if n == 1:
            of = self.lengths.get(path)
            return self.truth(one(of)) if of is not None else \
                self.atom('truthy', path[1])
    return self.atom('ge', path, n)


def op_int_eq(self, path, n):
    m = self.m
    if path[0] == 'len':
        if n == 0:
            return m.not_(self.int_ge(path, 1))
    return m.and_(self.int_ge(path, n), m.not_(self.int_ge(path, n + 1)))


def op_prim_of(self, s):
    if isinstance(s, O) and s.prim is not None:
        p = s.prim.single()
        if p is not None:
            return p
    return s


def op_base_eq(self, s, t):
    m = self.m
    if isinstance(s, K) and isinstance(t, K):
        try:
            return 1 if s.v == t.v else 0
        except Exception:
            return 0
    if isinstance(s, K) and not isinstance(t, K):
        s, t = t, s
    # bools
    if isinstance(s, B) or isinstance(t, B):
        if isinstance(t, K) and isinstance(t.v, (bool, int)):
            if t.v in (0, 1):
                return s.b if t.v else m.not_(s.b)
            return 0
        if isinstance(s, B) and isinstance(t, B):
            return m.not_(m.xor(s.b, t.b))
        if isinstance(t, K):
            return 0
    if isinstance(s, (TupV, ListV)) and isinstance(t, (TupV, ListV)):
        return self.seq_eq(s, t)
    if isinstance(s, DictV) and isinstance(t, DictV):
        if s is t:
            return 1
        if not s.opaque and not t.opaque and all(
                isinstance(e[0].single(), K)
                for d in (s, t) for e in d.entries.values()):
            r = 1
            for key in list(s.entries) + [x for x in t.entries
                                          if x not in s.entries]:
                a, b = s.entries.get(key), t.entries.get(key)
                ga, gb = a[1] if a else 0, b[1] if b else 0
                r = m.diff(r, m.xor(ga, gb))
                if m.and_(m.and_(r, ga), gb):
                    r = m.and_(r, m.or_(m.not_(ga),
                                        self.compare('Eq', a[2], b[2])))
            return r
    if isinstance(s, Sy) and isinstance(t, TupV):
        s, t = t, s
    if isinstance(s, TupV) and isinstance(t, Sy):
        tt = self.pytype(t)
        if tt not in ('tuple', None):
            return 0
        r = 1
        for i, x in enumerate(s.items):
            r = m.and_(r, self.compare('Eq', x, self.index_sy(t, i)))
        return r
    if isinstance(s, (O, ClassV, FuncV, ModV, ExtV)) and \
            not isinstance(t, Sy):
        if s is t:
            return 1
        if isinstance(s, O) and isinstance(t, O) and \
                s.label is not None and s.label == t.label and \
                s.cls is t.cls:
            return 1
        if isinstance(s, ExtV) and isinstance(t, ExtV):
            return 1 if s.name == t.name else \
                self.atom('eq', ('ext', s.name), ('ext', t.name))
        return 0
    if isinstance(s, Contract) or isinstance(t, Contract):
        if isinstance(s, Contract) and isinstance(t, Contract):
            ps, pt = s.path(), t.path()
            if ps == pt:
                return 1
            return self.eq_paths(ps, pt)
        return 0
    if isinstance(s, ListV) and s.kind == 'set' or \
            isinstance(t, ListV) and t.kind == 'set':
        return self.set_eq(s, t)
    ps, pt = self.pathof(s), self.pathof(t)
    if isinstance(t, K):
        ty = self.pytype(s)
        kt = type(t.v).__name__
        if t.v is None:
            if ty is not None:
                return 0
            if isinstance(s, Sy) and s.ty[0] == 'cls':
                return 0
            return self.atom('isnone', ps)
        if ty is not None and ty != kt and not \
                ({ty, kt} <= {'int', 'float', 'bool'}):
            if not (ty == 'list' or kt in ('tuple', 'list')):
                return 0
            return 0
        if kt in ('int', 'bool') and self.is_inty(s):
            return self.int_eq(ps, int(t.v))
        if kt == 'float' and t.v == int(t.v) and False:
            pass
        if kt in ('str', 'bytes') and not t.v and \
                ty in ('str', 'bytes'):
            return m.not_(self.atom('truthy', ps))
        if kt in ('str', 'bytes') and ty in ('str', 'bytes') and \
                not self.str_possible(ps, t.v):
            return 0
        return self.atom('eq', ps, pt)
    if isinstance(t, ListV) and not t.entries and isinstance(s, Sy) and \
            s.ty[0] == 'list' and t.opaque is None:
        return m.not_(self.atom('truthy', ps))
    ta, tb = self.pytype(s), self.pytype(t)
    if ta is not None and tb is not None and ta != tb and not \
            ({ta, tb} <= {'int', 'float', 'bool'}):
        return 0
    return self.eq_paths(ps, pt)


def op_str_possible(self, path, const):
    """Can `path` evaluate to `const`?  (a lower-cased string never equals a
    constant with upper-case letters)"""
    if path[0] == 'm' and path[1] == 'lower' and isinstance(const, str):
        return const == const.lower()
    if path[0] == 'm' and path[1] == 'upper' and isinstance(const, str):
        return const == const.upper()
    return True


def op_eq_paths(self, p, q):
    if p == q:
        return 1
    if repr(p) > repr(q):
        p, q = q, p
    return self.atom('eq', p, q)


def op_seq_eq(self, s, t):
    m = self.m
    if isinstance(s, ListV) and s.kind == 'set' or \
            isinstance(t, ListV) and t.kind == 'set':
        return self.set_eq(s, t)

    def flat(x):
        if isinstance(x, TupV):
            return list(x.items)
        if x.opaque is None and all(g == 1 for g, _ in x.entries):
            return [v for _, v in x.entries]
        return None
    a, b = flat(s), flat(t)
    if isinstance(s, TupV) != isinstance(t, TupV):
        return 0
    if a is None or b is None:
        return self.eq_paths(self.pathof(s), self.pathof(t))
    if len(a) != len(b):
        return 0
    r = 1
    for x, y in zip(a, b):
        r = m.and_(r, self.compare('Eq', x, y))
    return r


def op_set_eq(self, s, t):
    """Set equality, decomposed into inclusion both ways when one side is a
    constant set."""
    m = self.m
    ok = isinstance(s, ListV) and isinstance(t, ListV)
    if not ok:
        return self.eq_paths(self.pathof(s), self.pathof(t))
    return m.and_(self.subset(s, t), self.subset(t, s))


def op_subset(self, s, t):
    """Every element of s is in t."""
    m = self.m
    bad = 0
    pc0 = self.pc
    for g, v in s.entries:
        (g, v, els) = self.open_entry(g, v)
        self.open.extend(els)
        self.pc = m.and_(pc0, g)
        for g2, x in v.alts:
            c = self.contains(t, x)
            bad = m.or_(bad, self.close(
                m.and_(m.and_(g, g2), m.not_(c)), els))
        if els:
            del self.open[len(self.open) - len(els):]
    self.pc = pc0
    return m.not_(bad)


def op_is_same(self, s, t):
    m = self.m
    if isinstance(s, K) and isinstance(t, K):
        if s.v is None or t.v is None or isinstance(s.v, bool) or \
                isinstance(t.v, bool):
            return 1 if s.v is t.v else 0
        return 1 if (type(s.v) is type(t.v) and s.v == t.v) else 0
    for x, y in ((s, t), (t, s)):
        if isinstance(y, K) and (y.v is None or isinstance(y.v, bool)):
            if isinstance(x, B):
                if y.v is None:
                    return 0
                return x.b if y.v else m.not_(x.b)
            if isinstance(x, Sy):
                if y.v is None:
                    if x.ty[0] in ('prim', 'cls', 'list', 'tuple', 'exc'):
                        return 0
                    return self.atom('isnone', x.path)
                if x.ty[0] != 'any':
                    return 0
                return self.atom('is', x.path, repr(y.v))
            return 0
    if s is t:
        return 1
    if isinstance(s, Sy) and isinstance(t, Sy):
        return self.eq_paths(s.path, t.path)
    if isinstance(s, Sy) or isinstance(t, Sy):
        for x, y in ((s, t), (t, s)):
            if isinstance(x, Sy) and isinstance(y, O):
                if x.ty[0] in ('prim', 'list', 'tuple', 'none', 'exc'):
                    return 0
                if x.ty[0] == 'cls' and x.ty[1] is not y.cls:
                    return 0
        return self.eq_paths(self.pathof(s), self.pathof(t))
    if isinstance(s, ExtV) and isinstance(t, ExtV):
        return 1 if s.name == t.name else 0
    if isinstance(s, Contract) and isinstance(t, Contract):
        return 1 if s.path() == t.path() else 0
    if isinstance(s, O) and isinstance(t, O) and s.cls.meta.get('enum') and \
            s.cls is t.cls:
        return 1 if s.label == t.label else 0
    return 0


# ---------------------------------------------------------------------------
# containment

def op_contains(self, c, x):
    """BDD of `x in c`."""
    m = self.m
    if isinstance(c, Contract):
        return c.contains(self, x)
    cls = self.clsof(c)
    if cls is not None:
        f = cls.lookup('__contains__')
        if f is not None:
            r = self.call(one(BoundV(f.alts[0][1], one(c))), [one(x)], {})
            return self.truth(r) if self.pc else 0
        if cls.lookup('__iter__') is not None:
            return self.any_eq(self.entries_of(one(c)), x)
        if isinstance(c, O) and c.prim is not None:
            return self.contains(c.prim.alts[0][1], x)
        if isinstance(c, O) and not cls.ext_bases() and \
                cls.lookup('__getitem__') is None:
            self.fault('TypeError', 'membership test on %s' % cls.name)
            return 0
    if isinstance(c, K):
        if c.v is None:
            self.fault('TypeError', 'membership test on None')
            return 0
        x0 = self.prim_of(x)
        if isinstance(c.v, (str, bytes)):
            if isinstance(x0, K):
                try:
                    return 1 if x0.v in c.v else 0
                except TypeError:
                    self.fault('TypeError', 'bad substring test')
                    return 0
            if isinstance(c.v, (str,)) and len(c.v) <= 80:
                pass
            return self.atom('in', self.pathof(x), self.pathof(c))
        try:
            return self.any_eq([(1, k(y)) for y in c.v], x)
        except TypeError:
            return self.atom('in', self.pathof(x), self.pathof(c))
    if isinstance(c, TupV):
        return self.any_eq([(1, v) for v in c.items], x)
    if isinstance(c, ListV):
        r = self.any_eq(c.entries, x)
        if c.opaque is not None:
            r = m.or_(r, self.atom('in', self.pathof(x), c.opaque))
        return r
    if isinstance(c, DictV):
        return self.dict_has(c, one(x))
    if isinstance(c, Sy):
        t = c.ty
        if t[0] == 'list' or t[0] == 'tuple':
            return self.any_eq(self.entries_of(one(c)), x)
        if t == INTT or t == BOOLT:
            self.fault('TypeError', 'membership test on a number')
            return 0
        return self.atom('in', self.pathof(x), c.path)
    if isinstance(c, ClassV) and c.meta.get('enum'):
        return self.any_eq([(1, v) for v in c.meta['members'].values()], x)
    return self.atom('in', self.pathof(x), self.pathof(c))


def op_any_eq(self, entries, x):
    m = self.m
    r = 0
    pc0 = self.pc
    if len(entries) > 60 and isinstance(self.prim_of(x), K) and \
            self.clsof(x) is None:
        xv = self.prim_of(x).v
        if all(g == 1 and isinstance(v.single(), K) for g, v in entries):
            return 1 if any(v.single().v == xv for _, v in entries) else 0
    for g, v in entries:
        (g, v, els) = self.open_entry(g, v)
        self.open.extend(els)
        self.pc = m.and_(pc0, g)
        if self.pc:
            # `x in seq` compares element == x with the element on the left
            b = self.compare('Eq', v, one(x))
            r = m.or_(r, self.close(m.and_(g, b), els))
        if els:
            del self.open[len(self.open) - len(els):]
        if r == 1:
            break
    self.pc = pc0
    return r


# ---------------------------------------------------------------------------
# iteration

def op_entries_of(self, v):
    """Guarded entries [(guard, V)] of an iterable value."""
    m = self.m
    out = []
    pc0 = self.pc
    pc1 = 0
    for g, s in v.alts:
        gg = m.and_(pc0, g)
        if gg == 0:
            continue
        self.pc = gg
        ents = self.entries1(s)
        pc1 = m.or_(pc1, self.pc)
        for g2, x in ents:
            h = m.and_(g, g2)
            if h:
                out.append((h, x))
    self.pc = pc1
    return out


def op_entries1(self, s):
    if isinstance(s, ListV):
        out = list(s.entries)
        if s.kind == 'once':
            # an iterator that is known to be gone once it was iterated over
            s.entries = [(self.m.diff(g, self.pc), x) for g, x in out]
        if s.opaque is not None:
            e = ('e', s.opaque, 0)
            out.append((self.atom('elem', e), self.sy(e, ANY)))
        return out
    if isinstance(s, TupV):
        return [(1, x) for x in s.items]
    if isinstance(s, DictV):
        out = [(e[1], e[0]) for e in s.entries.values()]
        if s.opaque:
            e = ('e', ('dict', str(s.label)), 0)
            out.append((self.atom('elem', e), self.sy(e, ANY)))
        return out
    if isinstance(s, K):
        if s.v is None:
            self.fault('TypeError', 'iterating over None')
            return []
        try:
            return [(1, self.lift(x)) for x in s.v]
        except TypeError:
            self.fault('TypeError', 'iterating over %r' % (s.v,))
            return []
    if isinstance(s, Contract):
        return s.iterate(self)
    if isinstance(s, O):
        f = s.cls.lookup('__iter__')
        if f is not None:
            return self.entries_of(self.call_method(s, '__iter__', []))
        if s.prim is not None:
            return self.entries_of(s.prim)
        if s.cls.ext_bases():
            e = ('e', self.pathof(s), 0)
            return [(self.atom('elem', e), self.sy(e, ANY))]
        self.fault('TypeError', 'iterating over %s' % s.cls.name)
        return []
    if isinstance(s, ClassV):
        if s.meta.get('enum'):
            return [(1, v) for v in s.meta['members'].values()]
    if isinstance(s, B):
        self.fault('TypeError', 'iterating over a bool')
        return []
    if isinstance(s, Sy):
        t = s.ty
        if t[0] == 'tuple':
            return [(1, self.index_sy(s, i)) for i in range(len(t[1]))]
        if t[0] == 'cls':
            if t[1].lookup('__iter__') is not None:
                return self.entries_of(self.call_method(s, '__iter__', []))
            nf = self.nt_fields(t[1])
            if nf is not None:
                return [(1, self.index_sy(s, i)) for i in range(len(nf))]
        if t == INTT or t == FLOATT:
            self.fault('TypeError', 'iterating over a number')
            return []
        if t[0] == 'any':
            self.note_untyped('iter', s)
        e = ('e', s.path, 0)
        et = ANY
        if t[0] == 'list':
            if t[1] is None:
                return []
            et = t[1]
        elif t == STRT or (t[0] == 'cls' and self.cls_base(t[1]) == 'str'):
            et = STRT
        elif t == BYTEST:
            et = INTT
        return [(self.atom('elem', e), self.sy(e, et))]
    e = ('e', self.pathof(s), 0)
    return [(self.atom('elem', e), self.sy(e, ANY))]


def op_lift(self, x):
    if isinstance(x, V):
        return x
    if isinstance(x, tuple):
        return one(TupV([self.lift(y) for y in x]))
    return k(x)


# ---------------------------------------------------------------------------
# dictionaries

def op_norm_key(self, v):
    s = v.single()
    if s is None:
        return None
    return self.norm_simple(s)


def op_norm_simple(self, s):
    """Hashable identity of a constant key, honouring __hash__/__eq__ of the
    program's str subclasses; None when the key is symbolic."""
    if isinstance(s, K):
        try:
            hash(s.v)
        except TypeError:
            return ('id', id(s.v))
        return ('k', s.v)
    if isinstance(s, O):
        if s.cls.meta.get('enum'):
            return ('enum', id(s.cls), s.label)
        if s.prim is not None:
            f = s.cls.lookup('__hash__')
            if f is not None and isinstance(f.alts[0][1], FuncV):
                p = s.prim.single()
                if isinstance(p, K):
                    r = self.call_method(s, '__hash__', [])
                    rs = r.single()
                    if isinstance(rs, K):
                        # normalise through the hashed primitive
                        if rs.v == hash(p.v):
                            return ('k', p.v)
                        if isinstance(p.v, str) and \
                                rs.v == hash(p.v.lower()):
                            return ('k', p.v.lower())
                        return ('h', rs.v)
                return None
            p = s.prim.single()
            if p is None:
                return None
            return self.norm_simple(p)
        return ('id', id(s))
    if isinstance(s, TupV):
        parts = []
        for x in s.items:
            p = self.norm_key(x)
            if p is None:
                return None
            parts.append(p)
        return ('t',) + tuple(parts)
    if isinstance(s, (ClassV, FuncV, ModV)):
        return ('id', id(s))
    if isinstance(s, ExtV):
        return ('ext', s.name)
    if isinstance(s, ListV) and s.kind in ('tuple', 'set'):
        return None
    if isinstance(s, ListV):
        return ('id', id(s))
    return None


def op_dict_set(self, d, key, v, init=False):
    def go(s):
        nk = self.norm_simple(s)
        if nk is None:
            nk = ('sym', self.pathof(s))
        e = d.entries.get(nk)
        for j in self.journal:
            j.setdefault(('D', id(d), nk), ('D', d, nk))
        if e is None:
            d.entries[nk] = [one(s), self.pc if not init else 1, v]
        else:
            if self.pc == 1 or init:
                e[1], e[2] = 1, v
            else:
                e[2] = self.ite(self.pc, v, e[2])
                e[1] = self.m.or_(e[1], self.pc)
        return NONE
    self.split(key, go)


def op_dict_update(self, d, src):
    s = src.single()
    if isinstance(s, DictV):
        for kk, e in s.entries.items():
            g = self.m.and_(self.pc, e[1])
            old = d.entries.get(kk)
            if old is None:
                d.entries[kk] = [e[0], e[1] if self.pc == 1 else g, e[2]]
            else:
                old[2] = self.ite(g, e[2], old[2])
                old[1] = self.m.or_(old[1], g)
        if s.opaque:
            d.opaque = True
    elif isinstance(s, (ListV, TupV)):
        for g, x in self.entries_of(src):
            p = x.single()
            if isinstance(p, TupV) and len(p.items) == 2:
                pc0 = self.pc
                self.pc = self.m.and_(pc0, g)
                if self.pc:
                    self.dict_set(d, p.items[0], p.items[1])
                self.pc = pc0
            else:
                d.opaque = True
    elif isinstance(s, K) and not s.v:
        pass
    else:
        d.opaque = True


def op_dict_has(self, d, key):
    m = self.m
    r = 0
    for g, s in self.live(key):
        nk = self.norm_simple(s)
        if nk is not None:
            e = d.entries.get(nk)
            x = e[1] if e is not None else 0
            if d.opaque and x != 1:
                x = m.or_(x, self.atom('in', self.pathof(s),
                                       ('dict', str(d.label))))
        else:
            p = ('sym', self.pathof(s))
            if p in d.entries:
                x = d.entries[p][1]
            elif len(d.entries) <= 24:
                x = 0
                pc0 = self.pc
                for e in d.entries.values():
                    q = self.compare('Eq', one(s), e[0])
                    x = m.or_(x, m.and_(q, e[1]))
                self.pc = pc0
                if d.opaque:
                    x = m.or_(x, self.atom('in', self.pathof(s),
                                           ('dict', str(d.label))))
            else:
                x = self.atom('in', self.pathof(s),
                              ('dict', str(d.label or dict_sig(d))))
        r = m.or_(r, m.and_(g, x))
    return r if len(key.alts) > 1 else (
        x if self.live(key) else 0)


def dict_sig(d):
    import hashlib
    ks = sorted(repr(kk) for kk in d.entries)
    return 'keys#' + hashlib.sha1('|'.join(ks).encode()).hexdigest()[:8]


def op_dict_get(self, d, key, default=None):
    """d.get(key, default) when default is a V, else d[key]."""
    m = self.m

    def go(s):
        nk = self.norm_simple(s)
        if nk is not None:
            e = d.entries.get(nk)
            if e is None:
                if d.opaque:
                    base = self.unknown(('item', ('dict', str(d.label)),
                                         self.pathof(s)))
                    a = self.atom('in', self.pathof(s),
                                  ('dict', str(d.label)))
                    if default is not None:
                        return self.ite(a, base, default)
                    self.risk('KeyError', 'dict lookup', m.not_(a),
                              self.pathof(s))
                    return base
                return miss(s)
            if e[1] == 1 or m.diff(self.pc, e[1]) == 0:
                return e[2]
            if default is not None:
                return self.ite(e[1], e[2], default)
            pc0 = self.pc
            self.pc = m.diff(pc0, e[1])
            self.raise_named('KeyError', 'dict lookup', certain=True)
            self.pc = m.or_(self.pc, m.and_(pc0, e[1]))
            return e[2]
        p = ('sym', self.pathof(s))
        if p in d.entries:
            e = d.entries[p]
            if default is not None and e[1] != 1:
                return self.ite(e[1], e[2], default)
            return e[2]
        if d.opaque is None and len(d.entries) <= 24:
            r = default
            matched = 0
            pc0 = self.pc
            alts = []
            for e in d.entries.values():
                q = m.and_(self.compare('Eq', one(s), e[0]), e[1])
                q = m.diff(q, matched)
                if q == 0:
                    continue
                matched = m.or_(matched, q)
                for g2, x in e[2].alts:
                    h = m.and_(q, g2)
                    if h:
                        alts.append((h, x))
            self.pc = pc0
            rest = m.not_(matched)
            if default is not None:
                for g2, x in default.alts:
                    h = m.and_(rest, g2)
                    if h:
                        alts.append((h, x))
            else:
                pcm = m.and_(pc0, rest)
                if pcm:
                    self.pc = pcm
                    self.raise_named('KeyError', 'dict lookup', certain=True)
                    self.pc = m.or_(self.pc, m.and_(pc0, matched))
            return self.join(alts) if alts else NONE
        lab = ('dict', str(d.label or dict_sig(d)))
        base = self.unknown(('item', lab, self.pathof(s)))
        a = self.atom('in', self.pathof(s), lab)
        if default is not None:
            return self.ite(a, base, default)
        self.risk('KeyError', 'dict lookup', m.not_(a), self.pathof(s))
        return base

    def miss(s):
        if default is not None:
            return default
        self.raise_named('KeyError', 'dict lookup of %r' % (s,),
                         certain=True)
        return NONE
    return self.split(key, go)


# ---------------------------------------------------------------------------
# arithmetic

PRIMS = {'str', 'bytes', 'int', 'float', 'bool'}


def op_binop(self, op, a, b):
    def goa(s):
        return self.split(b, lambda t: self.binop1(op, s, t))
    return self.split(a, goa)


def op_joined(self, s, t):
    """`s % t` where that only joins strings, as additions."""
    if not isinstance(s, K) or not isinstance(s.v, str):
        return None
    parts = re.split('(%.)', s.v)
    if any(x != '%s' for x in parts[1::2]):
        return None
    args = [V([(g, y) for g, y in x.alts if self.m.and_(self.pc, g)])
            for x in (t.items if isinstance(t, TupV) else [one(t)])]
    if len(args) != len(parts) // 2:
        return None
    ways = 1
    for x in args:
        ways *= len(x.alts)
        if ways > 8 or any(self.pytype(self.prim_of(y)) != 'str'
                           for _, y in x.alts):
            return None
    seq = [one(K(x)) for x in parts]
    seq[1::2] = args
    r = None
    for x in seq:
        y = x.single()
        if isinstance(y, K) and y.v == '':
            continue
        r = x if r is None else self.binop('Add', r, x)
    return r


def op_binop1(self, op, s, t):
    m = self.m
    # user-defined
    for (x, y, pre) in ((s, t, ''), (t, s, 'r')):
        c = self.clsof(x)
        if c is not None:
            f = c.lookup('__%s%s__' % (pre, DUNDER[op]))
            if f is not None:
                return self.call(one(BoundV(f.alts[0][1], one(x))),
                                 [one(y)], {})
    s0, t0 = self.prim_of(s), self.prim_of(t)
    if isinstance(s0, K) and isinstance(t0, K):
        if op == 'Mod' and isinstance(s0.v, str):
            try:
                return k(s0.v % t0.v)
            except Exception as e:
                self.fault(type(e).__name__, 'format %r' % s0.v)
                return NONE
        try:
            return self.lift(PYOPS[op](s0.v, t0.v))
        except Exception as e:
            self.fault(type(e).__name__, '%s of constants' % op)
            return NONE
    if op == 'Mod' and self.pytype(s0) in ('str', 'bytes'):
        if isinstance(s0, K) and isinstance(t0, TupV) and \
                all(isinstance(self.prim_of(x.single()), K)
                    for x in t0.items if x.single() is not None) and \
                all(x.single() is not None for x in t0.items):
            try:
                return k(s0.v % tuple(self.prim_of(x.single()).v
                                      for x in t0.items))
            except Exception as e:
                self.fault(type(e).__name__, 'format %r' % s0.v)
                return NONE
        r = self.joined(s0, t)
        if r is not None:
            return r
        return one(Sy(('fmt', self.pathof(s0), self.pathof(t)),
                      ('prim', self.pytype(s0))))
    for x in (s0, t0):
        if isinstance(x, K) and x.v is None:
            self.fault('TypeError', 'None in arithmetic (%s)' % op)
            return NONE
        if isinstance(x, O) and x.prim is None and not x.cls.ext_bases():
            self.fault('TypeError', '%s in arithmetic (%s)' %
                       (x.cls.name, op))
            return NONE
    if op == 'Add':
        if isinstance(s0, TupV) and isinstance(t0, TupV):
            return one(TupV(s0.items + t0.items))
        if isinstance(s0, (ListV, Sy)) and isinstance(t0, (ListV, Sy)) and \
                (isinstance(s0, ListV) or isinstance(t0, ListV)):
            if self.pytype(s0) in ('list', None) and \
                    self.pytype(t0) in ('list', None):
                ents = [(g, v) for x in (s0, t0)
                        for g, v in self.entries_of(one(x))]
                return one(ListV('list', ents))
    if isinstance(s0, ListV) and isinstance(t0, ListV) and \
            s0.kind == 'set' and op in ('Sub', 'BitOr', 'BitAnd'):
        return self.set_op(op, s0, t0)
    h = self.ext.get('binop')
    if h is not None:
        r = h(self, op, s0, t0)
        if r is not None:
            return r
    ta, tb = self.pytype(s0), self.pytype(t0)
    bad = None
    if op == 'Add' and ta in ('str', 'bytes') and \
            tb in ('str', 'bytes', 'int', 'list') and ta != tb:
        bad = (ta, tb)
    elif ta in PRIMS and tb in PRIMS:
        num = {'int', 'float', 'bool'}
        if ta in num and tb in num:
            if op in ('Div', 'FloorDiv', 'Mod') and not (
                    isinstance(t0, K) and t0.v):
                self.risk('ZeroDivisionError', op, self.base_eq(t0, K(0)),
                          self.pathof(t0))
        elif not (op == 'Mult' and (ta in ('int', 'bool') or
                                    tb in ('int', 'bool')) or
                  op == 'Mod' and ta in ('str', 'bytes') or
                  op == 'Add' and ta == tb):
            bad = (ta, tb)
    if bad:
        self.fault('TypeError', '%s of %s and %s' % ((op,) + bad))
        return NONE
    for x in (s0, t0):
        if isinstance(x, Sy) and x.ty[0] == 'any':
            self.note_untyped(op, x)
    ty = ANY
    if ta == tb and ta in ('str', 'bytes', 'int', 'float'):
        ty = ('prim', ta)
        if op == 'Div':
            ty = FLOATT
    elif {ta, tb} <= {'int', 'float', 'bool'}:
        ty = FLOATT if 'float' in (ta, tb) or op == 'Div' else INTT
    elif op == 'Mult' and 'int' in (ta, tb) and \
            ({ta, tb} & {'str', 'bytes'}):
        ty = ('prim', ta if ta != 'int' else tb)
    p, q = self.pathof(s0), self.pathof(t0)
    if op in ('Mult', 'BitAnd', 'BitOr') or \
            (op == 'Add' and ty in (INTT, FLOATT, ANY) and
             'str' not in (ta, tb)):
        if ty != ANY and repr(p) > repr(q):
            p, q = q, p
    return one(Sy(('op', op, p, q), ty))


def op_set_op(self, op, s, t):
    m = self.m
    out = ListV('set', [])
    if op == 'BitOr':
        out.entries = list(s.entries) + list(t.entries)
        return one(out)
    pc0 = self.pc
    for g, v in s.entries:
        els = (self.bdd_elems(g) | self.value_elems(v)) - set(self.open)
        els = sorted(els, key=repr)
        self.open.extend(els)
        self.pc = m.and_(pc0, g)
        c = 0
        for g2, x in v.alts:
            c = m.or_(c, m.and_(g2, self.contains(t, x)))
        gg = m.diff(g, c) if op == 'Sub' else m.and_(g, c)
        if gg:
            out.entries.append((gg, v))
        if els:
            del self.open[len(self.open) - len(els):]
    self.pc = pc0
    return one(out)


# ---------------------------------------------------------------------------
# attributes

def op_getattr(self, v, name, default=None):
    return self.split(v, lambda s: self.getattr1(s, name, default))


def op_bind_class_attr(self, a, s, cls):
    """Descriptor protocol for a class attribute found on an instance."""
    out = []
    for g, x in a.alts:
        if isinstance(x, PropV):
            r = self.call(one(x.fget), [one(s)], {})
            for g2, y in r.alts:
                out.append((self.m.and_(g, g2), y))
        elif isinstance(x, (FuncV, NatV)):
            out.append((g, BoundV(x, one(s))))
        elif isinstance(x, WrapV):
            if x.kind == 'classmethod':
                out.append((g, BoundV(x.func, one(cls))))
            else:
                out.append((g, x.func))
        else:
            out.append((g, x))
    return self.join(out)


def op_getattr1(self, s, name, default=None):
    from . import extlib
    if isinstance(s, O):
        v = s.attrs.get(name)
        cv = s.cls.lookup(name)
        if cv is not None and isinstance(cv.alts[0][1], PropV):
            return self.bind_class_attr(cv, s, s.cls)
        if v is not None:
            if any(x is UNDEF for _, x in v.alts):
                return self.defined_attr(s, name, v, default)
            return v
        if cv is not None:
            return self.bind_class_attr(cv, s, s.cls)
        nf = self.nt_fields(s.cls)
        if nf is not None and name in nf and s.prim is not None:
            p = s.prim.alts[0][1]
            if isinstance(p, TupV):
                return p.items[nf.index(name)]
            if isinstance(p, Sy):
                return self.index_sy(p, nf.index(name))
        if name == '__class__':
            return one(s.cls)
        if name == '__dict__':
            d = DictV('__dict__')
            for kk, vv in s.attrs.items():
                d.entries[('k', kk)] = [k(kk), 1, vv]
            return one(d)
        ga = s.cls.lookup('__getattr__')
        if ga is not None and not (name.startswith('__') and
                                   name.endswith('__')):
            return self.call(one(BoundV(ga.alts[0][1], one(s))), [k(name)],
                             {})
        if s.cls.meta.get('enum'):
            if name == 'name':
                return k(s.label)
            if name == 'value':
                return s.attrs.get('_value', NONE)
        if s.prim is not None:
            p = s.prim.single()
            if p is not None and extlib.has_method(self, p, name):
                return one(ExtMeth(s, name))
            if p is None:
                return one(ExtMeth(s, name))
        eb = s.cls.ext_bases()
        if eb and not (len(eb) == 1 and isinstance(eb[0], ExtV) and
                       eb[0].name in ('object', 'str', 'int', 'tuple')):
            if name in extlib.EXC_ATTRS or not all(
                    isinstance(b, ExtV) and extlib.is_exc_name(b.name)
                    for b in eb):
                return self.unknown(('a', self.pathof(s), name))
            if name == 'args':
                return self.unknown(('a', self.pathof(s), name))
        if name in extlib.OBJECT_METHODS:
            return one(ExtMeth(s, name))
        return self.no_attr(s, name, default)
    if isinstance(s, Sy):
        return self.getattr_sy(s, name, default)
    if isinstance(s, K):
        if extlib.has_method(self, s, name):
            if name in extlib.NONCALL_ATTRS.get(type(s.v).__name__, ()):
                return self.lift(getattr(s.v, name))
            return one(ExtMeth(s, name))
        return self.no_attr(s, name, default)
    if isinstance(s, B):
        return self.no_attr(s, name, default)
    if isinstance(s, ModV):
        v = s.ns.get(name)
        if v is not None:
            return v
        sub = self.import_module(s.name + '.' + name)
        if isinstance(sub, ModV):
            return one(sub)
        return self.no_attr(s, name, default)
    if isinstance(s, ExtV):
        if default is not None and \
                (s.name + '.' + name) not in extlib.CONSTS:
            return default
        return self.ext_const(s.name + '.' + name)
    if isinstance(s, ClassV):
        if name == '__name__':
            return k(s.name)
        if name == '__mro__':
            return one(TupV([one(c) for c in s.mro]))
        v = s.lookup(name)
        if v is not None:
            x = v.alts[0][1]
            if isinstance(x, WrapV):
                if x.kind == 'classmethod':
                    return one(BoundV(x.func, one(s)))
                return one(x.func)
            return v
        if s.meta.get('enum') and name == '__members__':
            d = DictV()
            for kk, vv in s.meta['members'].items():
                d.entries[('k', kk)] = [k(kk), 1, vv]
            return one(d)
        if name == '_fields':
            return self.lift(tuple(self.nt_fields(s) or ()))
        if s.ext_bases() and (default is None or any(
                isinstance(b, ExtV) and extlib.has_pymethod(b.name, name)
                for b in s.ext_bases())):
            return one(ExtMeth(s, name))
        if name in extlib.OBJECT_METHODS:
            return one(ExtMeth(s, name))
        return self.no_attr(s, name, default)
    if isinstance(s, FuncV):
        if name in ('__name__', '__qualname__'):
            return k(s.name.rpartition('.')[2])
        if name in s.attrs:
            return s.attrs[name]
        if name in ('__doc__', '__module__', '__wrapped__', '__dict__'):
            return self.unknown(('a', self.pathof(s), name))
        return self.no_attr(s, name, default)
    if isinstance(s, BoundV):
        if name == '__self__':
            return s.self_
        return self.getattr1(s.func, name, default)
    if isinstance(s, WrapV):
        return self.getattr1(s.func, name, default)
    if isinstance(s, Contract):
        return s.getattr(self, name, default)
    if isinstance(s, extlib.SuperV):
        return extlib.super_attr(self, s, name)
    if isinstance(s, (ListV, DictV, TupV)):
        if extlib.has_method(self, s, name):
            return one(ExtMeth(s, name))
        return self.no_attr(s, name, default)
    if isinstance(s, NatV):
        a = extlib.NAT_ATTRS.get((s.name, name))
        if a is not None:
            return a(self, s)
        if name == 'register':
            return one(NatV('register', lambda I, a, kw: NONE))
    if isinstance(s, ExtMeth):
        if default is not None:
            return default
        return one(ExtV('%s.%s' % (s.name, name)))
    return self.unknown(('a', self.pathof(s), name))


def op_defined_attr(self, s, name, v, default):
    m = self.m
    und = m.disj(g for g, x in v.alts if x is UNDEF)
    bad = m.and_(self.pc, und)
    alts = tuple((g, x) for g, x in v.alts if x is not UNDEF)
    if bad:
        if default is not None:
            return self.ite(und, default, V(alts))
        cv = s.cls.lookup(name)
        if cv is not None:
            return self.ite(und, self.bind_class_attr(cv, s, s.cls), V(alts))
        pc0 = self.pc
        self.pc = bad
        self.no_attr(s, name, None)
        self.pc = m.or_(self.pc, m.diff(pc0, bad))
    return V(alts) if alts else NONE


def op_no_attr(self, s, name, default):
    if default is not None:
        return default
    what = 'None' if isinstance(s, K) and s.v is None else (
        self.clsof(s).name if self.clsof(s) is not None
        else (s.name if isinstance(s, (ModV, ClassV))
              else (self.pytype(s) or '?')))
    self.raise_named('AttributeError', '%s has no attribute %r' %
                     (what, name), certain=True)
    return NONE


def op_getattr_sy(self, s, name, default):
    from . import extlib
    t = s.ty
    if t[0] == 'cls':
        cls = t[1]
        cv = cls.lookup(name)
        if cv is not None:
            return self.bind_class_attr(cv, s, cls)
        nf = self.nt_fields(cls)
        if nf is not None and name in nf:
            return self.index_sy(s, nf.index(name))
        if name == '__class__':
            return one(cls)
        ga = cls.lookup('__getattr__')
        if ga is not None and not name.startswith('__'):
            return self.call(one(BoundV(ga.alts[0][1], one(s))), [k(name)],
                             {})
        base = self.cls_base(cls)
        ao = cls.meta.get('attr_order')
        if nf is None and ao is not None and name in ao:
            fs = t[2] if len(t) > 2 else None
            return self.sy(('a', s.path, name),
                           fs[ao.index(name)] if fs else ANY)
        fields = cls.meta.get('attrs')
        if fields and name in fields:
            return self.sy(('a', s.path, name), fields[name])
        if base in ('str', 'int', 'bytes', 'tuple', 'float') and \
                extlib.has_pymethod(base, name):
            return one(ExtMeth(s, name))
        if cls.ext_bases() and base is None or \
                cls.meta.get('open'):
            return self.sy(('a', s.path, name), ANY)
        return self.no_attr(s, name, default)
    if t[0] == 'prim':
        if t[1] in ('str', 'bytes', 'int', 'float', 'bool'):
            if extlib.has_pymethod(t[1], name):
                return one(ExtMeth(s, name))
            return self.no_attr(s, name, default)
        if t[1] in extlib.PRIM_ATTRS:
            at = extlib.PRIM_ATTRS[t[1]].get(name)
            if at is not None:
                if at == 'method':
                    return one(ExtMeth(s, name))
                c = extlib.const_date(s.path)
                if c is not None and c is not ValueError:
                    return one(K(getattr(c, name)))
                return self.sy(('a', s.path, name), at)
        return one(ExtMeth(s, name)) if extlib.known_ext_method(t[1], name) \
            else self.sy(('a', s.path, name), ANY)
    if t[0] == 'list':
        if extlib.has_pymethod('list', name):
            return one(ExtMeth(s, name))
        return self.no_attr(s, name, default)
    if t[0] == 'tuple':
        if extlib.has_pymethod('tuple', name):
            return one(ExtMeth(s, name))
        return self.no_attr(s, name, default)
    if t[0] == 'unav':
        if name == 'inner':
            return self.sy(('inner', s.path), ANY)
        return self.no_attr(s, name, default)
    if t[0] == 'exc':
        at = self.exc_attrs.get(getattr(t[1], 'name', t[1]), {})
        return self.sy(('a', s.path, name), at.get(name, ANY))
    if default is None:
        self.note_untyped('.' + name, s)
    # unknown type: canonical namedtuple field names become indices
    i = self.fields.get(name)
    if i is not None:
        return self.sy(('i', s.path, i), ANY)
    if name in extlib.ANY_METHODS:
        return one(ExtMeth(s, name))
    if default is not None:
        a = self.atom('hasattr', s.path, name)
        return self.ite(a, self.sy(('a', s.path, name), ANY), default)
    return self.sy(('a', s.path, name), ANY)


# ---------------------------------------------------------------------------
# items

def op_getitem(self, v, idx):
    def go(s):
        return self.split(idx, lambda i: self.getitem1(s, i))
    return self.split(v, go)


def op_getitem1(self, s, i):
    m = self.m
    if isinstance(s, Contract):
        return s.getitem(self, i)
    c = self.clsof(s)
    if c is not None:
        f = c.lookup('__getitem__')
        if f is not None:
            return self.call(one(BoundV(f.alts[0][1], one(s))), [one(i)], {})
        if isinstance(s, O):
            if s.prim is not None:
                return self.getitem(s.prim, one(i))
            if c.meta.get('enum') is None and not c.ext_bases():
                self.fault('TypeError', 'indexing a %s' % c.name)
                return NONE
            return self.unknown(('item', self.pathof(s), self.pathof(i)))
    if isinstance(s, ClassV) and s.meta.get('enum'):
        i0 = self.prim_of(i)
        if isinstance(i0, K) and i0.v in s.meta['members']:
            return s.meta['members'][i0.v]
        self.raise_named('KeyError', 'enum %s' % s.name, certain=False)
        return self.unknown(('enum', s.name, self.pathof(i)))
    i0 = self.prim_of(i)
    if isinstance(s, DictV):
        return self.dict_get(s, one(i))
    if isinstance(s, K):
        if s.v is None:
            self.fault('TypeError', 'indexing None')
            return NONE
        if isinstance(i0, K):
            try:
                return self.lift(s.v[i0.v])
            except Exception as e:
                self.raise_named(type(e).__name__, 'constant index',
                                 certain=True)
                return NONE
        ty = ANY
        if isinstance(s.v, str):
            ty = STRT
        elif hasattr(s.v, 'setitem') or hasattr(s.v, 'mask'):
            ty = BOOLT
        return self.sy(('item', self.pathof(s), self.pathof(i)), ty)
    if isinstance(s, TupV):
        if isinstance(i0, K):
            if isinstance(i0.v, slice):
                return one(TupV(s.items[i0.v]))
            try:
                return s.items[i0.v]
            except (IndexError, TypeError) as e:
                self.raise_named(type(e).__name__, 'tuple index',
                                 certain=True)
                return NONE
        return self.union_items([(1, x) for x in s.items], i)
    if isinstance(s, ListV):
        return self.list_item(s, i0)
    if isinstance(s, Sy):
        t = s.ty
        if isinstance(i0, K) and isinstance(i0.v, slice):
            if i0.v == slice(None, None, None):
                return one(s)
            ty = t
            if t[0] == 'cls':
                ty = ('prim', self.cls_base(t[1])) if self.cls_base(t[1]) \
                    in ('str', 'bytes') else ANY
            if t[0] == 'tuple':
                ty = ('list', ty_union(t[1]))
            return one(Sy(('slice', s.path, (i0.v.start, i0.v.stop,
                                             i0.v.step)), ty))
        if isinstance(i0, Sy) and i0.ty[0] == 'slice':
            return one(Sy(('slice', s.path, i0.path), t))
        if isinstance(i0, K) and isinstance(i0.v, int) and t[0] != 'dict':
            if t[0] == 'any':
                self.note_untyped('index', s)
            if t[0] == 'list' or (t[0] == 'prim' and
                                  t[1] in ('str', 'bytes')):
                self.maybe_index_error(s, i0.v)
            return self.index_sy(s, i0.v)
        if t[0] == 'prim' and t[1] in ('int', 'float', 'bool'):
            self.fault('TypeError', 'indexing a number')
            return NONE
        if t[0] == 'any':
            self.note_untyped('index', s)
        elif t[0] == 'dict':
            self.risk('KeyError', 'dict lookup', self.m.not_(
                self.atom('in', self.pathof(i), s.path)), s.path)
        elif t[0] in ('list', 'prim'):
            self.risk('IndexError', 'item', self.m.not_(
                self.atom('inrange', self.pathof(i), s.path)), s.path)
        ty = ANY
        if t[0] == 'list' and t[1] is not None:
            ty = t[1]
        elif t == STRT:
            ty = STRT
        elif t == BYTEST:
            ty = INTT
        return self.sy(('item', s.path, self.pathof(i)), ty)
    if isinstance(s, B):
        self.fault('TypeError', 'indexing a bool')
        return NONE
    return self.unknown(('item', self.pathof(s), self.pathof(i)))


def op_maybe_index_error(self, s, i):
    """IndexError unless the sequence is known to be long enough."""
    n = i + 1 if i >= 0 else -i
    if n == 1:
        ok = self.atom('truthy', s.path)
    else:
        ok = self.int_ge(('len', s.path), n)
    if s.path and s.path[0] in ('m', 'lib'):
        return
    self.risk('IndexError', 'item %d' % i, self.m.not_(ok), s.path)


def op_union_items(self, entries, i):
    m = self.m
    alts = []
    n = 0
    for g, v in entries:
        a = self.atom('idx', self.pathof(i), n)
        n += 1
        for g2, s in v.alts:
            alts.append((m.conj([g, a, g2]), s))
    if not alts:
        return NONE
    return self.join(alts)


# What integers some methods return.
INT_RANGES = {'weekday': (0, 6), 'isoweekday': (1, 7)}


def op_list_item(self, s, i0):
    m = self.m
    if isinstance(i0, K) and not isinstance(i0.v, (int, slice)) and \
            not hasattr(i0.v, '__index__'):
        self.raise_named('TypeError', 'index of a list', certain=True)
        return NONE
    if isinstance(i0, K) and isinstance(i0.v, slice):
        full = i0.v == slice(None, None, None)
        simple = all(self.bdd_elems(g) <= set(self.open) and m.diff(self.pc, g) == 0
                     for g, _ in s.entries)
        if full:
            return one(ListV(s.kind, list(s.entries), s.opaque))
        if simple and s.opaque is None:
            return one(ListV(s.kind, s.entries[i0.v]))
        return one(ListV(s.kind, list(s.entries), s.opaque))
    if isinstance(i0, K) and isinstance(i0.v, int):
        simple = all(self.bdd_elems(g) <= set(self.open) and m.diff(self.pc, g) == 0
                     for g, _ in s.entries)
        if simple and s.opaque is None:
            try:
                return s.entries[i0.v][1]
            except IndexError:
                self.raise_named('IndexError', 'list index', certain=True)
                return NONE
        if len(s.entries) == 1 and s.opaque is None and \
                self.bdd_elems(s.entries[0][0]):
            g, v = s.entries[0]
            els = [e for e in self.bdd_elems(g) | self.value_elems(v)
                   if e not in self.open]
            if len(els) == 1:
                e = els[0]
                plain = m.support_atoms(g) == [('elem', e)]
                mp = {e: ('i', e[1] if plain else self.pathof(s), i0.v)}
                if i0.v in (0, -1):
                    self.risk('IndexError', 'item %d' % i0.v,
                              m.not_(self.nonempty(s)), self.pathof(s))
                else:
                    self.maybe_index_error(Sy(self.pathof(s)), i0.v)
                # what holds for every item of the list holds for this one
                holds = self.subst_bdd(g, mp)
                return self.join([(m.constrain(x, holds), y) for x, y in
                                  self.subst_value(v, mp).alts])
        if i0.v in (0, -1) and s.opaque is None:
            # first/last entry present
            ents = s.entries if i0.v == 0 else s.entries[::-1]
            alts = []
            rest = self.pc
            for g, v in ents:
                els = [e for e in self.bdd_elems(g) if e not in self.open]
                gc = self.close(g, els)
                h = m.and_(rest, gc)
                if h == 0:
                    continue
                vv = self.some_rename(v, els, g) if els else v
                for g2, x in vv.alts:
                    alts.append((m.and_(h, g2), x))
                rest = m.diff(rest, gc)
                if rest == 0:
                    break
            if rest:
                pc0 = self.pc
                self.pc = rest
                self.raise_named('IndexError', 'list index', certain=True)
                self.pc = m.diff(pc0, rest)
            return self.join(alts) if alts else NONE
    rng = INT_RANGES.get(i0.path[1]) if isinstance(i0, Sy) and \
        i0.path[0] == 'm' else None
    n = 0
    if s.opaque is None and all(
            self.bdd_elems(g) <= set(self.open) and m.diff(self.pc, g) == 0
            for g, _ in s.entries):
        n = len(s.entries)
    if rng is None or rng[0] < -n or rng[1] >= n:
        bad = m.not_(self.atom('inrange', self.pathof(i0), self.pathof(s)))
        if n and isinstance(i0, Sy) and self.pytype(i0) == 'int':
            bad = m.or_(self.atom('ge', i0.path, n),
                        m.not_(self.atom('ge', i0.path, -n)))
        self.risk('IndexError', 'item of a list', bad, self.pathof(s))
    if s.entries:
        return self.union_items(
            [(1, v) for g, v in s.entries], i0)
    return self.unknown(('item', self.pathof(s), self.pathof(i0)))
