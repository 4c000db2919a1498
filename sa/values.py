"""Abstract values of the guarded dataflow analysis.

A `V` is a guarded union: a tuple of `(guard, simple)` alternatives, where the
guard is a BDD node and the simple value one of the classes below.  Guards of
one `V` are mutually exclusive on the paths where the value is live.
"""
from collections import OrderedDict


class Simple:
    __slots__ = ()

    def key(self):
        return id(self)


class K(Simple):
    """A constant (any immutable Python object of a builtin type)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        try:
            hash(self.v)
        except TypeError:
            return ('K', id(self.v))
        return ('K', type(self.v).__name__, self.v)

    def __repr__(self):
        return 'K(%r)' % (self.v,)


class B(Simple):
    """A symbolic boolean."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def key(self):
        return ('B', self.b)

    def __repr__(self):
        return 'B(%d)' % self.b


class Sy(Simple):
    """A symbolic (input-derived) value: an access path plus a type."""
    __slots__ = ('path', 'ty')

    def __init__(self, path, ty=('any',)):
        self.path = path
        self.ty = ty

    def key(self):
        return ('Sy', self.path, self.ty)

    def __repr__(self):
        return 'Sy(%r)' % (self.path,)


class Undef(Simple):
    """A local that is unbound on some paths."""
    __slots__ = ()

    def key(self):
        return ('U',)

    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class O(Simple):
    """An instance of a class of the analysed program."""
    __slots__ = ('cls', 'attrs', 'prim', 'label')

    def __init__(self, cls, attrs=None, prim=None, label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.prim = prim            # V for str/int/tuple subclasses
        self.label = label

    def key(self):
        return ('O', id(self))

    def __repr__(self):
        if self.prim is not None:
            return 'O(%s, %r)' % (self.cls.name, self.prim)
        return 'O(%s%s)' % (self.cls.name,
                            ' ' + str(self.label) if self.label else '')


class ClassV(Simple):
    __slots__ = ('name', 'bases', 'ns', 'module', 'mro', 'node', 'meta')

    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.meta = {}
        mro = [self]
        # A linearisation adequate for the (single/mixin) inheritance used.
        seqs = [list(b.mro) for b in bases if isinstance(b, ClassV)]
        seqs.append([b for b in bases if isinstance(b, ClassV)])
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            mro.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        self.mro = mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self):
        r = []
        for c in self.mro:
            for b in c.bases:
                if not isinstance(b, ClassV):
                    r.append(b)
        return r

    def is_sub(self, other):
        return other in self.mro

    def __repr__(self):
        return 'Class(%s)' % self.name


class FuncV(Simple):
    __slots__ = ('node', 'scope', 'defaults', 'kwdefaults', 'module', 'name',
                 'cls', 'attrs', 'is_gen')

    def __init__(self, node, scope, defaults, kwdefaults, module, name,
                 is_gen):
        self.node = node
        self.scope = scope
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.module = module
        self.name = name
        self.cls = None
        self.attrs = {}
        self.is_gen = is_gen

    def __repr__(self):
        return 'Func(%s)' % self.name


class BoundV(Simple):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func        # simple
        self.self_ = self_      # V

    def key(self):
        return ('Bound', self.func.key(),
                tuple((g, s.key()) for g, s in self.self_.alts))

    def __repr__(self):
        return 'Bound(%r)' % (self.func,)


class PropV(Simple):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class WrapV(Simple):
    """classmethod/staticmethod wrapper."""
    __slots__ = ('kind', 'func')

    def __init__(self, kind, func):
        self.kind = kind
        self.func = func


class ModV(Simple):
    __slots__ = ('name', 'ns', 'path', 'tree', 'src')

    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.ns = {}
        self.tree = None
        self.src = None

    def __repr__(self):
        return 'Mod(%s)' % self.name


class ExtV(Simple):
    """Something outside the analysed program, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('Ext', self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class ExtMeth(Simple):
    """A bound method of an external/builtin-typed value."""
    __slots__ = ('self_', 'name')

    def __init__(self, self_, name):
        self.self_ = self_      # simple
        self.name = name

    def key(self):
        return ('ExtMeth', self.self_.key(), self.name)

    def __repr__(self):
        return 'ExtMeth(%r.%s)' % (self.self_, self.name)


class NatV(Simple):
    """A native (checker-implemented) callable."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'Nat(%s)' % self.name


class Contract(Simple):
    """Base for checker-modelled objects (see contracts.py)."""
    __slots__ = ()


class ListV(Simple):
    """list / set / deque / iterator with guarded entries."""
    __slots__ = ('kind', 'entries', 'opaque', 'label', 'born')

    def __init__(self, kind='list', entries=None, opaque=None, label=None,
                 born=1):
        self.kind = kind
        self.born = born           # condition under which it was created
        self.entries = entries if entries is not None else []
        self.opaque = opaque       # path standing for unknown mutations
        self.label = label

    def __repr__(self):
        return 'ListV(%s,%r)' % (self.kind, self.entries)


class TupV(Simple):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ('T',) + tuple(tuple((g, s.key()) for g, s in v.alts)
                              for v in self.items)

    def __repr__(self):
        return 'T%r' % (self.items,)


class DictV(Simple):
    __slots__ = ('entries', 'label', 'opaque')

    def __init__(self, label=None):
        self.entries = OrderedDict()     # norm key -> [key V, guard, val V]
        self.label = label
        self.opaque = None

    def __repr__(self):
        return 'D(%d)' % len(self.entries)


class V:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def single(self):
        return self.alts[0][1] if len(self.alts) == 1 else None

    def __repr__(self):
        if len(self.alts) == 1 and self.alts[0][0] == 1:
            return 'V<%r>' % (self.alts[0][1],)
        return 'V<%s>' % ', '.join('%d:%r' % a for a in self.alts)


def one(s):
    return V(((1, s),))


def k(v):
    return V(((1, K(v)),))


NONE = k(None)
TRUEV = k(True)
FALSEV = k(False)
ANY = ('any',)
TOPTY = ANY


def ty_union(tys):
    out = []
    seen = set()
    for t in tys:
        if t is None:
            continue
        for u in (t[1] if t[0] == 'union' else (t,)):
            if u == ANY:
                return ANY
            if u[0] == 'const' and isinstance(u[1][1], K):
                c = (u[1][0], repr(u[1][1].v))
                if c in seen:
                    continue
                seen.add(c)
            if u not in out:
                out.append(u)
    if not out:
        return ANY
    # Merge lists and tuples-of-same-arity; drop constants covered by prims.
    merged = []
    lists = [t for t in out if t[0] == 'list']
    if len(lists) > 1:
        inner = [t[1] for t in lists if t[1] is not None]
        lt = ('list', ty_union(inner) if inner else None)
    elif lists:
        lt = lists[0]
    else:
        lt = None
    by_cls = OrderedDict()
    tup = OrderedDict()
    for t in out:
        if t[0] == 'list':
            continue
        if t[0] == 'cls':
            by_cls.setdefault(id(t[1]), []).append(t)
        elif t[0] == 'tuple':
            tup.setdefault(len(t[1]), []).append(t)
        else:
            merged.append(t)
    for ts in by_cls.values():
        if len(ts) == 1:
            merged.append(ts[0])
        else:
            n = {len(t[2] or ()) for t in ts}
            if len(n) == 1 and ts[0][2]:
                fields = tuple(ty_union([t[2][i] for t in ts])
                               for i in range(len(ts[0][2])))
                merged.append(('cls', ts[0][1], fields))
            else:
                merged.append(('cls', ts[0][1], None))
    for ts in tup.values():
        if len(ts) == 1:
            merged.append(ts[0])
        else:
            merged.append(('tuple', tuple(
                ty_union([t[1][i] for t in ts])
                for i in range(len(ts[0][1])))))
    if lt is not None:
        merged.append(lt)
    prims = {t[1] for t in merged if t[0] == 'prim'}
    clss = {t[1] for t in merged if t[0] == 'cls'}
    consts = [t for t in merged if t[0] == 'const']
    if consts:
        base = {}
        for t in consts:
            b = const_base(t)
            if b is not None:
                base.setdefault(b, []).append(t)
        keep = []
        for t in merged:
            b = const_base(t) if t[0] == 'const' else None
            if b is not None:
                if b in prims or b in clss:
                    continue
                if len(base[b]) > (12 if b == 'int' else 8):
                    w = ('prim', b) if isinstance(b, str) else \
                        ('cls', b, None)
                    if w not in keep:
                        keep.append(w)
                    continue
            keep.append(t)
        merged = keep
    merged.sort(key=ty_sort)
    if len(merged) == 1:
        return merged[0]
    return ('union', tuple(merged))


def const_base(t):
    """The prim name / class whose values include a string constant."""
    s = t[1][1]
    if isinstance(s, K) and isinstance(s.v, (str, bytes, float)) or \
            isinstance(s, K) and type(s.v) is int:
        return type(s.v).__name__
    if isinstance(s, Sy):
        return s.ty[1] if s.ty[0] in ('prim', 'cls') else None
    return None


def ty_sort(t):
    order = {'none': 0, 'unav': 1, 'const': 2, 'prim': 3, 'cls': 4,
             'tuple': 5, 'list': 6}
    return (order.get(t[0], 9), ty_label(t))


def ty_label(t):
    if t[0] == 'cls':
        return t[1].name
    if t[0] == 'prim':
        return t[1]
    if t[0] == 'const':
        return repr(t[1])
    if t[0] == 'tuple':
        return 'tuple%d' % len(t[1])
    return t[0]
