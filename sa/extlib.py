"""Models of builtins and of the library functions the program uses."""
import ast
import builtins as pybuiltins
import csv
import io
import os
import string as pystring
import urllib.parse

from .values import (ANY, B, BoundV, ClassV, Contract, DictV, ExtMeth, ExtV,
                     FuncV, K, ListV, ModV, NONE, NatV, O, PropV, Simple, Sy,
                     TupV, UNDEF, V, WrapV, k, one, ty_union)
from .ops import BOOLT, BYTEST, FLOATT, INTT, STRT


class SuperV(Simple):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Bits256:
    """Model of bitstring.Bits / BitArray used as a 256-bit set."""
    __slots__ = ('mask', 'n')

    def __init__(self, n=256, mask=0):
        self.n = n
        self.mask = mask

    def __or__(self, o):
        return Bits256(self.n, self.mask | o.mask)

    def __and__(self, o):
        return Bits256(self.n, self.mask & o.mask)

    def __xor__(self, o):
        return Bits256(self.n, self.mask ^ o.mask)

    def __invert__(self):
        return Bits256(self.n, self.mask ^ ((1 << self.n) - 1))

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError
        if not -self.n <= i < self.n:
            raise IndexError('bit index')
        return bool(self.mask >> (i % self.n) & 1)

    def setitem(self, i, v):
        if v:
            self.mask |= 1 << i
        else:
            self.mask &= ~(1 << i)

    def __iter__(self):
        return iter([bool(self.mask >> i & 1) for i in range(self.n)])

    def __len__(self):
        return self.n

    def __eq__(self, o):
        return isinstance(o, Bits256) and (o.n, o.mask) == (self.n,
                                                           self.mask)

    def __hash__(self):
        return id(self)


CONSTS = {
    'string.ascii_letters': pystring.ascii_letters,
    'string.ascii_lowercase': pystring.ascii_lowercase,
    'string.ascii_uppercase': pystring.ascii_uppercase,
    'string.digits': pystring.digits,
    'string.hexdigits': pystring.hexdigits,
    'string.punctuation': pystring.punctuation,
    'string.whitespace': pystring.whitespace,
    'string.printable': pystring.printable,
    'zlib.MAX_WBITS': 15,
    'sys.maxsize': (1 << 63) - 1,
    'sys.version_info': (3, 12, 3),
}

# --------------------------------------------------------------------------
# exceptions

EXT_EXC = {
    'json.JSONDecodeError': ('ValueError',),
    'json.decoder.JSONDecodeError': ('ValueError',),
    'binascii.Error': ('ValueError',),
    'zlib.error': ('Exception',),
    'brotli.error': ('Exception',),
    'xml.etree.ElementTree.ParseError': ('SyntaxError',),
    'defusedxml.ElementTree.ParseError': ('SyntaxError',),
    'defusedxml.DefusedXmlException': ('ValueError',),
    'defusedxml.EntitiesForbidden': ('defusedxml.DefusedXmlException',),
    'defusedxml.DTDForbidden': ('defusedxml.DefusedXmlException',),
    'defusedxml.ExternalReferenceForbidden':
        ('defusedxml.DefusedXmlException',),
    'lxml.etree.XMLSyntaxError': ('SyntaxError',),
    'DecoderError': ('Exception',),     # "whatever the decoder raises"
}
_ALIASES = {'EnvironmentError': 'OSError', 'IOError': 'OSError'}


def exc_parents(name):
    if isinstance(name, ClassV):
        return [getattr(b, 'name', 'Exception') for c in name.mro
                for b in c.bases if not isinstance(b, ClassV)] or ['Exception']
    name = _ALIASES.get(name, name)
    if name in EXT_EXC:
        return list(EXT_EXC[name])
    c = getattr(pybuiltins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [b.__name__ for b in c.__bases__]
    return ['Exception'] if name not in ('object',) else []


def exc_is(name, sup):
    sup = _ALIASES.get(sup, sup)
    name = _ALIASES.get(name, name)
    seen = set()
    todo = [name]
    while todo:
        n = todo.pop()
        if n == sup:
            return True
        if n in seen or n == 'object':
            continue
        seen.add(n)
        todo += exc_parents(n)
    return False


def is_exc_name(name):
    if name in EXT_EXC:
        return True
    c = getattr(pybuiltins, name, None)
    return isinstance(c, type) and issubclass(c, BaseException)


EXC_ATTRS = {'args', 'message', 'with_traceback', '__traceback__'}
OBJECT_METHODS = {'__init__', '__new__', '__repr__', '__str__', '__eq__',
                  '__hash__', '__ne__', '__setattr__', '__class__',
                  '__getattribute__', '__subclasses__', '__doc__'}
NAT_ATTRS = {}

# --------------------------------------------------------------------------
# attributes/methods of builtin types

PY_TYPES = {'str': str, 'bytes': bytes, 'int': int, 'float': float,
            'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict,
            'set': set, 'NoneType': type(None), 'bytearray': bytearray,
            'frozenset': frozenset}
ANY_METHODS = set(dir(str)) | set(dir(bytes)) | set(dir(list)) | \
    set(dir(dict))
ANY_METHODS = {x for x in ANY_METHODS if not x.startswith('__')}
NONCALL_ATTRS = {'int': ('real', 'imag', 'numerator', 'denominator'),
                 'slice': ('start', 'stop', 'step')}

PRIM_ATTRS = {
    'datetime': dict(
        year=INTT, month=INTT, day=INTT, hour=INTT, minute=INTT, second=INTT,
        microsecond=INTT, tzinfo=ANY, strftime='method', isoformat='method',
        replace='method', timestamp='method', date='method',
        utcoffset='method', astimezone='method', weekday='method',
        time='method', isoweekday='method'),
    'date': dict(year=INTT, month=INTT, day=INTT, strftime='method',
                 isoformat='method', weekday='method', replace='method',
                 isoweekday='method'),
    'time': dict(hour=INTT, minute=INTT, second=INTT, microsecond=INTT,
                 strftime='method', isoformat='method'),
    'timedelta': dict(days=INTT, seconds=INTT, microseconds=INTT,
                      total_seconds='method'),
    'codec': dict(name=STRT),
    'zdec': dict(decompress='method', flush='method'),
    'emailmsg': dict(is_multipart='method', get_payload='method',
                     get_content_type='method', keys='method',
                     defects=('list', ('prim', 'object'))),
}


def known_ext_method(ty, name):
    return False


def has_pymethod(ty, name):
    t = PY_TYPES.get(ty)
    return t is not None and hasattr(t, name)


def has_method(I, s, name):
    if isinstance(s, K):
        return hasattr(s.v, name)
    if isinstance(s, Sy):
        pt = I.pytype(s)
        return has_pymethod(pt, name) if pt in PY_TYPES else True
    if isinstance(s, ListV):
        t = {'list': list, 'set': set, 'tuple': tuple, 'deque': None,
             'iter': None, 'once': None, 'ctx': None}.get(s.kind)
        if t is None:
            import collections
            return hasattr(collections.deque, name) if s.kind == 'deque' \
                else name in ('close', 'send', '__next__', '__iter__',
                              'throw')
        return hasattr(t, name)
    if isinstance(s, DictV):
        import collections
        return hasattr(collections.OrderedDict, name)
    if isinstance(s, TupV):
        return hasattr(tuple, name)
    if isinstance(s, B):
        return hasattr(bool, name)
    return False


# --------------------------------------------------------------------------
# builtins

_BUILTIN_CACHE = {}
TYPE_NAMES = {'str', 'int', 'float', 'bool', 'bytes', 'list', 'tuple', 'dict',
              'set', 'frozenset', 'object', 'type', 'bytearray', 'property',
              'classmethod', 'staticmethod', 'slice', 'memoryview'}


def builtin(I, name):
    if name in ('True', 'False', 'None'):
        return k({'True': True, 'False': False, 'None': None}[name])
    if hasattr(pybuiltins, name):
        return one(ExtV(name))
    return None


def install(I):
    I.ext['binop'] = datetime_binop


def datetime_binop(I, op, s, t):
    ts, tt = I.pytype(s), I.pytype(t)
    p, q = I.pathof(s), I.pathof(t)
    if op == 'Add' and 'timedelta' in (ts, tt):
        if 'datetime' in (ts, tt):
            safe = now_like(p) and const_delta(q)
            if not safe:
                I.raise_named('OverflowError', 'datetime + timedelta',
                              key=('datetime+', p, q))
            return one(Sy(('op', 'Add', p, q), ('prim', 'datetime')))
        if ts == tt:
            I.raise_named('OverflowError', 'timedelta + timedelta',
                          key=('delta+', p, q))
            return one(Sy(('op', 'Add', p, q), ('prim', 'timedelta')))
    if op == 'Sub' and ts == 'datetime':
        if tt == 'datetime':
            # naive - naive: always representable
            return one(Sy(('op', 'Sub', p, q), ('prim', 'timedelta')))
        if tt == 'timedelta':
            if not (now_like(p) and const_delta(q)):
                I.raise_named('OverflowError', 'datetime - timedelta',
                              key=('datetime-', p, q))
            return one(Sy(('op', 'Sub', p, q), ('prim', 'datetime')))
    return None


def now_like(p):
    return p[0] == 'now'


def const_delta(p):
    return p[0] == 'delta' and all(
        isinstance(x, tuple) and x[1][0] == 'k' for x in p[1:])


# --------------------------------------------------------------------------
# instantiation

def finish_class(I, cls):
    for b in cls.bases:
        if isinstance(b, ExtV) and b.name in ('enum.Enum', 'enum.IntEnum'):
            cls.meta['enum'] = True
        if isinstance(b, ClassV) and b.meta.get('enum'):
            cls.meta['enum'] = True
        if isinstance(b, ClassV):
            for x in ('small', 'open'):
                if x in b.meta:
                    cls.meta[x] = b.meta[x]
    f = I.nt_fields(cls)
    if f:
        for i, n in enumerate(f):
            if I.fields.get(n, i) != i:
                I.fields[n] = None
            else:
                I.fields[n] = i
    if cls.meta.get('enum'):
        members = {}
        for n, v in list(cls.ns.items()):
            s = v.single()
            if n.startswith('_') or s is None:
                continue
            if isinstance(s, (K, TupV)) and n not in ('name', 'value'):
                mem = O(cls, {'_value': v}, None, n)
                members[n] = one(mem)
                cls.ns[n] = one(mem)
        cls.meta['members'] = members


def instantiate(I, cls, args, kwargs):
    if cls.meta.get('enum'):
        for n, mv in cls.meta['members'].items():
            mo = mv.alts[0][1]
            if args and I.compare('Eq', mo.attrs['_value'], args[0]) == 1:
                return mv
        I.raise_named('ValueError', 'enum %s' % cls.name)
        return I.unknown(('enum', cls.name))
    new = cls.lookup('__new__')
    if new is not None and isinstance(new.alts[0][1], (FuncV, WrapV)):
        f = new.alts[0][1]
        if isinstance(f, WrapV):
            f = f.func
        r = I.call(one(f), [one(cls)] + list(args), kwargs)
        return r
    return base_new(I, cls, args, kwargs, init=True)


def base_new(I, cls, args, kwargs, init=False):
    base = I.cls_base(cls)
    fields = I.nt_fields(cls)
    if fields is not None:
        return nt_new(I, cls, fields, args, kwargs)
    if base in ('str', 'int', 'bytes', 'float'):
        return prim_new(I, cls, base, args, kwargs)
    o = O(cls, {})
    sc = I.symbol_cls
    if sc is None or cls.is_sub(sc):
        I.alive.append(o)       # tables are keyed by their identity
    if base == 'tuple':
        o.prim = args[0] if args else one(TupV(()))
        return one(o)
    if base in ('dict', 'list'):
        o.prim = call_ext(I, ExtV(base), args, kwargs)
        return one(o)
    if init:
        f = cls.lookup('__init__')
        if f is not None:
            I.call(one(BoundV(f.alts[0][1], one(o))), args, kwargs)
        else:
            o.attrs['args'] = one(TupV(args)) if cls.ext_bases() else NONE
            if not cls.ext_bases():
                o.attrs.pop('args')
            if args and not cls.ext_bases():
                I.fault('TypeError', '%s() takes no arguments' % cls.name)
    return one(o)


def nt_new(I, cls, fields, args, kwargs):
    defaults = None
    for c in cls.mro:
        if 'nt_defaults' in c.meta:
            defaults = c.meta['nt_defaults']
    vals = list(args)
    if len(vals) > len(fields):
        I.fault('TypeError', '%s() takes %d fields, got %d' %
                (cls.name, len(fields), len(vals)))
        return NONE
    kw = dict(kwargs)
    for f in fields[len(vals):]:
        if f in kw:
            vals.append(kw.pop(f))
        elif '*' in kw or '**' in kw:
            vals.append(I.unknown(('field', cls.name, f)))
        else:
            I.fault('TypeError', '%s() missing field %s' % (cls.name, f))
            return NONE
    kw.pop('*', None)
    kw.pop('**', None)
    if kw:
        I.fault('TypeError', '%s() got unexpected field %s' %
                (cls.name, sorted(kw)))
        return NONE
    return one(O(cls, {}, one(TupV(vals))))


def prim_new(I, cls, base, args, kwargs):
    if not args:
        return one(O(cls, {}, k(PY_TYPES[base]())))

    def go(s):
        p = I.prim_of(s)
        pt = I.pytype(p)
        if isinstance(p, K):
            try:
                return one(O(cls, {}, k(PY_TYPES[base](p.v))))
            except Exception as e:
                I.raise_named(type(e).__name__, '%s(%r)' % (cls.name, p.v),
                              certain=True)
                return NONE
        if base == 'int':
            if pt not in ('int', 'bool') and not (
                    isinstance(p, Sy) and p.ty == ANY):
                v = to_int(I, one(p), [])
                return I.split(v, lambda x: wrap(x))
            return wrap(p)
        if pt == base:
            return wrap(p)
        if isinstance(p, Sy) and p.ty == ANY:
            return wrap(p)
        if base == 'str' and isinstance(p, (ListV, DictV)):
            ok, x = constant(I, p)
            if ok:
                return wrap(K(str(x)))
        return wrap(Sy(('conv', base, I.pathof(p)), ('prim', base)))

    def wrap(p):
        if isinstance(p, K):
            return one(O(cls, {}, one(p)))
        if isinstance(p, Sy):
            return one(Sy(p.path, ('cls', cls, None)))
        return one(O(cls, {}, one(p)))
    return I.split(args[0], go)


def super_attr(I, s, name):
    obj = s.obj
    os_ = obj.single() if obj is not None else None
    if isinstance(os_, ClassV):
        mro = os_.mro
    else:
        c = I.clsof(os_) if os_ is not None else s.cls
        mro = c.mro if c is not None else s.cls.mro
    i = mro.index(s.cls) + 1 if s.cls in mro else 0
    for c in mro[i:]:
        if name in c.ns:
            v = c.ns[name]
            x = v.alts[0][1]
            if isinstance(x, PropV):
                return I.call(one(x.fget), [obj], {})
            if isinstance(x, WrapV):
                return one(BoundV(x.func, obj if isinstance(os_, ClassV)
                                  else one(I.clsof(os_))))
            if name == '__new__':
                return v
            return one(BoundV(x, obj))
    # external bases
    if name == '__new__':
        def new(I, args, kwargs):
            c = args[0].alts[0][1]
            return base_new(I, c, args[1:], kwargs)
        return one(NatV('__new__', new))
    if name == '__init__':
        def init(I, args, kwargs):
            o = os_
            if isinstance(o, O) and o.cls.ext_bases() and args:
                o.attrs.setdefault('args', one(TupV(args)))
            return NONE
        return one(NatV('__init__', init))
    if name == '__eq__' or name == '__ne__':
        def eq(I, args, kwargs):
            b = 0
            for g, t in I.live(args[0]):
                x = I.base_eq(prim1(I, os_), prim1(I, t))
                b = I.m.or_(b, I.m.and_(g, x))
            return I.bv(b if name == '__eq__' else I.m.not_(b))
        return one(NatV('super' + name, eq))
    if name == '__hash__':
        return one(NatV('hash', lambda I, a, kw: I.unknown(('hash',))))
    if name == '__repr__' or name == '__str__':
        return one(NatV('repr', lambda I, a, kw: one(
            Sy(('repr', I.pathof(os_)), STRT))))
    if isinstance(os_, (O, Sy)):
        p = I.prim_of(os_)
        if not isinstance(p, O):
            return one(ExtMeth(p, name))
    return one(ExtV('super.' + name))


def prim1(I, s):
    if isinstance(s, O) and s.prim is not None:
        p = s.prim.single()
        if p is not None:
            return p
    return s


# --------------------------------------------------------------------------
# isinstance

def isinstance_bdd(I, s, c):
    m = I.m
    if isinstance(c, TupV):
        return m.disj(isinstance_bdd(I, s, x)
                      for v in c.items for _, x in v.alts)
    if isinstance(c, K) and isinstance(c.v, tuple) and not c.v:
        return 0
    if isinstance(s, Contract):
        return s.isinstance_(I, c)
    if isinstance(c, ClassV):
        cs = I.clsof(s)
        if cs is not None:
            return 1 if cs.is_sub(c) else 0
        if isinstance(s, Sy):
            if s.ty[0] in ('any', 'cls'):
                return I.atom('is', s.path, c.name)
            if s.ty[0] == 'exc':
                return 1 if s.ty[1] == c.name else 0
            if s.ty[0] == 'unav':
                return 1 if c.name == 'Unavailable' else 0
            return 0
        return 0
    if isinstance(c, ExtV):
        n = c.name
        if n == 'object':
            return 1
        if n == 'type':
            return 1 if isinstance(s, ClassV) or (
                isinstance(s, ExtV) and
                (s.name in TYPE_NAMES or is_exc_name(s.name))) else 0
        pt = I.pytype(s)
        if n in PY_TYPES:
            if pt is None:
                if isinstance(s, Sy) and s.ty == ANY:
                    return I.atom('is', s.path, n)
                return 0
            if pt == n or (pt == 'bool' and n == 'int'):
                return 1
            if isinstance(s, ListV) and s.kind == n:
                return 1
            return 0
        if isinstance(s, Sy) and s.ty[0] == 'exc' and is_exc_name(n):
            return 1 if exc_is(s.ty[1], n) else 0
        if isinstance(s, O):
            for b in s.cls.ext_bases():
                if isinstance(b, ExtV) and (b.name == n or
                                            exc_is(b.name, n)):
                    return 1
            return 0
        if isinstance(s, Sy) and s.ty[0] == 'prim':
            return 1 if n.rpartition('.')[2] == s.ty[1] else 0
        if isinstance(s, Sy) and s.ty == ANY:
            return I.atom('is', s.path, n)
        if isinstance(s, ExtV):
            return I.atom('is', ('ext', s.name), n)
        return 0
    return I.atom('is', I.pathof(s), repr(I.pathof(c)))


# --------------------------------------------------------------------------
# conversions

def to_int(I, v, rest):
    def go(s):
        p = I.prim_of(s)
        if isinstance(p, K):
            try:
                a = [r.single().v for r in rest]
                return k(int(p.v, *a))
            except Exception as e:
                I.raise_named(type(e).__name__, 'int(%r)' % (p.v,),
                              certain=True)
                return NONE
        if isinstance(p, B):
            return one(p)
        if isinstance(s, (ListV, DictV)):
            I.raise_named('TypeError', 'int() of a container', certain=True)
            return NONE
        pt = I.pytype(p)
        path = I.pathof(p)
        if pt in ('int', 'float') and not rest:
            return one(Sy(path if pt == 'int' else ('int', path), INTT))
        if isinstance(p, K) and p.v is None:
            I.fault('TypeError', 'int(None)')
            return NONE
        if isinstance(p, O) and p.prim is None and not p.cls.ext_bases():
            I.fault('TypeError', 'int(%s)' % p.cls.name)
            return NONE
        base = tuple(I.vpath(r) for r in rest)
        if not I.int_safe(p, rest):
            I.raise_named('ValueError', 'int() of %s' % short(path),
                          key=('int', path) + base)
        return one(Sy(('int', path) + base, INTT))
    return I.split(v, go)


def short(path):
    r = repr(path)
    return r if len(r) < 80 else r[:77] + '...'


def _num_safe(I, p, rest):
    return False


def numconv(I, v, name):
    def go(s):
        p = I.prim_of(s)
        if isinstance(p, K):
            try:
                return k(float(p.v))
            except Exception as e:
                I.raise_named(type(e).__name__, 'float(%r)' % (p.v,),
                              certain=True)
                return NONE
        path = I.pathof(p)
        if I.pytype(p) in ('int', 'float', 'bool'):
            return one(Sy(('float', path), FLOATT))
        if not I.float_safe(p):
            I.raise_named('ValueError', 'float() of %s' % short(path),
                          key=('float', path))
        return one(Sy(('float', path), FLOATT))
    return I.split(v, go)


class _Opaque(Exception):
    pass


def pyvalue(I, s, depth=0):
    """The Python value of a container of constants."""
    p = I.prim_of(s) if s is not None else None
    if isinstance(p, K) and isinstance(p.v, (str, bytes, int, float,
                                             type(None))):
        return p.v
    if depth < 6 and isinstance(s, TupV):
        return tuple(pyvalue(I, x.single(), depth + 1) for x in s.items)
    if depth < 6 and isinstance(s, ListV) and s.kind == 'list' and \
            s.opaque is None and all(g == 1 for g, _ in s.entries):
        return [pyvalue(I, x.single(), depth + 1) for _, x in s.entries]
    if depth < 6 and isinstance(s, DictV):
        if s.opaque is None and all(e[1] == 1 for e in s.entries.values()):
            try:
                return {pyvalue(I, e[0].single(), depth + 1):
                        pyvalue(I, e[2].single(), depth + 1)
                        for e in s.entries.values()}
            except TypeError:
                pass
    raise _Opaque()


def constant(I, s):
    """(True, value) of a container of constants."""
    try:
        return True, pyvalue(I, s)
    except _Opaque:
        return False, None


def to_str(I, v, args):
    def go(s):
        p = I.prim_of(s)
        if isinstance(s, (ListV, DictV)) and len(args) < 2:
            ok, x = constant(I, s)
            if ok:
                return k(str(x))
        if I.on_str is not None:
            I.on_str(s, p)
        if isinstance(s, O) and s.cls.lookup('__str__') is not None and \
                I.cls_base(s.cls) != 'str':
            return I.call_method(s, '__str__', [])
        if isinstance(p, K):
            if len(args) > 1:
                try:
                    return k(str(p.v, *[a.single().v for a in args[1:]]))
                except Exception as e:
                    I.raise_named(type(e).__name__, 'str()', certain=True)
                    return NONE
            return k(str(p.v))
        if I.pytype(p) == 'str':
            return one(p) if isinstance(p, Sy) and p.ty == STRT else \
                one(Sy(I.pathof(p), STRT))
        return one(Sy(('str', I.pathof(p)), STRT))
    return I.split(v, go)


def seqof(I, v):
    return I.entries_of(v)


def b_len(I, args, kw):
    def go(s):
        p = I.prim_of(s)
        if isinstance(p, K):
            if p.v is None:
                I.fault('TypeError', 'len(None)')
                return NONE
            try:
                return k(len(p.v))
            except TypeError:
                I.fault('TypeError', 'len(%r)' % (p.v,))
                return NONE
        if isinstance(p, TupV):
            return k(len(p.items))
        if isinstance(p, ListV):
            if p.opaque is None and all(g == 1 for g, _ in p.entries):
                return k(len(p.entries))
            if len(p.entries) == 1 and p.opaque is None:
                g, v = p.entries[0]
                els = [e for e in I.bdd_elems(g) if e not in I.open]
                if len(els) == 1 and g == I.m.atom_index.get(
                        ('elem', els[0])) is not None and False:
                    return one(Sy(('len', els[0][1]), INTT))
                if len(els) == 1:
                    sup = I.m.support_atoms(g)
                    if sup == [('elem', els[0])]:
                        return one(Sy(('len', els[0][1]), INTT))
            path = ('len', I.pathof(p))
            I.lengths[path] = p
            return one(Sy(path, INTT))
        if isinstance(p, DictV):
            if not p.opaque and all(e[1] == 1 for e in p.entries.values()):
                return k(len(p.entries))
            return one(Sy(('len', I.pathof(p)), INTT))
        c = I.clsof(s)
        if c is not None and c.lookup('__len__') is not None:
            return I.call_method(s, '__len__', [])
        if isinstance(s, Contract):
            return s.length(I)
        if isinstance(p, O) and p.prim is None and not p.cls.ext_bases():
            I.fault('TypeError', 'len() of %s' % p.cls.name)
            return NONE
        if isinstance(p, B) or I.pytype(p) in ('int', 'float'):
            I.fault('TypeError', 'len() of a number')
            return NONE
        if isinstance(p, Sy) and p.ty[0] == 'any':
            I.note_untyped('len', p)
        return one(Sy(('len', I.pathof(p)), INTT))
    return I.split(args[0], go)


def b_isinstance(I, args, kw):
    m = I.m
    b = 0
    for g, s in args[0].alts:
        if m.and_(I.pc, g) == 0:
            continue
        for g2, c in args[1].alts:
            gg = m.and_(g, g2)
            b = m.or_(b, m.and_(gg, isinstance_bdd(I, s, c)))
    return I.bv(b)


def b_issubclass(I, args, kw):
    a, c = args[0].alts[0][1], args[1].alts[0][1]
    if isinstance(a, ClassV) and isinstance(c, ClassV):
        return k(a.is_sub(c))
    if isinstance(a, ClassV) and isinstance(c, ExtV):
        return k(any(isinstance(b, ExtV) and b.name == c.name
                     for b in a.ext_bases()))
    return I.unknown(('issubclass', I.pathof(a), I.pathof(c)), BOOLT)


def b_getattr(I, args, kw):
    n = args[1].single()
    d = args[2] if len(args) > 2 else None
    if n is not None:
        n = I.prim_of(n)
    if isinstance(n, K):
        if d is not None:
            # a property raising AttributeError also yields the default
            return I.getattr(args[0], n.v, d)
        return I.getattr(args[0], n.v, None)
    r = one(Sy(('getattr', I.vpath(args[0]), I.vpath(args[1])), ANY))
    return r


def b_hasattr(I, args, kw):
    n = args[1].single()
    if isinstance(n, K):
        m = I.m
        b = 0
        for g, s in args[0].alts:
            if m.and_(I.pc, g) == 0:
                continue
            sent = one(ExtV('<missing>'))
            f0 = len(I.faults)
            pc0 = I.pc
            try:
                r = I.getattr1(s, n.v, sent)
            finally:
                del I.faults[f0:]
                I.pc = pc0
            x = 0
            for g2, y in r.alts:
                if not (isinstance(y, ExtV) and y.name == '<missing>'):
                    x = m.or_(x, g2)
            b = m.or_(b, m.and_(g, x))
        return I.bv(b)
    return I.unknown(('hasattr', I.vpath(args[0]), I.vpath(args[1])), BOOLT)


def b_any(I, args, kw, neg=False):
    m = I.m
    r = 0
    pc0 = I.pc
    for g, v in I.entries_of(args[0]):
        (g, v, els) = I.open_entry(g, v)
        I.open.extend(els)
        I.pc = m.and_(pc0, g)
        if I.pc:
            t = I.truth(v)
            if neg:
                t = m.not_(t)
            r = m.or_(r, I.close(m.and_(g, t), els))
        if els:
            del I.open[len(I.open) - len(els):]
    I.pc = pc0
    return I.bv(m.not_(r) if neg else r)


def b_all(I, args, kw):
    return b_any(I, args, kw, neg=True)


def b_enumerate(I, args, kw):
    out = []
    start = 0
    if len(args) > 1:
        s = args[1].single()
        start = s.v if isinstance(s, K) else None
    ents = I.entries_of(args[0])
    if start is not None and all(g == 1 for g, _ in ents):
        return one(ListV('iter', [(1, one(TupV([k(start + i), v])))
                                  for i, (_, v) in enumerate(ents)]))
    for i, (g, v) in enumerate(ents):
        out.append((g, one(TupV([one(Sy(('index', I.vpath(v)), INTT)), v]))))
    return one(ListV('iter', out))


def b_zip(I, args, kw):
    lists = [I.entries_of(a) for a in args]
    if all(g == 1 for l in lists for g, _ in l):
        return one(ListV('iter', [(1, one(TupV([x[1] for x in t])))
                                  for t in zip(*lists)]))
    out = []
    n = min(len(l) for l in lists) if lists else 0
    for i in range(n):
        g = I.m.conj(l[i][0] for l in lists)
        out.append((g, one(TupV([l[i][1] for l in lists]))))
    return one(ListV('iter', out))


def const_of(I, v):
    """The Python value of constants and tuples of constants."""
    s = v.single()
    if isinstance(s, TupV):
        return tuple(const_of(I, x) for x in s.items)
    if isinstance(s, O) and s.cls.lookup('__lt__') is not None:
        raise ValueError
    p = I.prim_of(s) if s is not None else None
    if isinstance(p, TupV):
        return tuple(const_of(I, x) for x in p.items)
    if not isinstance(p, K):
        raise ValueError
    return p.v


def sorted_consts(I, ents, kw, descending=False):
    if not ents or any(g != 1 or v.single() is None for g, v in ents):
        return None
    key = kw.get('key')
    try:
        if key is not None and not (isinstance(key.single(), K) and
                                    key.single().v is None):
            ks = [const_of(I, I.call(key, [v], {})) for _, v in ents]
        else:
            ks = [const_of(I, v) for _, v in ents]
        rev = descending or \
            'reverse' in kw and const_of(I, kw['reverse'])
        ix = sorted(range(len(ents)), key=lambda i: ks[i],
                    reverse=bool(rev))
    except (ValueError, TypeError, AttributeError):
        return None
    return [ents[i] for i in ix]


def b_sorted(I, args, kw):
    ents = I.entries_of(args[0])
    if all(g == 1 and isinstance(I.prim_of(v.single()), K)
           for g, v in ents if v.single() is not None) and \
            all(v.single() is not None for _, v in ents) and not kw:
        try:
            return one(ListV('list', sorted(
                ents, key=lambda e: I.prim_of(e[1].single()).v)))
        except TypeError:
            pass
    r = sorted_consts(I, ents, kw)
    if r is not None:
        return one(ListV('list', r))
    # `key` functions see every element
    if 'key' in kw:
        pc0 = I.pc
        for g, v in ents:
            I.pc = I.m.and_(pc0, g)
            if I.pc:
                I.call(kw['key'], [v], {})
        I.pc = pc0
    return one(ListV('list', ents))


def b_range(I, args, kw):
    ss = [I.prim_of(a.single()) if a.single() is not None else None
          for a in args]
    if all(isinstance(s, K) for s in ss):
        try:
            r = range(*[s.v for s in ss])
        except Exception as e:
            I.raise_named(type(e).__name__, 'range', certain=True)
            return NONE
        if len(r) > 5000:
            e = ('e', ('range', r.start, r.stop), 0)
            return one(ListV('iter', [(I.atom('elem', e), one(Sy(e, INTT)))]))
        return one(ListV('iter', [(1, k(i)) for i in r]))
    p = ('range',) + tuple(I.vpath(a) for a in args)
    return one(Sy(p, ('list', INTT)))


def distinct(I, ents):
    """Merge the equal constants among the entries of a set."""
    out, at = [], {}
    for g, v in ents:
        s = v.single()
        p = I.prim_of(s) if s is not None else None
        if isinstance(p, K) and isinstance(p.v, (str, bytes, int)):
            key = (type(p.v), p.v)
            if key in at:
                i = at[key]
                out[i] = (I.m.or_(out[i][0], g), out[i][1])
                continue
            at[key] = len(out)
        out.append((g, v))
    return out


def b_list(I, args, kw, kind='list'):
    if not args:
        return one(ListV(kind, [], born=I.pc))
    s = args[0].single()
    if isinstance(s, Sy) and s.ty[0] == 'list' and kind in ('list',):
        return one(s)
    ents = I.entries_of(args[0])
    if kind == 'set':
        ents = distinct(I, ents)
    if kind == 'tuple' and all(g == 1 for g, _ in ents):
        return one(TupV([v for _, v in ents]))
    lab = s.label if isinstance(s, ListV) else None
    op = s.opaque if isinstance(s, ListV) else None
    return one(ListV(kind, list(ents), op, lab, born=I.pc))


def b_dict(I, args, kw):
    d = DictV()
    if args:
        I.dict_update(d, args[0])
    for kk, v in kw.items():
        if kk == '**':
            d.opaque = True
            continue
        I.dict_set(d, k(kk), v)
    return one(d)


def b_print(I, args, kw):
    return NONE


def b_type(I, args, kw):
    if len(args) == 1:
        def go(s):
            c = I.clsof(s)
            if c is not None:
                return one(c)
            pt = I.pytype(s)
            return one(ExtV(pt)) if pt else I.unknown(('type', I.pathof(s)))
        return I.split(args[0], go)
    return I.unknown(I.fresh('type'))


def b_next(I, args, kw):
    s = args[0].single()
    ents = I.entries_of(args[0])
    if isinstance(s, ListV) and s.kind == 'iter' and s.entries and \
            s.entries[0][0] == 1:
        v = s.entries[0][1]
        if I.pc == 1:
            s.entries.pop(0)
        return v
    # first matching element, or the default
    m = I.m
    alts = []
    rest = 1
    for g, v in ents:
        els = [e for e in (I.bdd_elems(g) if g != 1 else ())
               if e not in I.open]
        gc = I.close(g, els)
        vv = I.some_rename(v, els, g) if els else v
        for g2, x in vv.alts:
            h = m.conj([rest, gc, g2])
            if h:
                alts.append((h, x))
        rest = m.diff(rest, gc)
        if rest == 0:
            break
    if rest:
        if len(args) > 1:
            for g2, x in args[1].alts:
                h = m.and_(rest, g2)
                if h:
                    alts.append((h, x))
        else:
            pc0 = I.pc
            bad = m.and_(pc0, rest)
            if bad:
                I.pc = bad
                I.raise_named('StopIteration', 'next()', certain=True)
                I.pc = m.or_(I.pc, m.diff(pc0, bad))
    return I.join(alts) if alts else NONE


def b_minmax(I, args, kw, name):
    if len(args) > 1:
        ss = [a.single() for a in args]
        if all(isinstance(s, K) for s in ss) and not kw:
            try:
                return k(getattr(pybuiltins, name)(*[s.v for s in ss]))
            except TypeError as e:
                I.raise_named('TypeError', str(e), certain=True)
                return NONE
        if 'key' not in kw:
            for a in args[1:]:
                I.compare('Lt', args[0], a)
        return one(Sy((name,) + tuple(I.vpath(a) for a in args), ANY))
    ents = I.entries_of(args[0])
    if all(g == 1 and isinstance(v.single(), K) for g, v in ents) and \
            ents and not kw:
        try:
            return k(getattr(pybuiltins, name)(v.single().v
                                               for _, v in ents))
        except TypeError as e:
            I.raise_named('TypeError', str(e), certain=True)
            return NONE
    if ents and 'default' not in kw and all(g == 1 for g, _ in ents):
        r = sorted_consts(I, ents, {x: y for x, y in kw.items()
                                    if x == 'key'}, name == 'max')
        if r is not None:
            return r[0][1]
    ne = I.nonempty(ListV('list', ents))
    if 'default' not in kw:
        bad = I.m.diff(I.pc, ne)
        if bad:
            pc0 = I.pc
            I.pc = bad
            I.raise_named('ValueError', '%s() of an empty sequence' % name,
                          certain=True)
            I.pc = I.m.or_(I.pc, I.m.diff(pc0, bad))
    tys = ANY
    for _, v in ents:
        for _, s in v.alts:
            if isinstance(s, Sy):
                tys = s.ty
    r = one(Sy((name, I.vpath(args[0])), tys))
    if 'default' in kw:
        return I.ite(ne, r, kw['default'])
    return r


def b_sum(I, args, kw):
    ents = I.entries_of(args[0])
    if all(g == 1 and isinstance(v.single(), K) for g, v in ents):
        return k(sum(v.single().v for _, v in ents))
    return one(Sy(('sum', I.vpath(args[0])), INTT))


def b_map(I, args, kw):
    out = []
    ents = I.entries_of(args[1])
    pc0 = I.pc
    m = I.m
    for g, v in ents:
        (g, v, els) = I.open_entry(g, v)
        I.open.extend(els)
        I.pc = m.and_(pc0, g)
        gg = I.pc
        if I.pc:
            out.append((g, I.call(args[0], [v], {})))
        if els:
            del I.open[len(I.open) - len(els):]
        else:
            pc0 = m.diff(pc0, m.diff(gg, I.pc))     # where it has not raised
    I.pc = pc0
    return one(ListV('iter', out))


def b_filter(I, args, kw):
    out = []
    ents = I.entries_of(args[1])
    pc0 = I.pc
    m = I.m
    fn = args[0].single()
    for g, v in ents:
        (g, v, els) = I.open_entry(g, v)
        I.open.extend(els)
        I.pc = m.and_(pc0, g)
        if I.pc:
            if isinstance(fn, K) and fn.v is None:
                t = I.truth(v)
            else:
                t = I.truth(I.call(args[0], [v], {}))
            out.append((m.and_(g, t), v))
        if els:
            del I.open[len(I.open) - len(els):]
    I.pc = pc0
    return one(ListV('iter', out))


def b_ord(I, args, kw):
    def go(s):
        s = I.prim_of(s)
        if isinstance(s, K):
            try:
                return k(ord(s.v))
            except TypeError as e:
                I.raise_named('TypeError', 'ord()', certain=True)
                return NONE
        return one(Sy(('ord', I.pathof(s)), INTT))
    return I.split(args[0], go)


def pure1(name, ty):
    def f(I, args, kw):
        ss = [I.prim_of(a.single()) if a.single() is not None else None
              for a in args]
        if all(isinstance(s, K) for s in ss):
            try:
                return I.lift(getattr(pybuiltins, name)(*[s.v for s in ss]))
            except Exception as e:
                I.raise_named(type(e).__name__, '%s()' % name, certain=True)
                return NONE
        return one(Sy((name,) + tuple(I.vpath(a) for a in args), ty))
    return f


def b_property(I, args, kw):
    return one(PropV(args[0].alts[0][1],
                     args[1].alts[0][1] if len(args) > 1 and
                     isinstance(args[1].alts[0][1], FuncV) else None)) \
        if isinstance(args[0].alts[0][1], (FuncV, NatV)) else one(
            PropV(NatV('noget', lambda I, a, kw: NONE),
                  args[1].alts[0][1] if len(args) > 1 else None))


def b_bytes(I, args, kw):
    if not args:
        return k(b'')

    def go(s):
        p = I.prim_of(s)
        if isinstance(p, K):
            if isinstance(p.v, bytes):
                return one(p)
            if p.v is None:
                I.fault('TypeError', 'bytes(None)')
                return NONE
            try:
                return k(bytes(p.v, *[a.single().v for a in args[1:]]))
            except Exception as e:
                I.raise_named(type(e).__name__, 'bytes()', certain=True)
                return NONE
        if I.pytype(p) == 'bytes':
            return one(p)
        if I.pytype(p) == 'str' and len(args) == 1:
            I.fault('TypeError', 'bytes(str)')
            return NONE
        if isinstance(p, TupV) and all(
                isinstance(x.single(), K) for x in p.items):
            try:
                return k(bytes([x.single().v for x in p.items]))
            except Exception as e:
                I.raise_named(type(e).__name__, 'bytes()', certain=True)
                return NONE
        return one(Sy(('bytes', I.pathof(p)), BYTEST))
    return I.split(args[0], go)


def b_globals(I, args, kw):
    d = DictV('globals')
    mod = I.frames[-1].scope.module
    for n, v in mod.ns.items():
        d.entries[('k', n)] = [k(n), 1, v]
    return one(d)


def b_open(I, args, kw):
    return I.unknown(('open',) + tuple(I.vpath(a) for a in args))


def b_round(I, args, kw):
    return one(Sy(('round', I.vpath(args[0])), INTT))


def b_reversed(I, args, kw):
    ents = list(reversed(I.entries_of(args[0])))
    return one(ListV('iter', ents))


def b_bool(I, args, kw):
    return I.bv(I.truth(args[0])) if args else k(False)


def b_setattr(I, args, kw):
    n = args[1].single()
    if isinstance(n, K):
        I.setattr(args[0], n.v, args[2])
    return NONE


def x_namedtuple(I, args, kw):
    name = args[0].single().v
    f = args[1].single()
    if isinstance(f, K) and isinstance(f.v, str):
        fields = f.v.replace(',', ' ').split()
    else:
        fields = [v.single().v for _, v in I.entries_of(args[1])]
    mod = I.frames[-1].scope.module
    cls = ClassV(name, [ExtV('tuple')], {}, mod)
    cls.meta['fields'] = fields
    return one(cls)


def x_get_data(I, args, kw):
    pkg = args[0].single().v
    fn = args[1].single()
    if not isinstance(fn, K):
        return one(Sy(('pkgdata', pkg), BYTEST))
    mod = I.modules.get(pkg)
    base = os.path.join(I.root, *pkg.split('.'))
    if not os.path.isdir(base):
        base = os.path.dirname(base)
    path = os.path.join(base, fn.v)
    I.consulted.add(path)
    with open(path, 'rb') as f:
        return k(f.read())


def x_stringio(I, args, kw):
    return args[0]


def x_dictreader(I, args, kw):
    s = args[0].single()
    if isinstance(s, O) and 'initial' in s.attrs:
        s = s.attrs['initial'].single()
    if isinstance(s, K):
        rd = csv.DictReader(io.StringIO(s.v, newline=''))
        rows = list(rd)
        out = []
        for r in rows:
            d = DictV()
            for kk, vv in r.items():
                d.entries[('k', kk)] = [k(kk), 1, k(vv)]
            out.append((1, one(d)))
        o = O(I.simple_class('DictReader'), {
            'fieldnames': one(ListV('list', [(1, k(x))
                                             for x in rd.fieldnames]))})
        o.prim = one(ListV('list', out))
        return one(o)
    return I.unknown(('csv', I.vpath(args[0])))


def x_import_module(I, args, kw):
    s = args[0].single()
    s = I.prim_of(s) if s is not None else None
    if isinstance(s, K):
        m = I.import_module(s.v)
        if isinstance(m, ExtV) and s.v.startswith(I.package):
            I.raise_named('ImportError', s.v, certain=True)
        return one(m)
    return I.unknown(('import', I.vpath(args[0])))


def x_wraps(I, args, kw):
    src = args[0]

    def deco(I, a, kw):
        def go(s):
            ss = src.single()
            if isinstance(s, FuncV) and isinstance(ss, FuncV):
                s.attrs['__name__'] = k(ss.name.rpartition('.')[2])
            return one(s)
        return I.split(a[0], go)
    return one(NatV('wraps', deco))


def x_bits(I, args, kw):
    s = args[0].single() if args else K(0)
    if isinstance(s, K) and isinstance(s.v, int):
        return one(K(Bits256(s.v)))
    if isinstance(s, K) and isinstance(s.v, Bits256):
        return one(K(Bits256(s.v.n, s.v.mask)))
    mask = 0
    n = 0
    for g, v in I.entries_of(args[0]):
        t = I.truth(v)
        if t == 1:
            mask |= 1 << n
        elif t != 0:
            I.note_undecided('symbolic Bits()')
        n += 1
    return one(K(Bits256(n, mask)))


def x_operator(name):
    def f(I, args, kw):
        if len(args) != 2:
            I.fault('TypeError', 'operator.%s with %d operands' %
                    (name, len(args)))
            return NONE
        return I.binop({'add': 'Add', 'sub': 'Sub', 'mul': 'Mult'}[name],
                       args[0], args[1])
    return f


def x_cmp(name):
    def f(I, args, kw):
        return I.bv(I.compare({'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt',
                               'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}[name],
                              args[0], args[1]))
    return f


def x_now(I, args, kw):
    return one(Sy(('now',), ('prim', 'datetime')))


def x_today(I, args, kw):
    """The current date; a check may fix it (Interp.today)."""
    t = getattr(I, 'today', None)
    if t is None:
        return one(Sy(('today',), ('prim', 'date')))
    return one(Sy(('date',) + tuple(('k', 'int', n) for n in t),
                  ('prim', 'date')))


def x_timedelta(I, args, kw):
    parts = []
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
             'hours', 'weeks']
    sym = False
    for i, a in enumerate(args):
        parts.append((names[i], I.vpath(a)))
    for n in sorted(kw):
        parts.append((n, I.vpath(kw[n])))
    for a in list(args) + list(kw.values()):
        for _, s in I.live(a):
            if isinstance(I.prim_of(s), K):
                if I.prim_of(s).v is None:
                    I.fault('TypeError', 'timedelta(None)')
            else:
                sym = True
    p = ('delta',) + tuple(parts)
    if sym and I.pc:
        I.raise_named('OverflowError', 'timedelta(seconds=<input>)', key=p)
    return one(Sy(p, ('prim', 'timedelta')))


def from_valid_parts(I, args, kw):
    """All arguments are the fields, in order, of a valid date and time."""
    if kw or len(args) > 6:
        return False
    src = {}
    for n, a in zip(('year', 'month', 'day', 'hour', 'minute', 'second'),
                    args):
        p = I.vpath(a)
        if p[0] != 'a' or p[2] != n:
            return False
        src.setdefault(n in ('year', 'month', 'day'), set()).add(p[1])
    return len(args) >= 3 and all(len(x) == 1 for x in src.values())


DATEISH = {n: getattr(__import__('datetime'), n)
           for n in ('date', 'time', 'datetime')}


def const_date(path):
    """The date or time a path of constants stands for (constant folding)."""
    if not (isinstance(path, tuple) and len(path) > 1 and
            isinstance(path[0], str) and path[0] in DATEISH):
        return None
    if not all(isinstance(a, tuple) and len(a) == 3 and a[:2] == ('k', 'int')
               for a in path[1:]):
        return None
    try:
        return DATEISH[path[0]](*[a[2] for a in path[1:]])
    except (ValueError, OverflowError, TypeError):
        return ValueError


def x_dateish(name):
    def f(I, args, kw):
        p = (name,) + tuple(I.vpath(a) for a in args)
        c = const_date(p) if not kw else None
        if c is None or c is ValueError:
            I.raise_named('ValueError', '%s() of parsed fields' % name,
                          certain=c is not None, key=p)
        return one(Sy(p, ('prim', name)))
    return f


def x_datetime(I, args, kw):
    c = const_date(('datetime',) + tuple(I.vpath(a) for a in args)) \
        if not kw else None
    if c is ValueError:
        I.raise_named('ValueError', 'datetime() of parsed fields',
                      certain=True)
    elif c is None and not from_valid_parts(I, args, kw):
        I.raise_named('ValueError', 'datetime() of parsed fields',
                      key=('datetime',) + tuple(I.vpath(a) for a in args))
    return one(Sy(('datetime',) + tuple(I.vpath(a) for a in args),
                  ('prim', 'datetime')))


def x_strptime(I, args, kw):
    p = ('strptime',) + tuple(I.vpath(a) for a in args)
    I.raise_named('ValueError', 'strptime', key=p)
    return one(Sy(p, ('prim', 'datetime')))


def lib(name, excs, ty=ANY):
    """A library function that may raise the given exceptions."""
    def f(I, args, kw):
        for a in list(args) + list(kw.values()):
            check_lib_arg(I, a, name)
        r = fold(I, name, args, kw)
        if r is not None:
            return r
        r = spread(I, f, args, kw)
        if r is not None:
            return r
        p = ('lib', name) + tuple(I.vpath(a) for a in args) + \
            tuple((n, I.vpath(kw[n])) for n in sorted(kw))
        for e in excs:
            I.raise_named(e, name, key=p)
        return I.sy(p, ty)
    return f


def spread(I, f, args, kw, limit=12):
    """Apply `f` to each alternative of the first argument that can be
    several different things; None when there is no such argument."""
    m = I.m
    for i, a in enumerate(args):
        if I.vpath(a)[:1] != ('union',):
            continue
        groups = {}
        for g, s in I.live(a):
            groups.setdefault(I.pathof(s), []).append((g, s))
        if len(groups) > limit:
            return None
        pc0, done, out = I.pc, 0, []
        for p in sorted(groups, key=repr):
            g = m.disj(x for x, _ in groups[p])
            I.pc = m.and_(pc0, g)
            if I.pc == 0:
                continue
            r = f(I, list(args[:i]) + [V(tuple(groups[p]))] +
                  list(args[i + 1:]), kw)
            out += [(m.and_(g, h), x) for h, x in r.alts]
            done = m.or_(done, I.pc)
        I.pc = done
        return V(tuple(out)) if out else None
    return None


def x_parse_qs(I, args, kw):
    # ValueError only on request (strict_parsing, max_num_fields).
    excs = ['ValueError'] if len(args) > 2 or 'strict_parsing' in kw or \
        'max_num_fields' in kw else []
    return lib('urllib.parse.parse_qs', excs, ('prim', 'qsdict'))(
        I, args, kw)


PURE = {n: getattr(urllib.parse, n.rpartition('.')[2]) for n in (
    'urllib.parse.unquote_to_bytes', 'urllib.parse.quote',
    'urllib.parse.unquote', 'urllib.parse.quote_plus')}


def fold(I, name, args, kw):
    """Constant folding of pure library functions."""
    f = PURE.get(name)
    if f is None:
        return None
    vals = []
    for a in list(args) + list(kw.values()):
        s = a.single()
        s = I.prim_of(s) if s is not None else None
        if not isinstance(s, K) or not isinstance(s.v, (str, bytes, bool)):
            return None
        vals.append(s.v)
    try:
        return k(f(*vals[:len(args)], **dict(zip(kw, vals[len(args):]))))
    except (ValueError, TypeError):
        return None


def check_lib_arg(I, a, name):
    """None/Unavailable handed to a library function is a TypeError."""
    if name in LIB_NONE_OK:
        return
    m = I.m
    for g, s in a.alts[:]:
        gg = m.and_(I.pc, g)
        if gg == 0:
            continue
        bad = None
        if isinstance(s, K) and s.v is None:
            bad = 'None'
        elif isinstance(s, O) and s.prim is None and \
                s.cls.name == 'Unavailable':
            bad = 'Unavailable'
        if bad and name not in LIB_OBJ_OK:
            pc0 = I.pc
            I.pc = gg
            I.raise_named('TypeError', '%s(%s)' % (name, bad), certain=True)
            I.pc = m.or_(I.pc, m.diff(pc0, gg))


LIB_NONE_OK = {'json.dumps'}
LIB_OBJ_OK = set()


def x_counter(I, args, kw):
    d = DictV()
    o = CounterV(I.entries_of(args[0]) if args else [])
    return one(o)


class CounterV(Contract):
    """collections.Counter over guarded entries."""
    __slots__ = ('ents', 'over')

    def __init__(self, ents):
        self.ents = ents
        self.over = []

    def setitem(self, I, i, v):
        self.over.append((I.pc, i, v))

    def update(self, I, args, kw):
        s = args[0].single()
        if kw or isinstance(s, DictV):
            I.note_undecided('Counter.update with counts')
            return NONE
        add = [(I.m.and_(I.pc, g), v) for g, v in I.entries_of(args[0])]
        if not self.over:
            self.ents = self.ents + add
            return NONE
        pc = I.pc
        for g, v in add:
            if g:
                I.pc = g
                self.setitem(I, v, I.binop('Add', self.count(I, 1, v),
                                           one(K(1))))
        I.pc = pc
        return NONE

    def path(self):
        return ('counter', len(self.ents))

    def elems(self):
        return set()

    def subst(self, I, mp):
        return self

    def truth(self, I):
        return I.nonempty(ListV('list', self.ents))

    def getattr(self, I, name, default=None):
        if name == 'update':
            return one(NatV('counter.update', self.update))
        if name == 'get':
            return one(NatV('counter.get',
                            lambda I, a, kw: self.count(I, 1, a[0])))
        if name in ('items', 'most_common', 'values', 'keys', 'elements'):
            return one(NatV('counter.' + name,
                            lambda I, a, kw: self.do(I, name)))
        return I.unknown(('counter', name))

    def decided(self, I):
        """[(element, count)] when all equalities are decided."""
        out = []
        for g, v in self.ents:
            if g == 0:
                continue
            if g != 1:
                return None
            for x in out:
                e = I.compare('Eq', v, x[0])
                if e == 1:
                    x[1] += 1
                    break
                if e != 0:
                    return None
            else:
                out.append([v, 1])
        return out

    def do(self, I, name):
        out = []
        d = self.decided(I)
        if d is not None:
            if name == 'elements':
                return one(ListV('iter', [(1, v) for v, n in d
                                          for _ in range(n)]))
            if name == 'most_common':
                d = sorted(d, key=lambda x: -x[1])
            return one(ListV('iter', [(1, {
                'values': k(n), 'keys': v}.get(name) or one(
                    TupV([v, k(n)]))) for v, n in d]))
        for g, v in self.ents:
            c = self.count(I, g, v)
            if name in ('items', 'most_common'):
                out.append((g, one(TupV([v, c]))))
            elif name == 'values':
                out.append((g, c))
            else:
                out.append((g, v))
        return one(ListV('iter', out))

    def exact(self, I, v):
        """The number of equal entries, if all is decided but whether they
        are there."""
        m = I.m
        ns = [1]
        if I.value_elems(v):
            return None
        pc = I.pc
        for g, x in self.ents:
            if I.bdd_elems(g) or I.value_elems(x):
                return None
            I.pc = m.and_(pc, g)
            if I.pc == 0:
                I.pc = pc
                continue
            e = I.compare('Eq', v, x)
            I.pc = pc
            if e == 0:
                continue
            g = m.and_(g, e)
            if I.bdd_elems(g) or len(ns) > 16:
                return None
            ns = [m.or_(m.diff(a, g), m.and_(b, g))
                  for a, b in zip(ns + [0], [0] + ns)]
        return V(tuple((g, K(n)) for n, g in enumerate(ns) if g))

    def count(self, I, g, v):
        r = self.exact(I, v)
        if r is not None:
            for w, key, x in self.over:
                pc = I.pc
                I.pc = I.m.and_(pc, w)
                w = I.m.and_(w, I.compare('Eq', v, key)) if I.pc else 0
                I.pc = pc
                if w:
                    r = x if w == 1 else I.ite(w, x, r)
            return r
        return one(Sy(('count', I.vpath(v), tuple(
            (I.fkey(gg) if gg != 1 else (), I.vpath(x))
            for gg, x in self.ents)), INTT))

    def iterate(self, I):
        return list(self.ents)

    def getitem(self, I, i):
        return self.count(I, 1, one(i))

    def compare(self, I, nm, y):
        return None

    def contains(self, I, x):
        return I.any_eq(self.ents, x)

    def call(self, I, args, kw):
        return NONE

    def isinstance_(self, I, c):
        return 0

    def length(self, I):
        return one(Sy(('len', self.path()), INTT))

    def setattr(self, I, n, v):
        pass


def x_permutations(I, args, kw):
    n = args[1].single().v if len(args) > 1 else 2
    ents = I.entries_of(args[0])
    out = []
    if n != 2:
        return I.unknown(('perm', I.vpath(args[0])), ('list', ANY))
    m = I.m
    for i, (g1, v1) in enumerate(ents):
        for j, (g2, v2) in enumerate(ents):
            if i == j:
                els = (I.bdd_elems(g1) | I.value_elems(v1)) - set(I.open) \
                    if g1 != 1 else set()
                if not els:
                    continue
                mp = {e: ('e', e[1], e[2] + 1) for e in els}
                g2x, v2x = I.subst_bdd(g2, mp), I.subst_value(v2, mp)
                distinct = m.conj(I.atom('other', e, mp[e]) for e in els)
                out.append((m.conj([g1, g2x, distinct]),
                            one(TupV([v1, v2x]))))
            else:
                out.append((m.and_(g1, g2), one(TupV([v1, v2]))))
    return one(ListV('iter', out))


def x_partial(I, args, kw):
    if not args:
        return None
    fn, pos = args[0], list(args[1:])

    def f(I, a, kw2):
        return I.call(fn, pos + list(a), dict(kw, **kw2))
    return one(NatV('partial', f))


def x_chain(I, args, kw):
    out = []
    for a in args:
        out += I.entries_of(a)
    return one(ListV('iter', out))


def x_deepcopy(I, args, kw):
    memo = {}

    def cp(s, depth=0):
        if depth > 12:
            return s
        if isinstance(s, ListV):
            if id(s) in memo:
                return memo[id(s)]
            r = ListV(s.kind, [], s.opaque, s.label)
            memo[id(s)] = r
            r.entries = [(g, cpv(v, depth + 1)) for g, v in s.entries]
            return r
        if isinstance(s, DictV):
            r = DictV(s.label)
            r.opaque = s.opaque
            for kk, e in s.entries.items():
                r.entries[kk] = [e[0], e[1], cpv(e[2], depth + 1)]
            return r
        if isinstance(s, O):
            if s.cls.meta.get('enum'):
                return s
            if id(s) in memo:
                return memo[id(s)]
            r = O(s.cls, {}, None, s.label)
            memo[id(s)] = r
            r.prim = None if s.prim is None else cpv(s.prim, depth + 1)
            r.attrs = {n: cpv(v, depth + 1) for n, v in s.attrs.items()}
            return r
        if isinstance(s, TupV):
            return TupV([cpv(x, depth + 1) for x in s.items])
        if isinstance(s, Sy):
            return copied_sy(I, s)
        return s

    def cpv(v, depth):
        return V(tuple((g, cp(s, depth)) for g, s in v.alts))
    return V(tuple((g, cp(s)) for g, s in args[0].alts))


def copied_sy(I, s):
    return s


def x_shallowcopy(I, args, kw):
    def go(s):
        if isinstance(s, ListV):
            return one(ListV(s.kind, list(s.entries), s.opaque))
        if isinstance(s, DictV):
            r = DictV(s.label)
            r.opaque = s.opaque
            for kk, e in s.entries.items():
                r.entries[kk] = list(e)
            return one(r)
        if isinstance(s, O):
            return one(O(s.cls, dict(s.attrs), s.prim, s.label))
        return one(s)
    return I.split(args[0], go)


def x_identity_deco(I, args, kw):
    return args[0]


def x_defaultdict(I, args, kw):
    d = DictV()
    return one(d)


def x_ordereddict(I, args, kw):
    return b_dict(I, args, kw)


def x_deque(I, args, kw):
    return b_list(I, args[:1], {}, 'deque')


def x_singledispatch(I, args, kw):
    base = args[0].alts[0][1]
    return one(DispatchV(base))


class DispatchV(Contract):
    """functools.singledispatch generic function."""
    __slots__ = ('base', 'impls')

    def __init__(self, base):
        self.base = base
        self.impls = []         # (type simple, func simple)

    def path(self):
        return ('dispatch', getattr(self.base, 'name', '?'))

    def elems(self):
        return set()

    def subst(self, I, mp):
        return self

    def truth(self, I):
        return 1

    def getattr(self, I, name, default=None):
        if name == 'register':
            def reg(I, a, kw):
                t = a[0].alts[0][1]
                if len(a) > 1:
                    self.impls.append((t, a[1].alts[0][1]))
                    return a[1]

                def deco(I, b, kw):
                    self.impls.append((t, b[0].alts[0][1]))
                    return b[0]
                return one(NatV('register', deco))
            return one(NatV('register', reg))
        if name == '__name__':
            return k(getattr(self.base, 'name', '?'))
        return I.unknown(('dispatch', name))

    def call(self, I, args, kw):
        m = I.m

        def go(s):
            if isinstance(s, Sy) and s.ty == ANY:
                I.note_untyped('dispatch', s)
                return I.unknown(('call', self.path(), s.path))
            # most specific registered class wins
            pc0 = I.pc
            alts = []
            pc1 = 0
            rest = 1
            order = sorted(self.impls, key=lambda tf: -self.depth(tf[0]))
            a2 = [one(s)] + list(args[1:])
            for t, f in order:
                b = isinstance_bdd(I, s, t)
                if isinstance(t, ExtV) and t.name == 'NoneType' or \
                        (isinstance(t, Sy) and 'NoneType' in repr(t.path)):
                    b = 1 if isinstance(s, K) and s.v is None else 0
                b = m.and_(b, rest)
                if m.and_(pc0, b) == 0:
                    continue
                I.pc = m.and_(pc0, b)
                r = I.call1(f, a2, kw)
                pc1 = m.or_(pc1, I.pc)
                for g2, x in r.alts:
                    alts.append((m.and_(b, g2), x))
                rest = m.diff(rest, b)
                if rest == 0:
                    break
            if m.and_(pc0, rest):
                I.pc = m.and_(pc0, rest)
                r = I.call1(self.base, a2, kw)
                pc1 = m.or_(pc1, I.pc)
                for g2, x in r.alts:
                    alts.append((m.and_(rest, g2), x))
            I.pc = pc1
            return I.join(alts) if alts else NONE
        return I.split(args[0], go)

    def depth(self, t):
        if isinstance(t, ClassV):
            return 10 + len(t.mro)
        if isinstance(t, ExtV) and t.name == 'object':
            return 0
        return 5

    def compare(self, I, nm, y):
        return None

    def contains(self, I, x):
        return 0

    def iterate(self, I):
        return []

    def getitem(self, I, i):
        return NONE

    def isinstance_(self, I, c):
        return 0

    def length(self, I):
        return k(0)

    def setattr(self, I, n, v):
        pass


def b_iter(I, args, kw):
    ents = I.entries_of(args[0])
    s = args[0].single()
    if isinstance(s, Sy):
        return one(ListV('iter', ents))
    return one(ListV('iter', ents))


def b_super_noop(I, args, kw):
    return NONE


def b_hash(I, args, kw):
    s = args[0].single()
    p = I.prim_of(s) if s is not None else None
    if isinstance(p, K):
        try:
            return k(hash(p.v))
        except TypeError:
            I.fault('TypeError', 'unhashable')
            return NONE
    return one(Sy(('hash', I.vpath(args[0])), INTT))


def b_frozenset(I, args, kw):
    return b_list(I, args, kw, 'set')


def b_id(I, args, kw):
    return one(Sy(('id', I.vpath(args[0])), INTT))


def b_callable(I, args, kw):
    s = args[0].single()
    return k(isinstance(s, (FuncV, BoundV, ClassV, NatV, ExtMeth, ExtV)))


EXTERNALS = {
    'len': b_len, 'isinstance': b_isinstance, 'issubclass': b_issubclass,
    'getattr': b_getattr, 'hasattr': b_hasattr, 'setattr': b_setattr,
    'any': b_any, 'all': b_all, 'enumerate': b_enumerate, 'zip': b_zip,
    'sorted': b_sorted, 'range': b_range, 'list': b_list,
    'tuple': lambda I, a, kw: b_list(I, a, kw, 'tuple') if a
        else one(TupV(())),
    'set': lambda I, a, kw: b_list(I, a, kw, 'set'),
    'frozenset': b_frozenset, 'dict': b_dict, 'print': b_print,
    'type': b_type, 'next': b_next,
    'min': lambda I, a, kw: b_minmax(I, a, kw, 'min'),
    'max': lambda I, a, kw: b_minmax(I, a, kw, 'max'),
    'sum': b_sum, 'map': b_map, 'filter': b_filter, 'ord': b_ord,
    'chr': pure1('chr', STRT), 'hex': pure1('hex', STRT),
    'repr': pure1('repr', STRT), 'abs': pure1('abs', INTT),
    'divmod': pure1('divmod', ('tuple', (INTT, INTT))),
    'format': pure1('format', STRT),
    'property': b_property, 'bytes': b_bytes, 'bytearray': b_bytes,
    'str': lambda I, a, kw: to_str(I, a[0], a) if a else k(''),
    'int': lambda I, a, kw: to_int(I, a[0], a[1:] + (
        [kw['base']] if 'base' in kw else [])) if a else k(0),
    'float': lambda I, a, kw: numconv(I, a[0], 'float'),
    'bool': b_bool, 'globals': b_globals, 'open': b_open, 'io.open': b_open,
    'round': b_round, 'reversed': b_reversed, 'iter': b_iter, 'hash': b_hash,
    'id': b_id, 'callable': b_callable,
    'object': lambda I, a, kw: one(O(I.simple_class('object'), {})),
    'classmethod': lambda I, a, kw: one(WrapV('classmethod',
                                              a[0].alts[0][1])),
    'staticmethod': lambda I, a, kw: one(WrapV('staticmethod',
                                               a[0].alts[0][1])),
    'collections.namedtuple': x_namedtuple,
    'collections.OrderedDict': x_ordereddict,
    'collections.defaultdict': x_defaultdict,
    'collections.deque': x_deque,
    'collections.Counter': x_counter,
    'pkgutil.get_data': x_get_data, 'io.StringIO': x_stringio,
    'csv.DictReader': x_dictreader,
    'importlib.import_module': x_import_module,
    'functools.wraps': x_wraps,
    'functools.singledispatch': x_singledispatch,
    'bitstring.Bits': x_bits, 'bitstring.BitArray': x_bits,
    'operator.add': x_operator('add'), 'operator.sub': x_operator('sub'),
    'operator.lt': x_cmp('lt'), 'operator.le': x_cmp('le'),
    'operator.gt': x_cmp('gt'), 'operator.ge': x_cmp('ge'),
    'operator.eq': x_cmp('eq'), 'operator.ne': x_cmp('ne'),
    'datetime.date.today': x_today,
    'datetime.datetime.utcnow': x_now, 'datetime.datetime.now': x_now,
    'datetime.timedelta': x_timedelta, 'datetime.datetime': x_datetime,
    'datetime.date': x_dateish('date'), 'datetime.time': x_dateish('time'),
    'datetime.datetime.strptime': x_strptime,
    'itertools.permutations': x_permutations,
    'itertools.chain': x_chain, 'functools.partial': x_partial,
    'copy.deepcopy': x_deepcopy, 'copy.copy': x_shallowcopy,
    'json.loads': lib('json.loads', ['ValueError', 'RecursionError']),
    'json.load': lib('json.load', ['ValueError', 'RecursionError']),
    'json.dumps': lib('json.dumps', [], STRT),
    'codecs.lookup': lib('codecs.lookup', ['LookupError', 'UnicodeError'],
                         ('prim', 'codec')),
    'defusedxml.ElementTree.fromstring': lib(
        'defusedxml.ElementTree.fromstring',
        ['defusedxml.EntitiesForbidden', 'xml.etree.ElementTree.ParseError',
         'UnicodeError', 'LookupError', 'ValueError'], ('prim', 'object')),
    'xml.etree.ElementTree.fromstring': lib(
        'xml.etree.ElementTree.fromstring',
        ['xml.etree.ElementTree.ParseError', 'UnicodeError', 'LookupError',
         'ValueError'], ('prim', 'object')),
    'email.message_from_bytes': lib(
        'email.message_from_bytes',
        ['ValueError', 'LookupError', 'RecursionError'],
        ('prim', 'emailmsg')),
    'zlib.decompressobj': lib('zlib.decompressobj', [], ('prim', 'zdec')),
    're.sub': lib('re.sub', [], STRT),
    're.search': lib('re.search', []),
    'sys.getfilesystemencoding': lib('sys.getfilesystemencoding', [], STRT),
    'urllib.parse.urlparse': lib('urllib.parse.urlparse', ['ValueError']),
    'urllib.parse.urlsplit': lib('urllib.parse.urlsplit', ['ValueError']),
    'urllib.parse.urljoin': lib('urllib.parse.urljoin', ['ValueError'],
                                STRT),
    'urllib.parse.parse_qs': x_parse_qs,
    'urllib.parse.unquote_to_bytes': lib('urllib.parse.unquote_to_bytes', [],
                                         BYTEST),
    'urllib.parse.quote': lib('urllib.parse.quote', [], STRT),
    'urllib.parse.unquote': lib('urllib.parse.unquote', [], STRT),
    'base64.b64decode': lib('base64.b64decode', ['binascii.Error'], BYTEST),
    'zlib.decompress': lib('zlib.decompress', ['zlib.error'], BYTEST),
    'brotli.decompress': lib('brotli.decompress', ['brotli.error'], BYTEST),
    'fnmatch.fnmatch': lib('fnmatch.fnmatch', [], BOOLT),
    'time.time': lambda I, a, kw: one(Sy(('time',), FLOATT)),
}


def call_ext(I, s, args, kwargs):
    if isinstance(s, ExtMeth):
        return call_method(I, s, args, kwargs)
    name = s.name
    hook = I.ext.get(name)
    if hook is not None:
        r = hook(I, args, kwargs)
        if r is not None:
            return r
    f = EXTERNALS.get(name)
    if f is not None:
        return f(I, list(args), kwargs)
    if '.' in name:
        # methods named through their class: str.lower(x), tuple.__new__(...)
        base, _, meth = name.rpartition('.')
        if base in PY_TYPES and args:
            if meth == '__new__':
                c = args[0].alts[0][1]
                if isinstance(c, ClassV):
                    if base == 'tuple':
                        return I.split(args[1], lambda t: one(
                            O(c, {}, one(t))))
                    return base_new(I, c, args[1:], kwargs)
            if meth == '__repr__':
                return one(Sy(('repr', I.vpath(args[0])), STRT))
            return I.split(args[0], lambda x: call_method(
                I, ExtMeth(I.prim_of(x), meth), args[1:], kwargs))
    if is_exc_name(name):
        return one(Sy(('exc', name) + tuple(I.vpath(a) for a in args),
                      ('exc', name)))
    p = ('ext', name) + tuple(I.vpath(a) for a in args) + \
        tuple((n, I.vpath(kwargs[n])) for n in sorted(kwargs))
    I.ext_calls[name] = I.ext_calls.get(name, 0) + 1
    return I.unknown(p)


# --------------------------------------------------------------------------
# methods of builtin types

STR_RET = {
    'lower': None, 'upper': None, 'strip': None, 'lstrip': None,
    'rstrip': None, 'title': None, 'replace': None, 'capitalize': None,
    'join': None, 'format': None, 'zfill': None, 'swapcase': None,
    'ljust': None, 'rjust': None, 'center': None, 'expandtabs': None,
    'translate': None,
    'startswith': BOOLT, 'endswith': BOOLT, 'isdigit': BOOLT,
    'isalpha': BOOLT, 'isupper': BOOLT, 'islower': BOOLT, 'isspace': BOOLT,
    'isalnum': BOOLT, 'isascii': BOOLT, 'isprintable': BOOLT,
    'isdecimal': BOOLT, 'isnumeric': BOOLT,
    'find': INTT, 'rfind': INTT, 'count': INTT, 'index': INTT,
    'rindex': INTT, '__hash__': INTT, '__len__': INTT,
}


def call_method(I, s, args, kwargs):
    recv = s.self_
    name = s.name
    if isinstance(recv, O) and recv.prim is not None:
        ps = recv.prim.single()
        if ps is None:
            return I.split(recv.prim, lambda x: call_method(
                I, ExtMeth(x, name), args, kwargs))
        recv = ps
    if isinstance(recv, ListV):
        return list_method(I, recv, name, args, kwargs)
    if isinstance(recv, DictV):
        return dict_method(I, recv, name, args, kwargs)
    if isinstance(recv, TupV):
        return tuple_method(I, recv, name, args, kwargs)
    if isinstance(recv, ClassV):
        if name == '__new__':
            return base_new(I, args[0].alts[0][1], args[1:], kwargs)
        return I.unknown(('cm', recv.name, name) +
                         tuple(I.vpath(a) for a in args))
    if isinstance(recv, K):
        ss = []
        for a in args:
            x = a.single()
            x = I.prim_of(x) if x is not None else None
            if isinstance(x, TupV) and all(
                    isinstance(I.prim_of(y.single()), K)
                    for y in x.items if y.single() is not None):
                x = K(tuple(I.prim_of(y.single()).v for y in x.items))
            if isinstance(x, ListV) and x.opaque is None and all(
                    (I.m.diff(I.pc, g) == 0 or I.m.and_(I.pc, g) == 0) and
                    y.single() is not None and
                    isinstance(I.prim_of(y.single()), K)
                    for g, y in x.entries):
                x = K([I.prim_of(y.single()).v for g, y in x.entries
                       if I.m.and_(I.pc, g)])
            ss.append(x)
        kws = {}
        ok = True
        for n, v in kwargs.items():
            x = v.single()
            x = I.prim_of(x) if x is not None else None
            if isinstance(x, K):
                kws[n] = x.v
            else:
                ok = False
        if ok and all(isinstance(x, K) for x in ss):
            try:
                r = getattr(recv.v, name)(*[x.v for x in ss], **kws)
            except Exception as e:
                I.raise_named(type(e).__name__, '%r.%s' % (recv.v, name),
                              certain=True)
                return NONE
            if isinstance(r, (list,)):
                return one(ListV('list', [(1, I.lift(x)) for x in r]))
            try:
                return I.lift(r)
            except Exception:
                return I.unknown(I.fresh('meth'))
        if name == 'join' and recv.v == '' and len(args) == 1:
            t = ci_join(I, args[0].single())
            if t is not None:
                return t
    return sym_method(I, recv, name, args, kwargs)


def ci_join(I, x):
    """`''.join` over literal characters of either case."""
    if isinstance(x, TupV):
        items = list(x.items)
    elif isinstance(x, ListV) and x.opaque is None and \
            all(g == 1 for g, _ in x.entries):
        items = [v for _, v in x.entries]
    else:
        return None
    out, exact = [], True
    for v in items:
        y = v.single()
        y = I.prim_of(y) if y is not None else None
        if isinstance(y, K) and isinstance(y.v, str):
            if y.v.lower() != y.v.upper():
                return None
            out.append(y.v)
        elif isinstance(y, Sy) and y.path[0] == 'ci':
            out.append(y.path[1])
            exact = False
        else:
            return None
    t = ''.join(out)
    if exact:
        return k(t)
    return one(Sy(('ci', t), ('prim', 'str')))


def guarded_pop(I, lst, idx):
    """pop() from either end of a list of which items may be absent."""
    m = I.m
    alts, rest = [], I.pc
    n = len(lst.entries)
    for i in (range(n) if idx == 0 else range(n - 1, -1, -1)):
        g, v = lst.entries[i]
        h = m.and_(rest, g)
        if h == 0:
            continue
        alts += [(m.and_(h, g2), x) for g2, x in v.alts]
        lst.entries[i] = (m.diff(g, h), v)
        rest = m.diff(rest, g)
        if rest == 0:
            break
    lst.entries[:] = [(g, v) for g, v in lst.entries if g]
    if rest:
        pc0, I.pc = I.pc, rest
        I.raise_named('IndexError', 'pop from empty list', certain=True)
        I.pc = m.diff(pc0, rest)
    return I.join(alts) if alts else NONE


TRUE_V = one(K(True))

# Methods of library objects: exceptions and type of the result.
METHODS = {
    'zdec': {'decompress': (('zlib.error',), BYTEST),
             'flush': (('zlib.error',), BYTEST)},
    'emailmsg': {'is_multipart': ((), BOOLT), 'get_payload': ((), None),
                 'get_content_type': ((), STRT), 'keys': ((), ('list', STRT))},
}
NUM_ARGS = {'encode', 'decode', 'center', 'ljust', 'rjust', 'zfill', 'index',
            'find', 'rfind', 'count', 'format', 'expandtabs', 'translate',
            'hex', 'to_bytes', 'splitlines', 'fromhex'}


def ext_method(I, recv, pt, name, args, kwargs):
    p = ('m', name, I.pathof(recv)) + tuple(I.vpath(a) for a in args)
    excs, ty = METHODS[pt][name]
    for a in args:
        check_lib_arg(I, a, pt + '.' + name)
    for e in excs:
        I.raise_named(e, name, key=p)
    if pt == 'emailmsg' and name == 'is_multipart' and recv.path[0] == 'pl':
        return TRUE_V
    if pt == 'emailmsg' and name == 'get_payload':
        lst = Sy(p, ('list', ('prim', 'emailmsg')))
        if recv.path[0] == 'pl':        # what multipart_data guarantees
            return one(lst)
        return I.ite(I.truth(ext_method(I, recv, pt, 'is_multipart', [], {})),
                     one(lst), one(Sy(('text',) + p, ANY)))
    return I.sy(p, ty)


def sym_method(I, recv, name, args, kwargs):
    p = I.pathof(recv)
    pt = I.pytype(recv)
    hook = I.ext.get('.' + name)
    if hook is not None:
        r = hook(I, recv, args, kwargs)
        if r is not None:
            return r
    if pt in ('str', 'bytes'):
        for a in args:
            for g, x in I.live(a):
                if isinstance(x, K) and x.v is None and name not in (
                        'split', 'strip', 'lstrip', 'rstrip', 'rsplit'):
                    pc0 = I.pc
                    I.pc = g
                    I.raise_named('TypeError', '%s.%s(None)' % (pt, name),
                                  certain=True)
                    I.pc = I.m.or_(I.pc, I.m.diff(pc0, g))
                elif isinstance(x, O) and x.prim is None and \
                        x.cls.name == 'Unavailable':
                    pc0 = I.pc
                    I.pc = g
                    I.raise_named('TypeError', '%s.%s(Unavailable)' %
                                  (pt, name), certain=True)
                    I.pc = I.m.or_(I.pc, I.m.diff(pc0, g))
                elif name not in NUM_ARGS and \
                        {I.pytype(I.prim_of(x)), pt} in (
                            {'str', 'bytes'}, {'str', 'int'},
                            {'bytes', 'int'}) and a is args[0]:
                    pc0 = I.pc
                    I.pc = g
                    I.raise_named('TypeError', '%s.%s() of a %s' % (
                        pt, name, I.pytype(I.prim_of(x))), certain=True)
                    I.pc = I.m.or_(I.pc, I.m.diff(pc0, g))
        if I.pc == 0:
            return NONE
    if pt in METHODS and name in METHODS[pt]:
        return ext_method(I, recv, pt, name, args, kwargs)
    ap = tuple(I.vpath(a) for a in args) + \
        tuple((n, I.vpath(kwargs[n])) for n in sorted(kwargs))
    mp = ('m', name, p) + ap
    if name == 'decode' and pt in ('bytes', None) or name == 'encode' and \
            pt in ('str', None):
        return codec_method(I, recv, name, args, kwargs, mp)
    if pt == 'str' or pt == 'bytes' or (pt is None and name in STR_RET):
        if name in STR_RET:
            ty = STR_RET[name]
            if name in ('lower', 'upper') and p[0] == 'ci' and not args:
                return k(getattr(p[1], name)())
            if name in ('lower', 'upper') and p[0] == 'm' and \
                    p[1] in ('lower', 'upper'):
                mp = ('m', name) + p[2:]
            if name in ('index', 'rindex') and pt is not None:
                I.raise_named('ValueError', 'str.index', key=mp)
            if name in ('startswith', 'endswith') and args:
                a = args[0].single()
                if isinstance(a, TupV):
                    r = 0
                    for x in a.items:
                        r = I.m.or_(r, I.truth(sym_method(
                            I, recv, name, [x], {})))
                    return I.bv(r)
                return I.sy(mp, BOOLT)
            if ty is None:
                ty = ('prim', pt) if pt else ANY
            return I.sy(mp, ty)
        if name in ('split', 'rsplit', 'splitlines'):
            maxsplit = None
            if len(args) > 1 and isinstance(args[1].single(), K):
                maxsplit = args[1].single().v
            return one(Sy(('m', name, p) + ap, ('list', ('prim', pt))))
        if name in ('partition', 'rpartition'):
            t = ('prim', pt)
            return one(Sy(mp, ('tuple', (t, t, t))))
        return I.unknown(mp)
    if pt in ('list', None) and isinstance(recv, Sy):
        et = recv.ty[1] if recv.ty[0] == 'list' else ANY
        if name == 'pop':
            e = ('e', p, 0)
            return I.sy(('popped', p), et if et is not None else ANY) \
                if recv.ty[0] == 'list' else I.unknown(mp)
        if name == 'index' and recv.ty[0] == 'list':
            I.raise_named('ValueError', 'list.index', key=mp)
            return I.sy(mp, INTT)
        if name == 'count':
            return I.sy(mp, INTT)
        if name == 'copy':
            return one(recv)
        if name in ('append', 'extend', 'insert', 'remove', 'clear', 'sort',
                    'reverse'):
            return I.mutate_sy(recv, name, args)
    if recv is not None and isinstance(recv, Sy) and recv.ty == ANY and \
            name == 'get' and args:
        a = I.atom('in', I.vpath(args[0]), p)
        d = args[1] if len(args) > 1 else NONE
        return I.ite(a, I.unknown(('item', p, I.vpath(args[0]))), d)
    if pt == 'timedelta' and name == 'total_seconds':
        return I.sy(mp, FLOATT)
    if pt in ('datetime', 'date', 'time') and name in ('strftime',
                                                       'isoformat'):
        return I.sy(mp, STRT)
    if pt in ('datetime', 'date') and name in ('weekday', 'isoweekday'):
        c = const_date(recv.path) if isinstance(recv, Sy) else None
        if c is not None and c is not ValueError:
            return k(getattr(c, name)())
        return I.sy(mp, INTT)
    if pt == 'datetime' and name in ('date', 'time'):
        return I.sy(mp, ('prim', name))
    if pt == 'datetime' and name == 'replace':
        return I.sy(mp, ('prim', 'datetime'))
    return I.unknown(mp)


def codec_method(I, recv, name, args, kwargs, mp):
    enc = None
    errors = None
    if args:
        x = args[0].single()
        x = I.prim_of(x) if x is not None else None
        enc = x.v if isinstance(x, K) else '?'
        if isinstance(x, K) and x.v is None:
            I.fault('TypeError', '%s(None)' % name)
            return NONE
    else:
        enc = 'utf-8'
    if 'encoding' in kwargs:
        x = kwargs['encoding'].single()
        enc = x.v if isinstance(x, K) else '?'
    ev = args[1] if len(args) > 1 else kwargs.get('errors')
    if ev is not None:
        x = ev.single()
        errors = x.v if isinstance(x, K) else '?'
    ret = STRT if name == 'decode' else BYTEST
    if enc == '?' and is_utf8(I, args[0] if args else kwargs['encoding']):
        enc = 'utf-8'
    if enc == '?' and name == 'decode':
        c = args[0] if args else kwargs['encoding']
        if mp[2][:1] == ('pl',) and mp[2][2:] == ('decoded_body',) and \
                I.vpath(c) == mp[2][:2] + ('guessed_charset',):
            return one(Sy(mp, ret))     # what guessed_charset guarantees
    if enc == '?':
        I.raise_named('LookupError', '%s with an input-supplied codec' %
                      name, key=mp)
    total = (name == 'decode' and enc.lower().replace('_', '-') in
             ('iso-8859-1', 'latin-1', 'latin1', 'iso8859-1')) or \
        (name == 'encode' and enc.lower() in ('utf-8', 'utf8') and
         no_surrogates(I, recv))
    if not total and errors not in ('replace', 'ignore', 'backslashreplace',
                                    'xmlcharrefreplace',
                                    'surrogateescape') and \
            not I.codec_safe(recv, enc, name):
        I.raise_named('UnicodeDecodeError' if name == 'decode' else
                      'UnicodeEncodeError', '%s(%r)' % (name, enc), key=mp)
    if I.pc == 0:
        return NONE
    return one(Sy(mp, ret))


def is_utf8(I, v):
    """The codec name is known to be UTF-8 on every live path."""
    n = len(I.faults)
    try:
        low = call_method(I, ExtMeth(I.prim_of(v.single()), 'lower'), [], {})
        t = I.compare('Eq', low, k('utf-8'))
    except Exception:
        return False
    del I.faults[n:]
    return I.pc != 0 and I.m.diff(I.pc, t) == 0


def no_surrogates(I, recv):
    return True


def list_method(I, lst, name, args, kwargs):
    m = I.m
    pc = I.pc if m.diff(lst.born, I.pc) else 1
    if name in ('append', 'add', 'appendleft'):
        if lst.kind == 'set':
            x = args[0]
            if I.pc == 1 and x.single() is not None:
                nk = I.norm_key(x)
                if nk is not None and any(
                        g == 1 and I.norm_key(v) == nk
                        for g, v in lst.entries):
                    return NONE
        I.note_mutation(lst, name)
        if I.again:
            # The same generic element, on a later iteration.
            for i, (g, v) in enumerate(lst.entries):
                if len(v.alts) == len(args[0].alts) and all(
                        a[0] == b[0] and a[1].key() == b[1].key()
                        for a, b in zip(v.alts, args[0].alts)):
                    lst.entries[i] = (m.or_(g, pc), v)
                    return NONE
        if name == 'appendleft':
            lst.entries.insert(0, (pc, args[0]))
        else:
            lst.entries.append((pc, args[0]))
        return NONE
    if name in ('extend', 'update'):
        I.note_mutation(lst, name)
        for a in args:
            for g, v in I.entries_of(a):
                gg = m.and_(I.pc, g)
                if gg:
                    lst.entries.append((gg, v))
        return NONE
    if name == 'insert':
        I.note_mutation(lst, name)
        i = args[0].single()
        if isinstance(i, K):
            lst.entries.insert(i.v, (pc, args[1]))
        else:
            lst.entries.append((pc, args[1]))
        return NONE
    if name in ('pop', 'popleft'):
        I.note_mutation(lst, name)
        idx = -1 if name == 'pop' else 0
        if args:
            x = args[0].single()
            idx = x.v if isinstance(x, K) else -1
        simple = all(not I.bdd_elems(g) and m.diff(I.pc, g) == 0
                     for g, _ in lst.entries)
        if simple and lst.opaque is None:
            if not lst.entries:
                I.raise_named('IndexError', 'pop from empty list',
                              certain=True)
                return NONE
            if I.pc == 1 or I.sole_path():
                return lst.entries.pop(idx)[1]
            g, v = lst.entries[idx]
            lst.entries[idx] = (m.diff(g, I.pc), v)
            return v
        if lst.kind != 'set' and lst.opaque is None and idx in (0, -1) and \
                lst.entries and not any(I.bdd_elems(g)
                                        for g, _ in lst.entries):
            return guarded_pop(I, lst, idx)
        if lst.kind != 'set' and len(lst.entries) == 1 and \
                lst.opaque is None:
            g, v = lst.entries[0]
            I.risk('IndexError', 'pop()', m.not_(I.nonempty(lst)),
                   I.pathof(lst))
            return v
        r = I.list_item(lst, K(idx)) if lst.kind != 'set' else \
            I.union_items([(1, v) for _, v in lst.entries], K(0))
        lst.opaque = lst.opaque or ('mut', 'pop')
        return r
    if name in ('remove', 'discard', 'clear', 'sort', 'reverse'):
        I.note_mutation(lst, name)
        if name == 'clear' and I.pc == 1:
            lst.entries[:] = []
        elif name in ('sort', 'reverse'):
            if name == 'reverse' and I.pc == 1:
                lst.entries.reverse()
            if name == 'sort' and 'key' in kwargs:
                b_sorted(I, [one(lst)], kwargs)
        elif name in ('remove', 'discard'):
            if name == 'remove':
                I.risk('KeyError' if lst.kind == 'set' else 'ValueError',
                       'remove() of a missing value', m.not_(
                           I.any_eq(lst.entries, args[0].alts[0][1])),
                       I.pathof(lst))
            new = []
            for g, v in lst.entries:
                eq = I.compare('Eq', v, args[0])
                new.append((m.diff(g, m.and_(I.pc, eq)), v))
            lst.entries[:] = [e for e in new if e[0]]
        return NONE
    if name == 'copy':
        return one(ListV(lst.kind, list(lst.entries), lst.opaque))
    if name == 'index':
        if lst.opaque is None and all(g == 1 for g, _ in lst.entries):
            for i, (_, v) in enumerate(lst.entries):
                if I.compare('Eq', v, args[0]) == 1:
                    return k(i)
        I.index_of.append((I.site(), I.pc,
                           I.any_eq(lst.entries, args[0].alts[0][1])))
        has = I.any_eq(lst.entries, args[0].alts[0][1])
        bad = m.diff(I.pc, has)
        if bad:
            pc0 = I.pc
            I.pc = bad
            I.raise_named('ValueError', 'list.index of a missing value',
                          certain=True)
            I.pc = m.or_(I.pc, m.diff(pc0, bad))
        return one(Sy(('index_of', I.vpath(args[0]), I.pathof(lst)), INTT))
    if name == 'count':
        return one(Sy(('count_of', I.vpath(args[0]), I.pathof(lst)), INTT))
    if name == 'issubset':
        other = args[0].alts[0][1]
        if not isinstance(other, ListV):
            other = ListV('set', I.entries_of(args[0]))
        return I.bv(I.subset(lst, other))
    if name == 'issuperset':
        other = args[0].alts[0][1]
        if not isinstance(other, ListV):
            other = ListV('set', I.entries_of(args[0]))
        return I.bv(I.subset(other, lst))
    if name in ('union', 'difference', 'intersection'):
        r = lst
        for a in args:
            o = a.alts[0][1]
            if not isinstance(o, ListV):
                o = ListV('set', I.entries_of(a))
            r = I.set_op({'union': 'BitOr', 'difference': 'Sub',
                          'intersection': 'BitAnd'}[name], r,
                         o).alts[0][1]
        return one(r)
    if name == 'isdisjoint':
        o = args[0].alts[0][1]
        if not isinstance(o, ListV):
            o = ListV('set', I.entries_of(args[0]))
        r = I.set_op('BitAnd', lst, o).alts[0][1]
        return I.bv(m.not_(I.nonempty(r)))
    if name in ('__iter__',):
        return one(lst)
    if name == '__next__':
        return b_next(I, [one(lst)], {})
    if name == 'difference_update':
        I.note_mutation(lst, name)
        o = ListV('set', I.entries_of(args[0]))
        r = I.set_op('Sub', lst, o).alts[0][1]
        lst.entries[:] = [(g if I.pc == 1 else I.m.or_(g, 0), v)
                          for g, v in r.entries]
        return NONE
    I.note_undecided('list method %s' % name)
    return I.unknown(('m', name, I.pathof(lst)))


def dict_method(I, d, name, args, kwargs):
    if name == 'get':
        return I.dict_get(d, args[0], args[1] if len(args) > 1 else NONE)
    if name == 'items':
        return one(ListV('iter', [(e[1], one(TupV([e[0], e[2]])))
                                  for e in d.entries.values()]))
    if name == 'keys':
        return one(ListV('iter', [(e[1], e[0]) for e in d.entries.values()]))
    if name == 'values':
        return one(ListV('iter', [(e[1], e[2]) for e in d.entries.values()]))
    if name == 'pop':
        r = I.dict_get(d, args[0], args[1] if len(args) > 1 else None)
        nk = I.norm_key(args[0])
        if nk in d.entries:
            g = I.m.diff(d.entries[nk][1], I.pc)
            if g == 0:
                del d.entries[nk]
            else:
                d.entries[nk][1] = g
        return r
    if name == 'setdefault':
        has = I.dict_has(d, args[0])
        m = I.m
        pc0 = I.pc
        miss = m.diff(pc0, has)
        if miss:
            I.pc = miss
            I.dict_set(d, args[0], args[1] if len(args) > 1 else NONE)
        I.pc = pc0
        return I.dict_get(d, args[0], NONE)
    if name == 'update':
        if args:
            I.dict_update(d, args[0])
        for kk, v in kwargs.items():
            if kk == '**':
                d.opaque = True
            else:
                I.dict_set(d, k(kk), v)
        return NONE
    if name == 'copy':
        r = DictV(d.label)
        r.opaque = d.opaque
        for kk, e in d.entries.items():
            r.entries[kk] = list(e)
        return one(r)
    if name == 'clear':
        d.entries.clear()
        return NONE
    if name == 'popitem':
        last = True
        x = args[0] if args else kwargs.get('last')
        if x is not None:
            b = I.truth(x)
            last = b == 1 if b in (0, 1) else None
        if d.opaque is None and last is not None and (
                I.pc == 1 or I.sole_path()) and all(
                I.m.diff(I.pc, e[1]) == 0 for e in d.entries.values()):
            if not d.entries:
                I.raise_named('KeyError', 'popitem from an empty dict',
                              certain=True)
                return NONE
            key = list(d.entries)[-1 if last else 0]
            e = d.entries.pop(key)
            return one(TupV([e[0], e[2]]))
        d.opaque = True
        return I.unknown(('popitem', str(d.label)))
    if name == '__contains__':
        return I.bv(I.dict_has(d, args[0]))
    if name == '__getitem__':
        return I.dict_get(d, args[0])
    if name in ('move_to_end',):
        return NONE
    I.note_undecided('dict method %s' % name)
    return I.unknown(('m', name, I.pathof(d)))


def tuple_method(I, t, name, args, kwargs):
    if name == 'index':
        for i, v in enumerate(t.items):
            if I.compare('Eq', v, args[0]) == 1:
                return k(i)
        return one(Sy(('index_of', I.vpath(args[0]), I.pathof(t)), INTT))
    if name == 'count':
        return one(Sy(('count_of', I.vpath(args[0]), I.pathof(t)), INTT))
    if name in ('__iter__',):
        return one(ListV('iter', [(1, v) for v in t.items]))
    return I.unknown(('m', name, I.pathof(t)))


# --------------------------------------------------------------------------
# hooks with defaults, overridden by the analyses

def _install_hooks():
    from .interp import Interp

    def int_safe(self, p, rest):
        return False

    def float_safe(self, p):
        return False

    def codec_safe(self, recv, enc, name):
        if name != 'decode' or enc == '?':
            return False
        from .bytesem import decode_safe
        return decode_safe(self, self.pathof(recv), enc)

    def note_mutation(self, lst, name):
        pass

    def sole_path(self):
        return False

    def mutate_sy(self, recv, name, args):
        return NONE

    def simple_class(self, name):
        d = self.__dict__.setdefault('_simple_classes', {})
        if name not in d:
            d[name] = ClassV(name, [], {}, None)
            d[name].meta['open'] = True
            d[name].bases.append(ExtV('ext.' + name))
        return d[name]
    for n, f in list(locals().items()):
        if callable(f) and n not in ('Interp',) and \
                not hasattr(Interp, n):
            setattr(Interp, n, f)


