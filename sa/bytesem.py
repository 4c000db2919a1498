"""Predicates on one byte of a byte string, decided by tabulation.

A path condition inside a loop over the bytes of a string is a Boolean
function of predicates on the current byte; each predicate is evaluated here
for all 256 values.  This shows, e.g., that `decode('ascii')` cannot fail
where the byte is known to be a URL-encoded character."""


class Unknown(Exception):
    pass


def mentions(t, e):
    if t == e:
        return True
    return isinstance(t, tuple) and any(mentions(x, e) for x in t)


def elements(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) == 3 and (t[0] == 'e' and isinstance(t[2], int) or
                            t[0] == 'some'):
            out.add(t)
        for x in t:
            elements(x, out)
    return out


def value(t, e, b):
    """Value of the term `t` when element `e` is the byte `b`."""
    if t == e:
        return b
    if not isinstance(t, tuple) or not t:
        raise Unknown
    h = t[0]
    try:
        if h == 'k':
            return t[2]
        if h == 't':
            return tuple(value(x, e, b) for x in t[1:])
        if h == 'bytes':
            return bytes(value(t[1], e, b))
        if h == 'ord':
            return ord(value(t[1], e, b))
        if h == 'chr':
            return chr(value(t[1], e, b))
        if h == 'item':
            return value(t[1], e, b)[value(t[2], e, b)]
        if h == 'm' and t[1] in ('decode', 'encode', 'lower', 'upper',
                                 'isalpha', 'isdigit', 'isalnum', 'isspace',
                                 'startswith', 'endswith', 'strip'):
            return getattr(value(t[2], e, b), t[1])(
                *[value(x, e, b) for x in t[3:]])
        if h == 'op':
            x, y = value(t[2], e, b), value(t[3], e, b)
            return {'Add': lambda: x + y, 'Sub': lambda: x - y,
                    'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                    'RShift': lambda: x >> y, 'Mod': lambda: x % y,
                    'FloorDiv': lambda: x // y}[t[1]]()
    except Unknown:
        raise
    except Exception:
        raise Unknown
    raise Unknown


def truth(a, e, b):
    """Truth of the atom `a` when element `e` is the byte `b`, or None."""
    try:
        if a[0] == 'elem':
            return True if a[1] == e else None
        if not mentions(a, e):
            return None
        if a[0] == 'truthy':
            return bool(value(a[1], e, b))
        if a[0] == 'ge':
            return value(a[1], e, b) >= a[2]
        if a[0] == 'eq':
            return value(a[1], e, b) == value(a[2], e, b)
        if a[0] == 'lt':
            return value(a[1], e, b) < value(a[2], e, b)
        if a[0] == 'in':
            return value(a[1], e, b) in value(a[2], e, b)
    except (Unknown, TypeError, IndexError, ValueError):
        pass
    return None


def fails(p, e, b, enc):
    """Does decoding the term `p` fail for this byte?"""
    try:
        v = value(p, e, b)
        v = bytes((v,)) if isinstance(v, int) else v
        v.decode(enc)
        return False
    except Unknown:
        return True
    except Exception:
        return True


def decode_safe(I, p, enc):
    """Is decoding `p` in `enc` free of errors under the path condition?"""
    m = I.m
    atoms = m.support_atoms(I.pc)
    for e in elements(p):
        bad = [b for b in range(256) if fails(p, e, b, enc)]
        mine = [a for a in atoms if mentions(a, e)]
        ok = True
        for b in bad:
            f = I.pc
            for a in mine:
                v = truth(a, e, b)
                if v is not None:
                    f = m.restrict(f, m.atom_index[a], v)
            if f != 0:
                ok = False
                break
        if ok:
            return True
    for a in atoms:
        if a[0] != 'ex' or a[1][:2] != ('e', p) or \
                not isinstance(a[2], tuple) or a[2][:1] == ('big',):
            continue
        e = a[1]
        if m.and_(I.pc, m.atom(a)) != 0:
            continue
        # nothing in the string satisfies the literals
        if all(all(truth(x, e, b) is v for x, v in a[2])
               for b in range(256) if fails(e, e, b, enc)):
            return True
    return False
