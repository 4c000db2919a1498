"""Canonical terms: the predicates of the analysis as readable text."""
import ast
import keyword


def canon_obj(x):
    """Replace analysis objects inside a path by plain data."""
    if isinstance(x, tuple):
        return tuple(canon_obj(y) for y in x)
    if isinstance(x, (frozenset, set)):
        return ('set',) + tuple(sorted((canon_obj(y) for y in x), key=repr))
    if isinstance(x, (str, bytes, bool, int, float)) or x is None:
        return x
    mask = getattr(x, 'mask', None)
    if isinstance(mask, int):
        return ('bits', '%x' % mask)
    return ('object', type(x).__name__)


def show(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            f = t[0]
            if f == 'ex' and len(t) == 3 and isinstance(t[2], tuple) and \
                    all(isinstance(l, tuple) and len(l) == 2 and
                        isinstance(l[1], bool) for l in t[2]):
                return 'ex(%s)' % ', '.join(
                    [show(t[1])] + [('' if v else '~') + show(a)
                                    for a, v in t[2]])
            if f.isidentifier() and not keyword.iskeyword(f) and f != '_':
                return '%s(%s)' % (f, ', '.join(show(x) for x in t[1:]))
            return '_(%s)' % ', '.join(show(x) for x in t) \
                if not f.isidentifier() or keyword.iskeyword(f) or f == '_' \
                else '?'
        if len(t) == 1:
            return '(%s,)' % show(t[0])
        return '(%s)' % ', '.join(show(x) for x in t)
    return repr(t)


def read(s):
    return conv(ast.parse(s.strip(), mode='eval').body)


def conv(n):
    if isinstance(n, ast.Call):
        f = n.func.id
        if f == 'ex':
            lits = []
            for a in n.args[1:]:
                if isinstance(a, ast.UnaryOp):
                    lits.append((conv(a.operand), False))
                else:
                    lits.append((conv(a), True))
            return ('ex', conv(n.args[0]), tuple(lits))
        args = tuple(conv(a) for a in n.args)
        return args if f == '_' else (f,) + args
    if isinstance(n, ast.Tuple):
        return tuple(conv(x) for x in n.elts)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -conv(n.operand)
    if isinstance(n, ast.Constant):
        return n.value
    raise ValueError('bad term: ' + ast.dump(n))


# -- axioms -----------------------------------------------------------------

def is_const(p):
    return isinstance(p, tuple) and p and p[0] in ('k', 'ci', 'obj')


def split_eq(a):
    """('eq', x, const) in either order -> (x, const)."""
    if is_const(a[2]):
        return a[1], a[2]
    if is_const(a[1]):
        return a[2], a[1]
    return None, None


def const_fold(c):
    """What a constant is, ignoring how it is represented."""
    if c[0] == 'ci':
        return ('s', str(c[1]).lower())
    if c[0] == 'k' and c[1] in ('str', 'bytes'):
        v = c[2]
        return ('s', (v.decode('latin1') if isinstance(v, bytes)
                      else v))
    if c[0] == 'k':
        return ('v', c[2])
    return c


def unlower(p):
    if isinstance(p, tuple) and len(p) == 3 and p[:2] == ('m', 'lower'):
        return p[2]
    return p


def clauses(atoms):
    """Sound facts relating the atoms: a list of clauses [(atom, bool)...]
    each of which always holds."""
    out = []
    by = {}
    for a in atoms:
        by.setdefault(a[0], []).append(a)
    none = {a[1]: a for a in by.get('isnone', ())}
    unav = {a[1]: a for a in by.get('isunav', ())}
    tru = {a[1]: a for a in by.get('truthy', ())}
    # thresholds
    ges = {}
    for a in by.get('ge', ()):
        ges.setdefault(a[1], []).append(a)
    for p, l in ges.items():
        l.sort(key=lambda a: a[2])
        for lo, hi in zip(l, l[1:]):
            out.append([(hi, False), (lo, True)])
        for a in l:
            if p in none:
                out.append([(a, False), (none[p], False)])
            if p[0] == 'len' and a[2] >= 1 and p[1] in tru:
                out.append([(a, False), (tru[p[1]], True)])
            if p[0] == 'len' and a[2] <= 1 and p[1] in tru:
                out.append([(a, True), (tru[p[1]], False)])
    # equalities with constants
    eqs = {}
    for a in by.get('eq', ()):
        x, c = split_eq(a)
        if x is None:
            for p in (a[1], a[2]):
                if p in unav:
                    pass
            continue
        eqs.setdefault(unlower(x), []).append((a, x, c))
        if x in none:
            out.append([(a, False), (none[x], False)])
        if unlower(x) in none:
            out.append([(a, False), (none[unlower(x)], False)])
        for q in {x, unlower(x)}:
            if q in unav:
                out.append([(a, False), (unav[q], False)])
            if q in tru:
                f = const_fold(c)
                if f[0] in 'sv':
                    out.append([(a, False), (tru[q], bool(f[1]))])
    for x, l in eqs.items():
        for i, (a, p, c) in enumerate(l):
            for b, q, d in l[i + 1:]:
                fc, fd = const_fold(c), const_fold(d)
                same = fc == fd
                if fc[0] == 's' and fd[0] == 's':
                    same = fc[1].lower() == fd[1].lower()
                if not same:
                    out.append([(a, False), (b, False)])
    for p, a in none.items():
        for d in (unav, tru):
            if p in d:
                out.append([(a, False), (d[p], False)])
    for a in by.get('is', ()):
        if a[1] in none:
            out.append([(a, False), (none[a[1]], False)])
        if a[1] in unav:
            out.append([(a, False), (unav[a[1]], False)])
    # header values
    pres = {(a[1], a[2]): a for a in by.get('present', ())}
    for d in (unav, tru):
        for p, a in d.items():
            if p[0] == 'hv' and p[1:] in pres:
                out.append([(a, False), (pres[p[1:]], True)])
    for p, a in none.items():
        # a directive can only be there when the header is
        if p[0] == 'dir' and p[1:3] in pres:
            out.append([(a, True), (pres[p[1:3]], True)])
    for a in atoms:
        hv = value_of(a)
        if hv is not None and hv[1:] in pres:
            out.append([(a, False), (pres[hv[1:]], True)])
        if hv is not None and hv in unav and a[0] == 'eq':
            out.append([(a, False), (unav[hv], False)])
    # existentials
    exs = by.get('ex', ())
    for i, a in enumerate(exs):
        lst = a[1][1] if a[1][0] == 'e' else a[1][2]
        if lst in tru:
            out.append([(a, False), (tru[lst], True)])
        if lst[0] == 'hv' and lst[1:] in pres:
            out.append([(a, False), (pres[lst[1:]], True)])
        if not isinstance(a[2], tuple) or a[2] and a[2][0] == 'big':
            continue
        for b in exs:
            if b is a or b[1] != a[1] or not isinstance(b[2], tuple) or \
                    b[2] and b[2][0] == 'big':
                continue
            # the literals of `a` imply those of `b`
            if implies(a[2], b[2]):
                out.append([(a, False), (b, True)])
    return out


def value_of(a):
    """The header value an equality or comparison is directly about."""
    if a[0] in ('eq', 'lt', 'is'):
        for p in a[1:3]:
            p = unlower(p) if isinstance(p, tuple) else p
            while isinstance(p, tuple) and p and p[0] == 'i':
                p = unlower(p[1])
            if isinstance(p, tuple) and p and p[0] == 'hv' and a[0] == 'eq' \
                    and split_eq(a)[0] is not None:
                return p
            if isinstance(p, tuple) and p and p[0] == 'hv' and a[0] != 'eq':
                return p
    return None


def implies(l1, l2, cl=None):
    """Do the literals l1 imply every literal of l2?"""
    s = set(l1)
    if set(l2) <= s:
        return True
    forced = unit(l1, [a for a, _ in l1] + [a for a, _ in l2])
    if forced is None:
        return True
    return all(forced.get(a) is v for a, v in l2)


def unit(lits, atoms, cls=None):
    """Unit propagation; {atom: bool} or None on contradiction."""
    val = {}
    for a, v in lits:
        if val.get(a, v) is not v:
            return None
        val[a] = v
    if cls is None:
        cls = clauses(list(dict.fromkeys(atoms)))
    changed = True
    while changed:
        changed = False
        for c in cls:
            free = None
            n = 0
            sat = False
            for a, v in c:
                x = val.get(a)
                if x is None:
                    n += 1
                    free = (a, v)
                elif x is v:
                    sat = True
                    break
            if sat:
                continue
            if n == 0:
                return None
            if n == 1:
                val[free[0]] = free[1]
                changed = True
    return val


def reduce_cube(lits):
    """Drop literals implied by the rest; None when contradictory."""
    atoms = [a for a, _ in lits]
    cls = clauses(list(dict.fromkeys(atoms)))
    if unit(lits, atoms, cls) is None:
        return None
    cur = sorted(set(lits), key=lambda l: (l[1], repr(l[0])))
    for l in list(cur):
        rest = [x for x in cur if x != l]
        f = unit(rest, atoms, cls)
        if f is not None and f.get(l[0]) is l[1]:
            cur = rest
    return tuple(sorted(cur, key=repr))


# -- canonical atoms ----------------------------------------------------------

def canon(a, env=None, depth=0):
    """Alpha-rename bound elements and normalise nested literals.

    Returns a term; `('ex', ...)` that can never hold becomes None."""
    env = env or {}

    def path(p):
        if isinstance(p, tuple):
            if p in env:
                return env[p]
            if len(p) == 3 and p[0] == 'ex':
                c = canon(p, env, depth)
                return c
            return tuple(path(x) for x in p)
        return canon_obj(p)

    if a[0] == 'ex' and isinstance(a[2], tuple) and \
            not (a[2] and a[2][0] == 'big'):
        e = a[1]
        lst = path(e[1])
        v = ('x', depth, lst)
        env2 = dict(env)
        env2[e] = v
        lits = []
        for b, val in a[2]:
            if b[0] == 'elem':
                continue
            c = canon(b, env2, depth + 1)
            if c is None:
                if val:
                    return None
                continue
            lits.append((c, val))
        lits = reduce_cube(tuple(lits))
        if lits is None:
            return None
        if not lits:
            return ('truthy', lst)
        return ('ex', v, lits)
    if a[0] == 'ex':
        return ('ex', ('x', depth, path(a[1][1])), ((('big',), True),))
    if a[0] == 'eq':
        x, y = path(a[1]), path(a[2])
        if repr(y) < repr(x) and not is_const(y) or is_const(x):
            x, y = y, x
        return ('eq', x, y)
    return tuple(path(x) for x in a)
