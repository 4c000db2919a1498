"""Guards of notices: canonical form, text form, comparison."""
from . import terms
from .bdd import Manager as BDD


class Rules:
    """Disjunction of guards per (scenario, target, notice id)."""

    def __init__(self, m=None):
        self.m = m or BDD()
        self.g = {}
        self.where = {}
        self.undecided = set()

    def lit(self, term):
        return self.m.atom(term)

    def from_events(self, I, scen, events):
        memo = self.__dict__.setdefault('_conv', {})

        def conv(v):
            r = memo.get(v)
            if r is None:
                t = terms.canon(I.m.atoms[v])
                r = memo[v] = 0 if t is None else self.m.atom(t)
            return r
        for e in events:
            if e.kind != 'complain':
                continue
            g = I.close(e.guard, e.open)
            f = self.translate(I.m, g, conv)
            k = (scen, e.target, e.id)
            self.g[k] = self.m.or_(self.g.get(k, 0), f)
            self.where.setdefault(k, []).append(
                '%s:%s (%s)' % (e.site[0], e.site[2], e.site[1]))

    def translate(self, src, f, conv):
        memo = self.__dict__.setdefault('_tr', {0: 0, 1: 1})

        def rec(n):
            r = memo.get(n)
            if r is None:
                r = memo[n] = self.m.ite(conv(src.var[n]), rec(src.hi[n]),
                                         rec(src.lo[n]))
            return r
        return rec(f)

    def renamed(self, f, role):
        """`f` with the messages of response `role` called `resp`."""
        memo = self.__dict__.setdefault('_ren', {})

        def ren(t):
            if isinstance(t, tuple):
                t = tuple(ren(x) for x in t)
                if t[:1] == ('ex',) and len(t) == 3:
                    return t[:2] + (tuple(sorted(t[2], key=repr)),)
                return terms.canon(t) if t[:1] == ('eq',) else t
            return 'resp' if t == role else t

        def rec(n):
            if n in (0, 1):
                return n
            r = memo.get((n, role))
            if r is None:
                v = self.m.atom(ren(self.m.atoms[self.m.var[n]]))
                r = memo[(n, role)] = self.m.ite(
                    v, rec(self.m.hi[n]), rec(self.m.lo[n]))
            return r
        return rec(f)

    def same(self, k, base, role):
        f, g = self.g[k], self.g[base]
        if role not in ('req', 'resp'):
            f = self.renamed(f, role)
        d = self.m.xor(f, g)
        return d == 0 or self.m.and_(d, self.axioms([f, g])) == 0

    def axioms(self, fs):
        m = self.m
        sup = set()
        for f in fs:
            sup |= m.support(f)
        atoms = [m.atoms[v] for v in sorted(sup)]
        r = 1
        for c in terms.clauses(atoms):
            r = m.and_(r, m.disj([m.atom(a) if v else m.not_(m.atom(a))
                                  for a, v in c]))
        return r


def isop(m, lo, up):
    """Irredundant sum of products between `lo` and `up` (Minato-Morreale).
    Returns (cubes, cover); a cube is a tuple of (var, bool)."""
    memo = {}

    def rec(l, u):
        if l == 0:
            return [], 0
        if u == 1:
            return [()], 1
        k = (l, u)
        r = memo.get(k)
        if r is not None:
            return r
        v = min(m.var[l], m.var[u])

        def cof(f):
            if m.var[f] == v:
                return m.lo[f], m.hi[f]
            return f, f
        l0, l1 = cof(l)
        u0, u1 = cof(u)
        c0, f0 = rec(m.diff(l0, u1), u0)
        c1, f1 = rec(m.diff(l1, u0), u1)
        ln = m.or_(m.diff(l0, f0), m.diff(l1, f1))
        cd, fd = rec(ln, m.and_(u0, u1))
        x = m.mk(v, 0, 1)
        f = m.or_(m.ite(x, f1, f0), fd)
        cubes = [((v, False),) + c for c in c0] + \
            [((v, True),) + c for c in c1] + cd
        memo[k] = (cubes, f)
        return memo[k]
    return rec(lo, up)


def dump(rules, key):
    """The guard as a list of cubes (lists of text literals)."""
    m = rules.m
    g = rules.g[key]
    ax = rules.axioms([g])
    lo = m.and_(g, ax)
    if lo == 0:
        return []
    cubes, _ = isop(m, lo, m.or_(g, m.not_(ax)))
    out = []
    for c in cubes:
        lits = [(m.atoms[v], b) for v, b in c]
        lits = list(terms.reduce_cube(tuple(lits)) or lits)
        out.append(show_cube(lits))
    return sorted(out)


def show_cube(lits):
    ges = {}
    rest = []
    for a, b in lits:
        if a[0] == 'ge':
            ges.setdefault(a[1], []).append((a[2], b))
        else:
            rest.append((a, b))
    out = []
    for p, l in ges.items():
        lo = [n for n, b in l if b]
        hi = [n for n, b in l if not b]
        if len(lo) <= 1 and len(hi) <= 1:
            out.append('rng(%s, %s, %s)' % (
                terms.show(p), lo[0] if lo else None,
                hi[0] - 1 if hi else None))
        else:
            rest += [(('ge', p, n), b) for n, b in l]
    out += sorted(('' if b else '~') + terms.show(a) for a, b in rest)
    return ' & '.join(out) or 'TRUE'


def read_cube(text):
    lits = []
    for part in split_top(text):
        part = part.strip()
        if part == 'TRUE':
            continue
        neg = part.startswith('~')
        t = terms.read(part[1:] if neg else part)
        if t[0] == 'rng':
            if t[2] is not None:
                lits.append((('ge', t[1], t[2]), True))
            if t[3] is not None:
                lits.append((('ge', t[1], t[3] + 1), False))
        else:
            lits.append((t, not neg))
    return lits


def split_top(s):
    out, depth, cur, q, i = [], 0, '', None, 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\':
                i += 1
                cur += s[i]
            elif c == q:
                q = None
        elif c in '\'"':
            q = c
            cur += c
        elif c == '&' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            depth += (c in '([') - (c in ')]')
            cur += c
        i += 1
    out.append(cur)
    return out


def load(path, m):
    """Read a specification file.

    `$NAME = text` defines a textual abbreviation, `let NAME` a named
    condition (used as `@NAME` or `~@NAME`), and `[scenario target id] TAG --
    title` a rule.  The indented lines below are its cases, any of which
    triggers it.  Returns {(scenario, target, id): (tag, condition)}.
    """
    out, lets, defs = {}, {}, {}
    cur = None
    for line in open(path, encoding='utf-8'):
        line = line.rstrip('\n')
        if not line.strip() or line.startswith('#'):
            continue
        if line.startswith('$'):
            n, _, t = line[1:].partition(' = ')
            defs[n] = t.strip()
            continue
        if line.startswith('let '):
            cur = lets[line[4:].strip()] = [None, 0]
            continue
        if line.startswith('['):
            head, _, tag = line[1:].partition(']')
            parts = head.split()
            nid = int(parts[2]) if parts[2].isdigit() else parts[2]
            key = (parts[0], parts[1], nid)
            if key in out:
                raise ValueError('duplicate rule %r' % (key,))
            tag = tag.strip().split()[0]
            if tag.startswith('='):
                out[key] = [tag[1:], out[('pair',) + key[1:]][1]]
                continue
            cur = out[key] = [tag, 0]
            continue
        text = line.strip()
        for n in sorted(defs, key=lambda n: -len(n)):
            text = text.replace('$' + n, defs[n])
        cube = 1
        rest = []
        for part in split_top(text):
            part = part.strip()
            if part.startswith(('@', '~@')):
                f = lets[part.lstrip('~@')][1]
                cube = m.and_(cube, m.not_(f) if part[0] == '~' else f)
            else:
                rest.append(part)
        lits = read_cube(' & '.join(rest)) if rest else []
        cube = m.and_(cube, m.conj([m.atom(a) if v else m.not_(m.atom(a))
                                    for a, v in lits]))
        cur[1] = m.or_(cur[1], cube)
    return {k: tuple(v) for k, v in out.items()}


def load_defs(path):
    defs = {}
    for line in open(path, encoding='utf-8'):
        if line.startswith('$'):
            n, _, t = line[1:].rstrip('\n').partition(' = ')
            defs[n] = t.strip()
    return defs, {}
