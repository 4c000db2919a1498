"""Compare the guard of every notice with the specification of when it is
reported."""
from .. import rulespec, terms
from ..rules import run_exchange

SCEN = {'pair': (True, 1), 'lone': (False, 1), 'multi': (True, 2)}


def load(ctx):
    M = ctx.model()
    M.install_rules()
    R = rulespec.Rules()
    undecided = []
    for sc, cfg in SCEN.items():
        r = run_exchange(M, *cfg)
        R.from_events(M.I, sc, r['events'])
        undecided += r['undecided']
    spec = rulespec.load(ctx.spec('rules.txt'), R.m)
    R.undecided = undecided
    return R, spec


def expected(R, spec):
    """The full table, with what `multi` inherits from `pair`."""
    full = dict(spec)
    for (sc, tg, nid), (tag, f) in spec.items():
        if sc != 'pair':
            continue
        full.setdefault(('multi', tg, nid), (tag, f))
        if tg == 'resp':
            full.setdefault(('multi', 'resp2', nid), (tag, None))
    return full


# -- which predicates can be compared one by one ------------------------------

# String functions for which several spellings of one test exist.
SPLITTERS = {'split', 'rsplit', 'partition', 'rpartition', 'find', 'rfind',
             'index', 'rindex', 'count', 'replace', 'splitlines',
             'removeprefix', 'removesuffix', 'translate'}
ARITH = {'FloorDiv', 'Mod', 'BitAnd', 'BitOr', 'RShift', 'LShift'}


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            for y in subterms(x):
                yield y


def opaque(t):
    """Does the predicate involve a function of which the theory knows
    nothing, and for which there are other ways to write the same test?"""
    for s in subterms(t):
        if not isinstance(s, tuple) or not s:
            continue
        if s[0] in ('fresh', 'undecided', 'unknown', 'slice', 'regex'):
            return True
        if s[0] == 'm' and len(s) > 1 and s[1] in SPLITTERS:
            return True
        if s[0] == 'op' and len(s) > 1 and s[1] in ARITH:
            return True
        if s[0] == 'lib' and len(s) > 1 and str(s[1]).startswith('re.'):
            return True
    return False


def roots(t):
    out = set()
    for s in subterms(t):
        if isinstance(s, tuple) and len(s) >= 3 and s[0] in (
                'in', 'hv', 'pl', 'present') and all(
                isinstance(x, str) for x in s[1:3]):
            out.add(('hv',) + s[1:3] if s[0] == 'present' else s[:3])
        elif isinstance(s, tuple) and len(s) >= 3 and s[0] == 'dir' and \
                isinstance(s[1], str):
            out.add(('hv',) + s[1:3])
    return out


def skeleton(t):
    if isinstance(t, tuple):
        if t and t[0] in ('k', 'ci'):
            return ('k',)
        return tuple(skeleton(x) for x in t)
    return None if isinstance(t, (int, float)) and \
        not isinstance(t, bool) else t


def lenient(foreign, other):
    """Predicates of one side that may be another way of saying something
    that the other side says with its own predicates."""
    oroots = set()
    sk = set()
    for a in other:
        oroots |= roots(a)
        sk.add(skeleton(a))
    r = []
    for a in foreign:
        if not opaque(a):
            continue
        rs = roots(a)
        if rs and not (rs & oroots):
            continue                    # depends on something else altogether
        if skeleton(a) in sk:
            continue                    # same test with another constant
        r.append(a)
    return r


def exists(m, f, atoms):
    for a in atoms:
        v = m.atom_index[a]
        f = m.or_(m.restrict(f, v, False), m.restrict(f, v, True))
    return f


def forall(m, f, atoms):
    return m.not_(exists(m, m.not_(f), atoms))


def compare(R, code, spec):
    """(kind, cube) of a disagreement, or None."""
    m = R.m
    d = m.xor(code, spec)
    if d == 0:
        return None
    ax = R.axioms([code, spec])
    if m.and_(d, ax) == 0:
        return None
    ca = {m.atoms[v] for v in m.support(code)}
    sa = {m.atoms[v] for v in m.support(spec)}
    fc, fs = ca - sa, sa - ca
    lc = lenient(sorted(fc, key=repr), sa)
    ls = lenient(sorted(fs, key=repr), ca)
    if lc:                  # what they may stand for on the other side
        ls = sorted({a for a in fs if any(roots(a) & roots(b) for b in lc)} |
                    set(ls), key=repr)
    if ls:
        lc = sorted({a for a in fc if any(roots(a) & roots(b) for b in ls)} |
                    set(lc), key=repr)
    if lc and ls or any(undec(a) for a in lc):
        cmust, cmay = forall(m, code, lc), exists(m, code, lc)
        smust, smay = forall(m, spec, ls), exists(m, spec, ls)
    else:
        cmust = cmay = code
        smust = smay = spec
    for kind, x in (('spurious', m.diff(cmust, smay)),
                    ('missing', m.diff(smust, cmay))):
        x = m.and_(x, ax)
        if x == 0:
            continue
        cubes, _ = rulespec.isop(m, x, m.or_(x, m.not_(ax)))
        c = min(cubes, key=len)
        lits = [(m.atoms[v], b) for v, b in c]
        lits = list(terms.reduce_cube(tuple(lits)) or lits)
        return kind, rulespec.show_cube(lits)
    return None


def undec(a):
    return any(isinstance(s, tuple) and s and s[0] in (
        'fresh', 'undecided', 'unknown') for s in subterms(a))


def run(ctx, tag):
    R, spec = load(ctx)
    full = expected(R, spec)
    m = R.m
    topics = {k[2]: t for k, (t, _) in full.items()}
    both = {k[2] for k in full if k[:2] == ('pair', 'req')} & \
        {k[2] for k in full if k[:2] == ('pair', 'resp')}

    def tags(k):
        sc, tg, nid = k
        if topics.get(nid) == 'C17':
            yield 'C17'
        if nid in both:
            yield 'C13'
        if tg == 'req':
            yield 'C14'
        elif sc == 'lone':
            yield 'C15'
        elif sc == 'pair' and ('lone', tg, nid) in spec and \
                spec[('lone', tg, nid)][1] == full.get(k, (0, 0))[1]:
            yield 'C15'
        else:
            yield 'C16'
    n = eq = 0
    for k in sorted(set(full) | set(R.g), key=repr):
        sc, tg, nid = k
        if tag not in tags(k):
            continue
        n += 1
        g = R.g.get(k, 0)
        if k in full and full[k][1] is None:
            g = R.renamed(g, tg)
            s = spec[('pair', 'resp', nid)][1]
        else:
            s = full[k][1] if k in full else 0
        r = compare(R, g, s)
        if r is None:
            eq += 1
            continue
        kind, cube = r
        where = '; '.join(sorted(set(R.where.get(k, ())))[:4]) or \
            'httpolice (notice %s is never reported)' % nid
        names = {'pair': 'request and response',
                 'lone': 'response without request',
                 'multi': 'request with two responses'}
        ctx.violation(
            '%s/%s/%s' % k, where,
            'notice %s on the %s (%s) is %s when: %s' % (
                nid, {'req': 'request', 'resp': 'response',
                      'resp2': 'second response'}.get(tg, tg), names[sc],
                'reported but should not be' if kind == 'spurious'
                else 'not reported but should be', cube[:1500]))
    ctx.cover(obligations=n, discharged=eq, notices=len(
        {k[2] for k in full if tag in tags(k)}),
        guards_analysed=len(R.g), undecided_branches=len(R.undecided),
        rule='guard of notice (all paths of check_exchange) == '
             'spec/rules.txt, modulo the axioms of sa/terms.clauses')
