"""Sublanguages: the words whose parse passes a construct that complains.

For a notice X, L_X(S) is the set of words of symbol S that have a derivation
through (the complaining part of) a construct reporting X.  Computed both for
the inferred grammar and for the ABNF of the specification."""
from . import lang
from .lang import EPS, NOTHING, concat, union, repeat, difference, letter

ANYTHING = None


def isempty(d):
    return not d.acc


def cat2(parts):
    """parts: [(L, LX)] -> LX of the concatenation."""
    out = []
    for i, (l, x) in enumerate(parts):
        if not isempty(x):
            out.append(concat([p[0] for p in parts[:i]] + [x] +
                              [p[0] for p in parts[i + 1:]]))
    return union(out) if out else NOTHING


def rep2(l, x, lo, hi):
    if isempty(x):
        return NOTHING
    out = []
    if hi is None:
        for i in range(lo):
            out.append(concat([repeat(l, i, i), x,
                               repeat(l, max(lo - 1 - i, 0), None)]))
        out.append(concat([repeat(l, lo, None), x, repeat(l, 0, None)]))
    else:
        for n in range(max(lo, 1), hi + 1):
            for i in range(n):
                out.append(concat([repeat(l, i, i), x,
                                   repeat(l, n - 1 - i, n - 1 - i)]))
    return union(out)


WS = letter(1 << 32 | 1 << 9)
BACKSLASH = letter(1 << 92)
ALLCH = letter((1 << 256) - 1)


def restrict(kind, d):
    """The part of language `d` on which a complaint of `kind` is made."""
    if kind == 'always':
        return d
    if kind == 'nonempty':
        return difference(d, EPS)
    if kind == 'not-one-space':
        return difference(d, letter(1 << 32))
    if kind == 'has-backslash':
        return difference(d, repeat(letter((1 << 256) - 1 - (1 << 92)),
                                    0, None))
    if kind.startswith('last-not:'):
        m = 0
        for c in kind[9:]:
            m |= 1 << ord(c)
        return difference(d, concat([repeat(ALLCH, 0, None), letter(m)]))
    raise ValueError(kind)


class CodeMarks:
    """L_X of the symbols of the inferred grammar."""

    def __init__(self, G, code, letters, kind_of):
        self.G, self.code, self.letters = G, code, letters
        self.kind_of = kind_of      # (symbol, nid) -> kind or None
        self.memo = {}
        self.carrier = {}

    def carries(self, o, nid):
        key = (id(o), nid)
        r = self.carrier.get(key)
        if r is None:
            r = self.carrier[key] = any(
                nid in self.G.notices.get(i, {})
                for i in self.G.reachable(o))
        return r

    def sub(self, o, nid):
        """L_nid of symbol `o`."""
        G = self.G
        key = (id(o), nid)
        r = self.memo.get(key)
        if r is not None:
            return r
        if G.is_terminal(o) or not self.carries(o, nid):
            r = NOTHING
        elif self.code.is_rec(o):
            r = self.letters.get('%s!%s' % (G.name(o), nid))
        else:
            r = self.body(o, nid)
        self.memo[key] = r
        return r

    def body(self, o, nid):
        G, code = self.G, self.code
        kind = self.kind_of(o, nid)
        if kind is not None:
            own = restrict(kind, code.dfa(o) if not code.is_rec(o)
                           else code.body(o))
            if kind == 'always':
                return own
        else:
            own = NOTHING
        outs = [own] if not isempty(own) else []
        if G.is_repeated(o):
            inner = None
            for syms, _ in G.rules(o):
                if o in syms or any(s is o for s in syms):
                    inner = [s for s in syms if s is not o]
            if inner is not None:
                l = concat([code.dfa(s) for s in inner])
                x = cat2([(code.dfa(s), self.sub(s, nid)) for s in inner])
                outs.append(rep2(l, x, 0, None))
                outs = [d for d in outs if not isempty(d)]
                return union(outs) if outs else NOTHING
        for syms, _ in G.rules(o):
            x = cat2([(code.dfa(s), self.sub(s, nid)) for s in syms])
            if not isempty(x):
                outs.append(x)
        return union(outs) if outs else NOTHING


class SpecMarks:
    """L_X of ABNF rules; marks: rule name -> [(notice, kind)]."""

    def __init__(self, spec, marks, letters):
        self.spec, self.marks, self.letters = spec, marks, letters
        self.memo = {}

    def carries(self, name, nid, seen=None):
        key = ('c', name, nid)
        r = self.memo.get(key)
        if r is not None:
            return r
        todo, seen, r = [name], set(), False
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if any(m[0] == nid for m in self.marks.get(n, ())):
                r = True
                break
            toks = self.spec.tokens(self.spec.rules[n])
            if nid == 1151 and any(t[1] == '#' for t in toks
                                   if t[0] == 'op'):
                r = True
                break
            todo += [t for k, t in toks if k == 'name']
        self.memo[key] = r
        return r

    def sub(self, name, nid):
        key = (name, nid)
        r = self.memo.get(key)
        if r is not None:
            return r
        if not self.carries(name, nid):
            r = NOTHING
        elif self.spec.is_rec(name):
            r = self.letters.get('%s!%s' % (name, nid))
        else:
            r = self.body(name, nid)
        self.memo[key] = r
        return r

    def body(self, name, nid):
        sp = self.spec
        own = []
        for n, kind in self.marks.get(name, ()):
            if n == nid:
                own.append(restrict(kind, sp.dfa(name)
                                    if not sp.is_rec(name)
                                    else sp.body(name)))
        t = sp.tokens(sp.rules[name])
        self.nid = nid
        (l, x), i = self.alt(t, 0, nid)
        own.append(x)
        own = [d for d in own if not isempty(d)]
        return union(own) if own else NOTHING

    def alt(self, t, i, nid):
        ls, xs = [], []
        while True:
            (l, x), i = self.cat(t, i, nid)
            ls.append(l)
            if not isempty(x):
                xs.append(x)
            if i < len(t) and t[i] == ('op', '/'):
                i += 1
                continue
            return (union(ls), union(xs) if xs else NOTHING), i

    def cat(self, t, i, nid):
        ps = []
        while i < len(t) and t[i] not in (('op', '/'), ('op', ')'),
                                          ('op', ']'), ('op', '}')):
            p, i = self.rep(t, i, nid)
            ps.append(p)
        return (concat([p[0] for p in ps]), cat2(ps)), i

    def rep(self, t, i, nid):
        lo, hi = 1, 1
        if t[i][0] == 'int' or t[i] in (('op', '*'), ('op', '#')):
            n = None
            if t[i][0] == 'int':
                n = int(t[i][1])
                i += 1
            if i < len(t) and t[i] == ('op', '#'):
                (l, x), i = self.elem(t, i + 1, nid)
                full = self.spec.list_(l, n or 0)
                if nid == 1151:
                    return (full, full), i
                if isempty(x):
                    return (full, NOTHING), i
                # some element is one of `x`
                ws = repeat(WS, 0, None)
                comma = letter(1 << 44)
                e = union([EPS, concat([l, ws])])
                pre = repeat(concat([e, comma, ws]), 0, None)
                post = repeat(concat([comma, ws, e]), 0, None)
                if n:
                    lead = repeat(concat([comma, ws]), 0, None)
                    tail = repeat(concat(
                        [ws, comma, union([EPS, concat([ws, l])])]), 0, None)
                    out = union([
                        concat([lead, x, tail]),
                        concat([lead, l, tail, ws, comma, ws, x, tail])])
                else:
                    out = concat([pre, x, ws, post])
                return (full, out), i
            if i < len(t) and t[i] == ('op', '*'):
                i += 1
                lo = n or 0
                hi = None
                if t[i][0] == 'int':
                    hi = int(t[i][1])
                    i += 1
            else:
                lo = hi = n
        (l, x), i = self.elem(t, i, nid)
        if (lo, hi) != (1, 1):
            l, x = repeat(l, lo, hi), rep2(l, x, lo, hi)
        return (l, x), i

    def elem(self, t, i, nid):
        k, s = t[i]
        if k == 'name':
            return (self.spec.dfa(s), self.sub(s, nid)), i + 1
        if k in ('str', 'num') or s == '{':
            d, j = self.spec.elem(t, i)
            return (d, NOTHING), j
        p, j = self.alt(t, i + 1, nid)
        if s == '[':
            p = (union([EPS, p[0]]), p[1])
        return p, j + 1
