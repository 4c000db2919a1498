"""A small reduced-ordered BDD package.

Guards (the predicate domain of the dataflow analysis) are BDD nodes over
*atoms*.  An atom is a nested tuple of strings/constants describing one
elementary fact about the analysed program's inputs (see paths.py).  The
package is deliberately tiny: `ite` with a computed table, restriction,
support, prime implicants and quantification.
"""
import sys

sys.setrecursionlimit(20000)

FALSE = 0
TRUE = 1


class Manager:

    def __init__(self):
        self.var = [1 << 30, 1 << 30]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.unique = {}
        self.ite_memo = {}
        self.atom_index = {}
        self.atoms = []
        self.support_memo = {0: frozenset(), 1: frozenset()}
        self.primes_memo = {}

    # -- construction ------------------------------------------------------
    def atom(self, key):
        i = self.atom_index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.atom_index[key] = i
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.unique[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.ite_memo[k] = r
        return r

    def and_(self, f, g):
        if f == 1:
            return g
        if g == 1:
            return f
        if f == 0 or g == 0:
            return 0
        if f > g:
            f, g = g, f
        return self.ite(f, g, 0)

    def or_(self, f, g):
        if f == 0:
            return g
        if g == 0:
            return f
        if f == 1 or g == 1:
            return 1
        if f > g:
            f, g = g, f
        return self.ite(f, 1, g)

    def not_(self, f):
        return self.ite(f, 0, 1)

    def diff(self, f, g):
        return self.ite(g, 0, f)

    def xor(self, f, g):
        return self.ite(f, self.not_(g), g)

    def conj(self, fs):
        r = 1
        for f in fs:
            r = self.and_(r, f)
            if r == 0:
                return 0
        return r

    def disj(self, fs):
        r = 0
        for f in fs:
            r = self.or_(r, f)
            if r == 1:
                return 1
        return r

    # -- queries -------------------------------------------------------------
    def support(self, f):
        """Set of variable indices occurring in `f`."""
        memo = self.support_memo
        r = memo.get(f)
        if r is not None:
            return r
        stack = [f]
        while stack:
            n = stack[-1]
            if n in memo:
                stack.pop()
                continue
            l, h = self.lo[n], self.hi[n]
            if l in memo and h in memo:
                memo[n] = memo[l] | memo[h] | {self.var[n]}
                stack.pop()
            else:
                if l not in memo:
                    stack.append(l)
                if h not in memo:
                    stack.append(h)
        return memo[f]

    def support_atoms(self, f):
        return [self.atoms[i] for i in sorted(self.support(f))]

    def restrict(self, f, v, val):
        memo = {}

        def rec(n):
            if self.var[n] > v:
                return n
            if self.var[n] == v:
                return self.hi[n] if val else self.lo[n]
            r = memo.get(n)
            if r is None:
                r = self.mk(self.var[n], rec(self.lo[n]), rec(self.hi[n]))
                memo[n] = r
            return r
        return rec(f)

    def quantify(self, f, vs, universal=False):
        op = self.and_ if universal else self.or_
        memo = {}
        vs = frozenset(vs)

        def rec(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                l, h = rec(self.lo[n]), rec(self.hi[n])
                if self.var[n] in vs:
                    r = op(l, h)
                else:
                    r = self.ite(self.mk(self.var[n], 0, 1), h, l)
                memo[n] = r
            return r
        return rec(f)

    def constrain(self, f, c):
        """Generalised cofactor restricted to `f`'s support (Coudert's
        "restrict"): agrees with `f` wherever `c` holds."""
        if c == 0:
            return 0
        memo = {}

        def rec(f, c):
            if c == 1 or f < 2:
                return f
            k = (f, c)
            r = memo.get(k)
            if r is not None:
                return r
            vf, vc = self.var[f], self.var[c]
            if vc < vf:
                r = rec(f, self.or_(self.lo[c], self.hi[c]))
            elif vc > vf:
                r = self.mk(vf, rec(self.lo[f], c), rec(self.hi[f], c))
            else:
                c0, c1 = self.lo[c], self.hi[c]
                if c0 == 0:
                    r = rec(self.hi[f], c1)
                elif c1 == 0:
                    r = rec(self.lo[f], c0)
                else:
                    r = self.mk(vf, rec(self.lo[f], c0), rec(self.hi[f], c1))
            memo[k] = r
            return r
        return rec(f, c)

    def substitute(self, f, fn):
        """Replace every variable index v by BDD fn(v)."""
        memo = {0: 0, 1: 1}

        def rec(n):
            r = memo.get(n)
            if r is None:
                r = self.ite(fn(self.var[n]), rec(self.hi[n]), rec(self.lo[n]))
                memo[n] = r
            return r
        return rec(f)

    def a_sat_cube(self, f):
        """One satisfying assignment as {var: bool} or None."""
        if f == 0:
            return None
        r = {}
        while f != 1:
            if self.hi[f] != 0:
                r[self.var[f]] = True
                f = self.hi[f]
            else:
                r[self.var[f]] = False
                f = self.lo[f]
        return r

    def primes(self, f, limit=400):
        """All prime implicants of `f` as frozensets of (var, bool).

        Canonical for the function (Blake canonical form).  Returns None when
        there are more than `limit`.
        """
        memo = self.primes_memo

        def rec(n):
            if n == 0:
                return frozenset()
            if n == 1:
                return frozenset([frozenset()])
            r = memo.get(n)
            if r is not None:
                return r
            v, l, h = self.var[n], self.lo[n], self.hi[n]
            both = rec(self.and_(l, h))
            if both is None:
                return None
            out = set(both)
            for (branch, val) in ((l, False), (h, True)):
                ps = rec(branch)
                if ps is None:
                    return None
                for p in ps:
                    if not any(q <= p for q in both):
                        out.add(p | {(v, val)})
            if len(out) > limit:
                return None
            r = frozenset(out)
            memo[n] = r
            return r
        return rec(f)
