"""Languages of the texts that semantic actions of the grammar handle.

`ActLang.text(path, syms)` is an automaton for the texts that an expression
over the nodes of a rule (with the symbols `syms`) can have, or None.
"""
from .lang import (Letters, NOTHING, SymbolLang, concat, letter, max_len,
                   product_diff, repeat, union)
from .values import K, ListV, TupV

DIGITS = letter(sum(1 << c for c in b'0123456789'))
HEX = letter(sum(1 << c for c in b'0123456789abcdefABCDEF'))
DOT = letter(1 << 46)
DIGITS0 = repeat(DIGITS, 0, None)
FLOAT = union([concat([repeat(DIGITS, 1, None), repeat(
    concat([DOT, DIGITS0]), 0, 1)]), concat([DOT, repeat(DIGITS, 1, None)])])


def lit(s):
    return concat([letter(1 << ord(c)) for c in s]) if s else repeat(
        DOT, 0, 0)


class ActLang:

    def __init__(self, M):
        self.M, self.G, self.I = M, M.G, M.I
        self.sl = SymbolLang(M.G, Letters())
        self.memo = {}
        self.busy = set()

    def text(self, path, syms):
        if not isinstance(path, tuple):
            return None
        if path[:2] == ('k', 'str') and isinstance(path[2], str):
            return lit(path[2])
        if path[0] == 'g' and path[1] < len(syms):
            return self.symbol(syms[path[1]], False)
        if path[0] == 'op' and path[1] == 'Add':
            a, b = self.text(path[2], syms), self.text(path[3], syms)
            return concat([a, b]) if a and b else None
        if path[:3] == ('m', 'join', ('k', 'str', '')):
            return self.items(path[3], syms)
        if path[:2] == ('m', 'lstrip') and path[3:] == (('k', 'str', '0'),):
            d = self.text(path[2], syms)
            if d is not None and product_diff(d, DIGITS0) is None:
                return DIGITS0
        return None

    def items(self, path, syms):
        """The concatenation of the items of a list."""
        if path[0] == 'g' and path[1] < len(syms):
            return self.symbol(syms[path[1]], True)
        if path[0] in ('l', 'tup', 't'):
            out = []
            for x in path[1:]:
                if len(x) == 2 and x[0] == ():
                    out.append(self.text(x[1], syms))
                elif len(x) in (2, 3) and x[1][0] == 'e' and \
                        x[1][1][0] == 'g':
                    out.append(self.symbol(syms[x[1][1][1]], True))
                elif len(x) in (2, 3) and x[1][0] == 'g' and x[0] and \
                        'elem' in repr(x[0]):
                    return None
                else:
                    return None
            return concat(out) if None not in out else None
        return None

    def symbol(self, o, lst):
        """What a symbol's result is, or what its items are joined."""
        key = (id(o), lst)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        r = self.symbol1(o, lst)
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def symbol1(self, o, lst):
        G = self.G
        if G.is_terminal(o):
            return None if lst else self.sl.dfa(o)
        if G.is_repeated(o):
            inner = self.symbol(o.attrs['inner'].single(), False)
            n = o.attrs['max_count'].single()
            if inner is None or not lst or not isinstance(n, K):
                return None
            return repeat(inner, 0, n.v)
        out = []
        G.result(o)
        for syms, alts in G.outs.get(id(o), ()):
            for _, s in alts:
                if isinstance(s, TupV):
                    items = [v for v in s.items]
                elif isinstance(s, ListV) and all(
                        not self.I.bdd_elems(g) for g, _ in s.entries):
                    items = [v for _, v in s.entries]
                elif isinstance(s, K) and s.v == ():
                    items = []
                else:
                    return None
                if len(items) != 1:
                    return None
                for _, x in items[0].alts:
                    p = self.I.pathof(x)
                    d = self.items(p, syms) if lst else self.text(p, syms)
                    if d is None:
                        return None
                    out.append(d)
        return union(out) if out else None

    # -- conversions ---------------------------------------------------------
    def conversion(self, key, syms):
        """May ('int'/'float', path, ...) fail?  (never, unless empty or too
        long): (syntax is fine, never empty, never too long)."""
        d = self.text(key[1], syms)
        if d is None:
            return None
        if key[0] == 'float':
            return (product_diff(d, FLOAT) is None, True, True)
        alpha = DIGITS
        if len(key) > 2:
            if key[2][0] != 'k' or key[2][2] not in (10, 16):
                return None
            alpha = HEX if key[2][2] == 16 else DIGITS
        n = max_len(d)
        return (product_diff(d, repeat(alpha, 0, None)) is None,
                d.start not in d.acc, n is not None and n <= 4300)
