"""Abstract evaluation of semantic actions over derivation trees.

A word is a list of items: one-character strings, or ('s', NAME, V,
TEXT) standing for any string that the symbol called NAME matches, with parse
result V (TEXT is one such string, used if no symbol has that name).  The
rules of the grammar object graph are searched for a derivation of the word
(the same preference among ambiguous ones is not modelled: all results are
returned), and the actions on it are interpreted abstractly."""
from .values import K, NatV, ListV, TupV, O, V, NONE, one, k


class Derive:

    ran = {}            # semantic actions interpreted so far

    def __init__(self, M):
        self.M, self.I, self.G = M, M.I, M.G

    # -- recognition ----------------------------------------------------------
    def spans(self, o, word):
        """Where each symbol needed from each position may end, by fixpoint
        over the positions that are asked for."""
        G = self.G
        n = len(word)
        ends = {}
        todo = []

        def ask(s, i):
            key = (id(s), i)
            e = ends.get(key)
            if e is not None:
                return e
            e = ends[key] = set()
            w = word[i] if i < n else None
            if isinstance(w, str):
                if G.is_terminal(s) and G.mask(s) >> ord(w) & 1:
                    e.add(i + 1)
            elif w is not None and self.G.name(s) == w[1]:
                e.add(i + 1)
            if not G.is_terminal(s):
                todo.append((s, i))
            return e
        ask(o, 0)
        changed = True
        while changed:
            changed = False
            for s, i in list(todo):
                tgt = ends[(id(s), i)]
                for syms2, _ in G.rules(s):
                    cur = {i}
                    for x in syms2:
                        nx = set()
                        for j in cur:
                            k = len(todo)
                            nx |= ask(x, j)
                            changed |= len(todo) != k
                        cur = nx
                        if not cur:
                            break
                    if not cur <= tgt:
                        tgt |= cur
                        changed = True
        return ends

    # -- evaluation -------------------------------------------------------------
    def evaluate(self, o, word):
        """[(result V, [(notice, guard, kwargs)], faults)] of all
        derivations of `word` from `o`; empty if there is none."""
        I = self.I
        I.pc, I.steps = 1, 0
        ends = self.spans(o, word)
        if len(word) not in ends[(id(o), 0)] and any(
                not isinstance(w, str) for w in word):
            # The grammar is cut up in another way: spell it out.
            word = [c for w in word
                    for c in ([w] if isinstance(w, str) else w[3])]
            ends = self.spans(o, word)
        n = len(word)
        if n not in ends[(id(o), 0)]:
            return []
        self.ends, self.word = ends, word
        self.memo = {}
        return self.results(o, 0, n, ())

    def results(self, s, i, j, busy):
        key = (id(s), i, j)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in busy:
            return []
        G, I = self.G, self.I
        out = []
        w = self.word[i] if i < len(self.word) else None
        if j == i + 1 and w is not None and not isinstance(w, str) and \
                G.name(s) == w[1]:
            out.append((w[2], [], []))
            self.memo[key] = out
            return out
        if G.is_terminal(s):
            if j == i + 1 and isinstance(w, str) and G.mask(s) >> ord(w) & 1:
                out.append((k(w), [], []))
            return out
        if G.is_repeated(s) and s.attrs['max_count'].single().v is None:
            inner = [syms[-1] for syms, _ in G.rules(s)
                     if syms and syms[0] is s][0]
            for seq in self.repeats(inner, i, j, busy + (key,)):
                v = one(ListV('list', [(1, x[0]) for x in seq]))
                out.append((v, sum((x[1] for x in seq), []),
                            sum((x[2] for x in seq), [])))
                break
            self.memo[key] = out
            return out
        for syms, act in G.rules(s):
            for combo in self.combos(syms, i, j, busy + (key,)):
                out.append(self.apply(combo, act))
                break
            if len(out) >= 4:
                break
        self.memo[key] = out
        return out

    def repeats(self, inner, i, j, busy):
        if i == j:
            yield []
            return
        for e in sorted(self.ends.get((id(inner), i), ())):
            if e <= i or e > j:
                continue
            for r in self.results(inner, i, e, busy):
                for rest in self.repeats(inner, e, j, busy):
                    yield [r] + rest

    def combos(self, syms, i, j, busy):
        if not syms:
            if i == j:
                yield []
            return
        for e in sorted(self.ends.get((id(syms[0]), i), ()), reverse=True):
            if e > j:
                continue
            for r in self.results(syms[0], i, e, busy):
                for rest in self.combos(syms[1:], e, j, busy):
                    yield [r] + rest

    def apply(self, combo, act):
        I, G = self.I, self.G
        nodes = [c[0] for c in combo]
        comp = sum((c[1] for c in combo), [])
        faults = sum((c[2] for c in combo), [])
        if act is not None:
            self.ran[id(act)] = act
            saved = (I.pc, I.faults, I.tries, I.open, I.journal, I.frames)
            I.pc, I.faults, I.tries, I.open, I.journal = 1, [], [], [], []
            own = []

            def complain(I2, args, kwargs):
                nid = args[0].single()
                own.append((nid.v if isinstance(nid, K) else None, I.pc,
                            dict(kwargs)))
                return NONE
            r = I.call(one(act), [one(NatV('complain', complain)),
                                  one(TupV(nodes))], {})
            comp = comp + own
            faults = faults + list(I.faults)
            if I.pc == 0:
                r = None
            (I.pc, I.faults, I.tries, I.open, I.journal, I.frames) = saved
            if r is None:
                return (None, comp, faults)
            s = r.single()
            if isinstance(s, TupV):
                nodes = list(s.items)
            elif isinstance(s, K) and isinstance(s.v, tuple):
                nodes = [k(x) for x in s.v]
            elif isinstance(s, ListV):
                nodes = [v for _, v in s.entries]
            else:
                return (r, comp, faults)
        nodes = [v for v in nodes if v.single() is not G.SKIP]
        if not nodes:
            return (one(G.SKIP), comp, faults)
        if len(nodes) == 1:
            return (nodes[0], comp, faults)
        return (one(TupV(nodes)), comp, faults)
