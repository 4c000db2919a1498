"""Regular languages of grammar symbols (finite automata over octets).

Recursive nonterminals (nested comments) are treated as opaque letters whose
bodies are compared separately.
"""
from collections import deque

ALL = (1 << 256) - 1


class DFA:
    """trans[q] = list of (mask, target); masks of one state are disjoint."""
    __slots__ = ('trans', 'acc', 'start')

    def __init__(self, trans, acc, start=0):
        self.trans = trans
        self.acc = acc
        self.start = start

    def __len__(self):
        return len(self.trans)


class NFA:

    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add_dfa(self, d):
        base = len(self.eps)
        for _ in d.trans:
            self.new()
        end = self.new()
        for q, ts in enumerate(d.trans):
            for mk, t in ts:
                self.tr[base + q].append((mk, base + t))
            if q in d.acc:
                self.eps[base + q].append(end)
        return base + d.start, end


def split_masks(masks):
    """Partition of the union of `masks` refining each of them."""
    parts = []
    for mk in masks:
        new = []
        rest = mk
        for p in parts:
            i = p & mk
            if i:
                new.append(i)
                if p & ~mk:
                    new.append(p & ~mk)
                rest &= ~p
            else:
                new.append(p)
        if rest:
            new.append(rest)
        parts = new
    return parts


def closure(n, states):
    seen = set(states)
    todo = list(states)
    while todo:
        q = todo.pop()
        for t in n.eps[q]:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return frozenset(seen)


def determinize(n, start, end, limit=60000):
    s0 = closure(n, [start])
    ids = {s0: 0}
    trans = []
    acc = set()
    todo = deque([s0])
    while todo:
        s = todo.popleft()
        edges = [e for q in s for e in n.tr[q]]
        if end in s:
            acc.add(ids[s])
        out = {}
        for p in split_masks({mk for mk, _ in edges}):
            tgt = closure(n, {t for mk, t in edges if mk & p})
            i = ids.get(tgt)
            if i is None:
                i = ids[tgt] = len(ids)
                if i > limit:
                    raise OverflowError('automaton too large')
                todo.append(tgt)
            out[i] = out.get(i, 0) | p
        trans.append([(mk, t) for t, mk in out.items()])
    return minimize(DFA(trans, acc))


def minimize(d):
    # Remove states that cannot reach acceptance.
    n = len(d.trans)
    rev = [[] for _ in range(n)]
    for q, ts in enumerate(d.trans):
        for _, t in ts:
            rev[t].append(q)
    live = set(d.acc)
    todo = list(live)
    while todo:
        q = todo.pop()
        for r in rev[q]:
            if r not in live:
                live.add(r)
                todo.append(r)
    if d.start not in live:
        return DFA([[]], set(), 0)
    cls = {q: (1 if q in d.acc else 0) for q in live}
    count = len(set(cls.values()))
    while True:
        sig = {}
        new = {}
        for q in sorted(live):
            m = {}
            for mk, t in d.trans[q]:
                if t in live:
                    m[cls[t]] = m.get(cls[t], 0) | mk
            key = (cls[q], tuple(sorted(m.items())))
            new[q] = sig.setdefault(key, len(sig))
        cls = new
        if len(sig) == count:
            break
        count = len(sig)
    # renumber in BFS order: a canonical form
    rep = {}
    for q in sorted(live):
        rep.setdefault(cls[q], q)
    order = {cls[d.start]: 0}
    todo = deque([cls[d.start]])
    trans = []
    acc = set()
    while todo:
        c = todo.popleft()
        q = rep[c]
        m = {}
        for mk, t in d.trans[q]:
            if t in live:
                m[cls[t]] = m.get(cls[t], 0) | mk
        out = []
        for t, mk in sorted(m.items(), key=lambda x: x[1] & -x[1]):
            if t not in order:
                order[t] = len(order)
                todo.append(t)
            out.append((mk, order[t]))
        trans.append(out)
        if q in d.acc:
            acc.add(order[c])
    return DFA(trans, acc)


def letter(mask):
    return DFA([[(mask, 1)], []], {1})


EPS = DFA([[]], {0})
NOTHING = DFA([[]], set())


def concat(ds):
    if not ds:
        return EPS
    if len(ds) == 1:
        return ds[0]
    n = NFA()
    s0 = prev = n.new()
    for d in ds:
        s, e = n.add_dfa(d)
        n.eps[prev].append(s)
        prev = e
    return determinize(n, s0, prev)


def union(ds):
    if len(ds) == 1:
        return ds[0]
    n = NFA()
    s, e = n.new(), n.new()
    for d in ds:
        a, b = n.add_dfa(d)
        n.eps[s].append(a)
        n.eps[b].append(e)
    return determinize(n, s, e)


def repeat(d, lo, hi):
    n = NFA()
    s0 = prev = n.new()
    for _ in range(lo):
        s, e = n.add_dfa(d)
        n.eps[prev].append(s)
        prev = e
    end = n.new()
    n.eps[prev].append(end)
    if hi is None:
        s, e = n.add_dfa(d)
        hub = n.new()
        n.eps[prev].append(hub)
        n.eps[hub].append(s)
        n.eps[e].append(hub)
        n.eps[hub].append(end)
    else:
        for _ in range(hi - lo):
            s, e = n.add_dfa(d)
            n.eps[prev].append(s)
            n.eps[e].append(end)
            prev = e
    return determinize(n, s0, end)


def product_diff(a, b, limit=200000):
    """A shortest word in L(a) but not in L(b), or None."""
    seen = {(a.start, b.start)}
    todo = deque([(a.start, b.start, ())])
    while todo:
        p, q, w = todo.popleft()
        if p in a.acc and (q is None or q not in b.acc):
            return w
        for mk, t in a.trans[p]:
            rest = mk
            if q is not None:
                for mk2, t2 in b.trans[q]:
                    i = mk & mk2
                    if i:
                        rest &= ~mk2
                        if (t, t2) not in seen:
                            seen.add((t, t2))
                            todo.append((t, t2, w + (i,)))
            if rest and (t, None) not in seen:
                seen.add((t, None))
                todo.append((t, None, w + (rest,)))
    return None


def difference(a, b):
    """DFA of L(a) - L(b)."""
    ids = {(a.start, b.start): 0}
    todo = deque([(a.start, b.start)])
    trans, acc = [], set()
    while todo:
        p, q = todo.popleft()
        me = len(trans)
        if p in a.acc and (q is None or q not in b.acc):
            acc.add(me)
        out = []
        for mk, t in a.trans[p]:
            rest = mk
            if q is not None:
                for mk2, t2 in b.trans[q]:
                    i = mk & mk2
                    if i:
                        rest &= ~mk2
                        k = (t, t2)
                        if k not in ids:
                            ids[k] = len(ids)
                            todo.append(k)
                        out.append((i, ids[k]))
            if rest:
                k = (t, None)
                if k not in ids:
                    ids[k] = len(ids)
                    todo.append(k)
                out.append((rest, ids[k]))
        trans.append(out)
    return minimize(DFA(trans, acc))


def show_word(w, names=()):
    """A readable rendering of a word given as a tuple of masks."""
    out = []
    for mk in w:
        low = mk & ALL
        if low:
            # prefer something printable
            best = None
            for i in list(range(97, 123)) + list(range(48, 58)) + \
                    list(range(33, 127)) + list(range(256)):
                if low >> i & 1:
                    best = i
                    break
            out.append(repr(chr(best))[1:-1])
        else:
            i = (mk >> 256).bit_length() - 1
            out.append('<%s>' % (names[i] if i < len(names) else i))
    return '"' + ''.join(out) + '"'


def max_len(d):
    """Length of the longest word, or None when unbounded."""
    state = {}

    def rec(q):
        if q in state:
            return state[q]
        state[q] = 'busy'
        best = 0 if q in d.acc else -1
        for _, t in d.trans[q]:
            r = rec(t)
            if r == 'busy' or r is None:
                state[q] = None
                return None
            if r >= 0:
                best = max(best, r + 1)
        state[q] = best
        return best
    return rec(d.start)


def alphabet(d):
    m = 0
    for ts in d.trans:
        for mk, _ in ts:
            m |= mk
    return m


class Letters:
    """Numbering of opaque (recursive) symbols."""

    def __init__(self):
        self.names = []

    def get(self, name):
        if name not in self.names:
            self.names.append(name)
        return letter(1 << (256 + self.names.index(name)))


class SymbolLang:
    """Languages of the symbols of an inferred combinator grammar."""

    def __init__(self, G, letters):
        self.G = G
        self.letters = letters
        self.memo = {}
        self.busy = []
        self.recursive = {}      # name -> [symbols]

    def dfa(self, o):
        r = self.memo.get(id(o))
        if r is not None:
            return r
        G = self.G
        if G.is_terminal(o):
            mk = G.mask(o)
            r = letter(mk) if mk else NOTHING
            self.memo[id(o)] = r
            return r
        if id(o) in self.busy:
            n = G.name(o) or 'anonymous'
            self.recursive.setdefault(n, [])
            if not any(x is o for x in self.recursive[n]):
                self.recursive[n].append(o)
            return self.letters.get(n)
        if self.is_rec(o):
            n = G.name(o) or 'anonymous'
            self.recursive.setdefault(n, [])
            if not any(x is o for x in self.recursive[n]):
                self.recursive[n].append(o)
            r = self.letters.get(n)
            self.memo[id(o)] = r
            return r
        return self.body(o)

    def is_rec(self, o):
        """Is the symbol on a cycle other than its own unrolling?"""
        if self.G.is_repeated(o):
            return False
        rec = self.__dict__.get('_rec')
        if rec is None:
            rec = self._rec = {}
        r = rec.get(id(o))
        if r is None:
            seen = set()
            todo = list(self.succ(o))
            r = False
            while todo:
                x = todo.pop()
                if x is o:
                    r = True
                    break
                if id(x) in seen:
                    continue
                seen.add(id(x))
                todo.extend(self.succ(x))
            rec[id(o)] = r
        if not r:
            return False
        return self.G.name(o) is not None

    def succ(self, o):
        if self.G.is_terminal(o):
            return []
        return [s for syms, _ in self.G.rules(o) for s in syms
                if s is not o or not self.G.is_repeated(o)]

    def body(self, o):
        G = self.G
        self.busy.append(id(o))
        try:
            if G.is_repeated(o):
                # The rules as generated by RepeatedNonterminal: `o` itself
                # may only occur leftmost (a loop) or rightmost.
                base, left, right = [], [], []
                for syms, _ in G.rules(o):
                    occ = [i for i, s in enumerate(syms) if s is o]
                    if not occ:
                        base.append(concat([self.dfa(s) for s in syms]))
                    elif occ == [0]:
                        left.append(concat([self.dfa(s)
                                            for s in syms[1:]]))
                    elif occ == [len(syms) - 1]:
                        right.append(concat([self.dfa(s)
                                             for s in syms[:-1]]))
                    else:
                        raise ValueError('irregular repetition')
                r = union(base) if base else NOTHING
                if right:
                    r = concat([repeat(union(right), 0, None), r])
                if left:
                    if right:
                        raise ValueError('irregular repetition')
                    r = concat([r, repeat(union(left), 0, None)])
            else:
                alts = []
                singles = 0
                for syms, _ in G.rules(o):
                    if len(syms) == 1 and G.is_terminal(syms[0]):
                        singles |= G.mask(syms[0])
                        continue
                    alts.append(concat([self.dfa(s) for s in syms]))
                if singles:
                    alts.append(letter(singles))
                r = union(alts) if alts else NOTHING
        finally:
            self.busy.pop()
        self.memo[id(o)] = r
        return r
