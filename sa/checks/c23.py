"""Semantic complaints of header parsing.  (A) The views of httpolice.header and
the semantic actions of the grammar are interpreted abstractly on derivations
of a family of words for every header, and the notices reported are compared
with spec/values.txt.  (B) For every header, and for the syntax of every
directive or parameter, the set of words whose parse passes a construct that
reports notice X (a regular language) is compared with that of the annotated
ABNF (spec/marks.txt)."""
import itertools

from ..abnf import ABNF
from ..derive import Derive
from ..lang import Letters, SymbolLang, product_diff, show_word
from ..marks import CodeMarks, SpecMarks
from ..values import O
from .grammar import CORE, EXT
from .values import evaluate

LEVEL = 'other'
ASSUMES = (
    'the parser applies the semantic actions of the derivation it finds '
    '(C30); where a word has several derivations, all are equivalent',
    'spec/marks.txt and spec/values.txt state the conditions of the RFCs '
    'correctly',
)

NIDS = (1014, 1015, 1017, 1107, 1108, 1119, 1133, 1148, 1151, 1158, 1196,
        1222, 1223, 1225, 1226, 1253, 1254, 1256, 1257, 1282, 1307, 1308,
        1309)


class Run:

    def __init__(self, ctx):
        self.ctx = ctx
        self.M = ctx.model()
        self.M.install_parse()
        self.I, self.G = self.M.I, self.M.G
        self.D = Derive(self.M)
        raw = self.M.header_k.attrs['raw_by_key'].single().entries
        self.raw = {str(nk[1]).lower(): e[0] for nk, e in raw.items()}
        self.sy = {}

    def syntax(self, header):
        if header not in self.sy:
            key = self.raw.get(header)
            s = self.M.I.call_method(self.M.header_k, 'syntax_for',
                                     [key]).single() if key else None
            self.sy[header] = s if isinstance(s, O) else None
        return self.sy[header]

    def table_syntax(self, table, key):
        tb = self.M.global_('httpolice.known', table)
        for nk, e in tb.attrs['raw_by_key'].single().entries.items():
            if str(nk[1]).lower() == key:
                s = self.I.call_method(tb, 'syntax_for', [e[0]]).single()
                return s if isinstance(s, O) else None


def kinds(run):
    """kind_of(symbol, nid): on which part of its language does the symbol
    complain?"""
    D, G = run.D, run.G
    memo = {}

    def fires(o, w, nid):
        rs = D.evaluate(o, w)
        if not rs:
            return None
        return any(n == nid and g != 0 for n, g, _ in rs[0][1])

    def kind_of(o, nid):
        key = (id(o), nid)
        if key in memo:
            return memo[key]
        memo[key] = r = kind(o, nid)
        return r

    def kind(o, nid):
        if nid not in G.notices.get(id(o), {}):
            return None
        if nid in (1014, 1015):
            ws = [list(w) for n in range(4)
                  for w in itertools.product(' \t', repeat=n)]
            f = [(w, fires(o, w, nid)) for w in ws]
            f = [(w, x) for w, x in f if x is not None]
            if all(x for _, x in f):
                return 'always'
            if all(x == (w != []) for w, x in f):
                return 'nonempty'
            if all(x == (w != [' ']) for w, x in f):
                return 'not-one-space'
        elif nid == 1017:
            f = [(chr(c), fires(o, ['\\', chr(c)], nid))
                 for c in range(256)]
            return 'last-not:' + ''.join(c for c, x in f if x is False)
        elif nid == 1119:
            f = [(w, fires(o, list('"%s"' % w), nid))
                 for w in ('', 'a', '\\', 'a\\b', '!', 'ab\\', '\xff')]
            f = [(w, x) for w, x in f if x is not None]
            if all(x == ('\\' in w) for w, x in f):
                return 'has-backslash'
        return 'always'
    return kind_of


def placement(run):
    ctx, M, G = run.ctx, run.M, run.G
    letters = Letters()
    spec = ABNF(ctx.spec('grammar.abnf'), letters)
    code = SymbolLang(G, letters)
    marks = {}
    for line in open(ctx.spec('marks.txt')):
        if line.startswith('#') or not line.strip():
            continue
        rule, nid, kind = line.split(None, 2)
        marks.setdefault(rule, []).append((int(nid), kind.strip()))
    cm = CodeMarks(G, code, letters, kinds(run))
    sm = SpecMarks(spec, marks, letters)
    low = {}
    for n in spec.rules:
        if n.lower() not in low or n[0].isupper():
            low[n.lower()] = n
    todo = []
    for h in CORE + EXT:
        if h in low and run.syntax(h) is not None:
            todo.append((h, run.syntax(h), low[h]))
    for line in open(ctx.spec('directives.txt')):
        if line.startswith('#') or not line.strip():
            continue
        t, key, rule = line.split()[:3]
        s = run.table_syntax(t, key.lower())
        if s is not None:
            todo.append(('%s %s' % (t, key), s, rule))
    n = 0
    for what, sym, rule in todo:
        G.semantic_notices(sym)
        extra = {x for i in G.reachable(sym) for x in G.notices.get(i, {})}
        for nid in sorted(set(NIDS) | {x for x in extra if x}):
            c, s = cm.sub(sym, nid), sm.sub(rule, nid)
            if not c.acc and not s.acc:
                continue
            n += 1
            for a, b, msg in ((c, s, 'may report notice %s on %s, which the '
                               'specification does not provide for'),
                              (s, c, 'does not consider notice %s on %s, '
                               'which the specification provides for')):
                x = product_diff(a, b)
                if x is not None:
                    ctx.violation(
                        '%s:%s:%s' % (what, nid, msg.split()[0]), what,
                        '%s: parsing %s' % (what, msg % (
                            nid, show_word(x, letters.names))))
    # bodies of recursive symbols
    for name, syms in sorted(code.recursive.items()):
        for o in list(syms):
            for nid in NIDS:
                if not cm.carries(o, nid) or name not in spec.rules:
                    continue
                n += 1
                c, s = cm.body(o, nid), sm.body(name, nid)
                for a, b in ((c, s), (s, c)):
                    x = product_diff(a, b)
                    if x is not None:
                        ctx.violation('%s:%s' % (name, nid), name,
                                      'notice %s in %s is not as specified: '
                                      '%s' % (nid, name, show_word(
                                          x, letters.names)))
    ctx.cover(mark_languages=n, syntaxes=len(todo))


def words(ctx):
    n = 0
    for name, f, ns, v, got_n, got_v, W in evaluate(ctx):
        n += 1
        if got_n != ns:
            ctx.violation(
                '%s:%s:%s' % (name, f[:60], ','.join(got_n)), name,
                'parsing "%s: %s" reports %s, but %s is specified'
                % (name, f, ' '.join(got_n) or 'nothing',
                   ' '.join(ns) or 'nothing'))
    ctx.cover(words=n)


def run(ctx):
    placement(Run(ctx))
    ctx.M = None
    words(ctx)
