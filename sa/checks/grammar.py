"""Language equivalence of the combinator grammar with the spec's ABNF."""
from ..abnf import ABNF
from ..lang import Letters, SymbolLang, product_diff, show_word, alphabet
from ..values import K, O
from ..model import AnchorError

# Headers defined by the core HTTP/1.1 documents (RFC 7230-7235).
CORE = '''accept accept-charset accept-encoding accept-language accept-ranges
 age allow authorization cache-control connection content-encoding
 content-language content-length content-location content-range content-type
 date etag expect expires host if-match if-modified-since if-none-match
 if-range if-unmodified-since last-modified location max-forwards pragma
 proxy-authenticate proxy-authorization range referer retry-after server te
 trailer transfer-encoding upgrade user-agent vary via www-authenticate
 warning'''.split()


class Comparer:

    def __init__(self, ctx):
        self.ctx = ctx
        self.M = ctx.model()
        self.M.install_rules()
        self.letters = Letters()
        self.spec = ABNF(ctx.spec('grammar.abnf'), self.letters)
        self.code = SymbolLang(self.M.G, self.letters)
        self.by_low = {}
        for n in self.spec.rules:
            low = n.lower()
            if low not in self.by_low or n[0].isupper():
                self.by_low[low] = n
        self.n = 0
        self.symbols = set()
        self.states = 0
        self.recs = {}

    def same(self, sym, rule, what, where):
        """Compare the language of `sym` with that of spec rule `rule`."""
        ctx = self.ctx
        self.n += 1
        for i in self.M.G.reachable(sym):
            self.symbols.add(i)
        try:
            c = self.code.dfa(sym)
        except ValueError as e:
            ctx.violation('%s:irregular' % what, where,
                          'the grammar of %s cannot be analysed: %s'
                          % (what, e))
            return
        s = self.spec.dfa(rule)
        self.states += len(c)
        self.recs.update(self.code.recursive)
        x = product_diff(c, s)
        if x is not None:
            ctx.violation(
                '%s:accepts' % what, where,
                '%s accepts %s, which %s of spec/grammar.abnf does not allow'
                % (what, show_word(x, self.letters.names), rule))
        y = product_diff(s, c)
        if y is not None:
            ctx.violation(
                '%s:rejects' % what, where,
                '%s does not accept %s, which %s of spec/grammar.abnf allows'
                % (what, show_word(y, self.letters.names), rule))

    def recursive(self):
        """The bodies of the recursive symbols met."""
        for name, syms in sorted(self.code.recursive.items()):
            for o in list(syms):
                self.n += 1
                c = self.code.body(o)
                if name not in self.spec.rules:
                    self.ctx.violation('%s:recursive' % name, 'grammar',
                                       'recursive symbol %s is not in the '
                                       'specification' % name)
                    continue
                self.spec.recursive.add(name)
                s = self.spec.body(name)
                for a, b, w in ((c, s, 'accepts'), (s, c, 'rejects')):
                    x = product_diff(a, b)
                    if x is not None:
                        self.ctx.violation(
                            '%s:%s' % (name, w), self.where(o),
                            'the recursive symbol %s %s %s contrary to '
                            'spec/grammar.abnf' % (
                                name, w, show_word(x, self.letters.names)))

    def where(self, o):
        for mn, mod in self.M.I.modules.items():
            if '.syntax.' not in mn:
                continue
            for n, v in getattr(mod, 'ns', {}).items():
                if v.single() is o:
                    return '%s.%s' % (mn, n)
        return str(self.M.G.name(o))

    def syntax_of(self, table, key):
        t = self.M.known.get(table)
        if t is None:
            raise AnchorError('httpolice.known.%s' % table)
        t = t.alts[0][1]
        for nk, e in t.attrs['raw_by_key'].single().entries.items():
            if str(nk[1]).lower() == key.lower():
                r = self.M.I.call_method(t, 'syntax_for', [e[0]])
                return True, r.single()
        return False, None

    def headers(self, want):
        done = set()
        M = self.M
        t = M.header_k
        for nk, e in t.attrs['raw_by_key'].single().entries.items():
            name = str(nk[1])
            low = name.lower()
            if not want(low):
                continue
            s = M.I.call_method(t, 'syntax_for', [e[0]]).single()
            rule = self.by_low.get(low)
            if not isinstance(s, O):
                continue
            done.add(low)
            if rule is None or not rule[0].isupper() and low not in \
                    self.by_low:
                self.ctx.violation('%s:unspecified' % low,
                                   'httpolice/known/header.csv',
                                   'header %s has a grammar here but none in '
                                   'spec/grammar.abnf' % name)
                continue
            self.same(s, rule, low, self.where(s))
        return done

    def finish(self):
        self.recursive()
        self.ctx.cover(obligations=self.n, symbols_analysed=len(self.symbols),
                       automaton_states=self.states,
                       recursive_symbols=sorted(self.code.recursive))


def header_names(cmp):
    """Headers that must have a grammar."""
    return [n.lower() for n in cmp.spec.rules
            if n[0].isupper() and n.lower() in ALL_HEADERS]


EXT = '''accept-patch accept-post access-control-allow-credentials
 access-control-allow-headers access-control-allow-methods
 access-control-allow-origin access-control-expose-headers
 access-control-max-age access-control-request-headers
 access-control-request-method alt-svc alt-used content-disposition
 cross-origin-resource-policy forwarded http2-settings httpolice-silence link
 origin prefer preference-applied strict-transport-security
 x-content-type-options'''.split()
ALL_HEADERS = set(CORE) | set(EXT)
