"""As C09, for the extension headers (RFC 5789, 6265-8470, Fetch, LDP ...) and
for the syntax of directive and parameter arguments named by the known/*.csv
tables (spec/directives.txt)."""
from .grammar import CORE, EXT, Comparer
from ..values import O, K

LEVEL = 'proof'
ASSUMES = ['the Earley engine (_inner_parse) recognises exactly the language '
           'of the rules it is given',
           'spec/grammar.abnf and spec/directives.txt transcribe the '
           'specifications correctly']

LINK = {'anchor': 'URI-reference', 'rel': 'rel', 'rev': 'rel',
        'hreflang': 'Language-Tag', 'type': 'link-type',
        'title*': 'ext-value'}
BEARER = {'scope': 'scope', 'error': 'error',
          'error_description': 'error-description', 'error_uri': 'error-uri'}


def run(ctx):
    c = Comparer(ctx)
    M = c.M
    done = c.headers(lambda n: n not in CORE)
    for n in EXT:
        if n not in done:
            ctx.violation('%s:missing' % n, 'httpolice/known/header.csv',
                          'header %s has no grammar: malformed values go '
                          'unnoticed' % n)
    table = {}
    for line in open(ctx.spec('directives.txt')):
        if line.startswith('#') or not line.strip():
            continue
        t, key, rule = line.split()[:3]
        table.setdefault(t, {})[key.lower()] = rule
    for t, want in sorted(table.items()):
        got = {}
        tb = M.global_('httpolice.known', t)
        for nk, e in tb.attrs['raw_by_key'].single().entries.items():
            s = M.I.call_method(tb, 'syntax_for', [e[0]]).single()
            if isinstance(s, O):
                got[str(nk[1]).lower()] = s
        csv = 'httpolice/known/%s.csv' % t
        for key, rule in sorted(want.items()):
            if key not in got:
                ctx.violation('%s:%s:missing' % (t, key), csv,
                              'no argument syntax for %s' % key)
            else:
                c.same(got[key], rule, '%s:%s' % (t, key), csv)
        for key in sorted(set(got) - set(want)):
            ctx.violation('%s:%s:unspecified' % (t, key), csv,
                          'argument syntax of %s is not in '
                          'spec/directives.txt' % key)
    # Symbols used by parse() inside grammar actions and rules.
    for nk, e in M.header_k.attrs['raw_by_key'].single().entries.items():
        s = M.I.call_method(M.header_k, 'syntax_for', [e[0]]).single()
        if isinstance(s, O):
            M.G.semantic_notices(s)
    from ..rules import run_exchange
    run_exchange(M)
    link, bearer, alt = set(), set(), 0
    I = M.I
    for fid, dp, sym, name, pc, site in M.parse_events:
        where = '%s:%s (%s)' % (site[0], site[2], site[1])
        if not isinstance(sym, O):
            continue
        if fid == 1257:
            alt += 1
            c.same(sym, 'alt-authority', 'alt-authority', where)
        elif fid == 1266 and dp[0] == 'md' and dp[2][0] == 'k':
            key = dp[2][2]
            if key in BEARER:
                bearer.add(key)
                c.same(sym, BEARER[key], 'Bearer %s' % key, where)
            else:
                ctx.violation('bearer:%s' % key, where,
                              'unexpected parameter %s' % key)
        elif fid == 1158 and site[1] == '_process_params' or \
                fid == 1158 and 'rfc8288' in site[0]:
            # Which parameter names lead here?
            hit = 0
            for key, rule in LINK.items():
                g = assume_key(I, pc, key)
                if g:
                    hit += 1
                    link.add(key)
                    c.same(sym, rule, 'Link %s' % key, where)
            if not hit:
                ctx.violation('link:%s' % name, where,
                              'unexpected Link parameter parsed as %s' % name)
    for key in sorted(set(LINK) - link):
        ctx.violation('link:%s:missing' % key, 'httpolice/syntax/rfc8288.py',
                      'the Link parameter %s is not parsed' % key)
    for key in sorted(set(BEARER) - bearer):
        ctx.violation('bearer:%s:missing' % key, 'httpolice/response.py',
                      'the Bearer parameter %s is not parsed' % key)
    if not alt:
        ctx.violation('alt-authority:missing', 'httpolice/syntax/rfc7838.py',
                      'alt-authority is not parsed')
    c.finish()
    ctx.cover(discharged=c.n - len({v['key'] for v in ctx.violations}),
              checker_cmd='python3 check.py C10',
              trusted_base=['sa/interp.py', 'sa/lang.py', 'sa/abnf.py',
                            'spec/grammar.abnf', 'spec/directives.txt'])


def assume_key(I, g, key):
    """Can `g` hold when the parameter name compared in it is `key`?"""
    m = I.m
    eqs = {}
    for v in m.support(g):
        a = m.atoms[v]
        if a[0] == 'eq':
            c = a[2] if a[2][0] == 'k' else a[1]
            if c[0] == 'k':
                eqs.setdefault(repr(a[1] if c is a[2] else a[2]),
                               {})[v] = str(c[-1]).lower()
    for p, vs in eqs.items():
        for v, val in vs.items():
            g = m.restrict(g, v, val == key)
            if not g:
                return 0
    return g
