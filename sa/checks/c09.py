"""Every octet string is accepted by the parser combinators exactly when the
ABNF of RFC 7230-7235, 3986 and 5646 allows it: the grammar object graph built
by httpolice/syntax/*.py is evaluated abstractly, each symbol is compiled to a
minimal DFA over octets and compared for language equality (both inclusions)
with the DFA of the ABNF transcribed in spec/grammar.abnf."""
from .grammar import CORE, Comparer
from ..values import O

LEVEL = 'proof'
ASSUMES = ['the Earley engine (_inner_parse) recognises exactly the language '
           'of the rules it is given',
           'spec/grammar.abnf transcribes the RFCs correctly']

# notice reported when the construct does not parse -> rules allowed
SITES = {1292: ('method',), 1293: ('field-name',), 1294: ('reason-phrase',),
         1045: ('normal-target', 'options-target', 'connect-target')}


def run(ctx):
    c = Comparer(ctx)
    done = c.headers(lambda n: n in CORE)
    for n in CORE:
        if n not in done:
            ctx.violation('%s:missing' % n, 'httpolice/known/header.csv',
                          'header %s has no grammar: malformed values go '
                          'unnoticed' % n)
    from ..rules import run_exchange
    M = c.M
    run_exchange(M)
    seen = {}
    for fid, dp, sym, name, pc, site in M.parse_events:
        if fid in SITES and isinstance(sym, O):
            seen.setdefault(fid, []).append((sym, name, site))
    for fid, rules in SITES.items():
        if fid not in seen:
            ctx.violation('site:%s:missing' % fid, 'httpolice',
                          'no construct is parsed with failure notice %s'
                          % fid)
        used = []
        for sym, name, site in seen.get(fid, ()):
            where = '%s:%s (%s)' % (site[0], site[2], site[1])
            rule = name if name in rules else rules[0]
            cands = [r for r in rules
                     if c.code.dfa(sym) == c.spec.dfa(r) or
                     same_lang(c, sym, r)]
            if cands:
                used.append(cands[0])
                c.n += 1
            else:
                c.same(sym, rule, 'site:%s:%s' % (fid, rule), where)
                used.append(rule)
        for r in rules:
            if fid in seen and r not in used:
                ctx.violation('site:%s:%s' % (fid, r), 'httpolice',
                              'nothing is parsed as %s with failure notice '
                              '%s' % (r, fid))
    c.finish()
    ctx.cover(discharged=c.n - len({v['key'] for v in ctx.violations}),
              checker_cmd='python3 check.py C09',
              trusted_base=['sa/interp.py', 'sa/lang.py', 'sa/abnf.py',
                            'spec/grammar.abnf'])


def same_lang(c, sym, r):
    from ..lang import product_diff
    a, b = c.code.dfa(sym), c.spec.dfa(r)
    return product_diff(a, b) is None and product_diff(b, a) is None
