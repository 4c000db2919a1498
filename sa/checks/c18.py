"""Tables of known names, by constant evaluation of httpolice.known: the CSV
data, the loader and every lookup method are interpreted abstractly on each
registered key (and on a key that is in no table), and each answer is compared
with the reviewed registry facts of spec/known.txt."""
import ast
import json

from ..model import AnchorError
from ..values import K, O, one, DictV, B

LEVEL = 'other'
ASSUMES = (
    'spec/known.txt states the facts of the registries and specifications '
    'cited (reviewed by hand against them).',
    'the abstract interpreter models the csv, pkgutil and str operations the '
    'loader uses as the standard library defines them.',
)
MIN_KEYS = 900

# table -> (key class, [(query, mode)]);  mode: 'truth' when callers only test
# truth, 'tri' when a caller tells False from unknown.
TABLES = {
    'header': ('FieldName', [
        ('is_bad_for_connection', 'truth'), ('is_bad_for_trailer', 'truth'),
        ('bad_quoted_delims', 'pair'), ('is_for_request', 'tri'),
        ('is_for_response', 'tri'), ('is_precondition', 'truth'),
        ('is_proactive_conneg', 'truth'),
        ('is_representation_metadata', 'truth'), ('rule_for', 'tri'),
        ('is_deprecated', 'truth'), ('syntax_for', 'some')]),
    'method': ('Method', [
        ('defines_body', 'tri'), ('is_cacheable', 'tri'),
        ('is_safe', 'truth')]),
    'status_code': ('StatusCode', [('is_cacheable', 'tri')]),
    'cache_directive': ('CacheDirective', [
        ('argument_required', 'truth'), ('no_argument', 'truth'),
        ('token_preferred', 'truth'), ('quoted_string_preferred', 'truth'),
        ('is_for_request', 'tri'), ('is_for_response', 'tri'),
        ('syntax_for', 'some')]),
    'forwarded_param': ('ForwardedParam', [
        ('argument_required', 'truth'), ('no_argument', 'truth'),
        ('syntax_for', 'some')]),
    'alt_svc_param': ('AltSvcParam', [
        ('argument_required', 'truth'), ('no_argument', 'truth'),
        ('syntax_for', 'some')]),
    'hsts_directive': ('HSTSDirective', [
        ('argument_required', 'truth'), ('no_argument', 'truth'),
        ('syntax_for', 'some')]),
    'preference': ('Preference', [
        ('argument_required', 'truth'), ('no_argument', 'truth'),
        ('syntax_for', 'some')]),
    'media_type': ('MediaType', [
        ('is_deprecated', 'truth'), ('is_json', 'truth'),
        ('is_xml', 'truth'), ('is_multipart', 'truth'),
        ('is_patch', 'tri')]),
    'product': ('ProductName', [('is_library', 'truth')]),
    'auth_scheme': ('AuthScheme', []),
    'content_coding': ('ContentCoding', []),
    'range_unit': ('RangeUnit', []),
    'transfer_coding': ('TransferCoding', []),
    'upgrade_token': ('UpgradeToken', []),
    'warn_code': ('WarnCode', []),
}
FIELDS = {'method': ['idempotent'], 'forwarded_param': ['description']}
NOCASE = ('FieldName', 'CacheDirective', 'ForwardedParam', 'HSTSDirective',
          'Preference', 'MediaType', 'AuthScheme', 'ContentCoding',
          'RangeUnit', 'TransferCoding')
CASE = ('Method',)


# what is known about media types by their form alone (RFC 6839, RFC 2046)
FORMS = {'is_json': lambda k: k.lower().endswith('+json'),
         'is_xml': lambda k: k.lower().endswith('+xml'),
         'is_multipart': lambda k: k.lower().startswith('multipart/')}


def forms(M, tv, table, queries):
    """Unregistered names made of every string the queries mention."""
    cs = {'+json', '+xml', 'multipart/', 'json', 'xml', 'multipart'}
    for q, _ in queries:
        f = tv.cls.lookup(q)
        for _, x in f.alts:
            for c in ast.walk(x.node):
                if isinstance(c, ast.Constant) and \
                        isinstance(c.value, str) and len(c.value) < 40:
                    cs.add(c.value)
    out = set()
    for c in cs:
        b = c.strip('/+')
        for k in ('x-q/' + c, 'x-q/y' + c, 'x-q/y+' + b, 'x-q/y' + c + 'z',
                  'x-q/y+' + b + '+z', b + '/x-q', 'x-' + b + '/x-q',
                  b + 'x/x-q', 'x-q/' + b + '/y', 'x-q/' + c + '/y',
                  'x-q/y+' + b + ';a=b'):
            out |= {k, k.upper(), k.title()}
    return sorted(out)


class Eval:

    def __init__(self, M):
        self.M, self.I = M, M.I
        self.ns = M.known

    def conc(self, v):
        """The constant a fully evaluated value stands for."""
        alts = [(g, s) for g, s in v.alts if g]
        if len(alts) != 1:
            raise AnchorError('not a constant: %r' % (v,))
        s = alts[0][1]
        if isinstance(s, B):
            if s.b in (0, 1):
                return bool(s.b)
            raise AnchorError('not decided: %r' % (s,))
        if isinstance(s, K):
            return s.v
        if isinstance(s, O):
            if s.cls.meta.get('enum'):
                return str(s.label).rpartition('.')[2]
            if s.prim is not None:
                return self.conc(s.prim)
            return s
        from ..values import TupV
        if isinstance(s, TupV):
            return tuple(self.conc(x) for x in s.items)
        return s

    def key(self, cls, raw):
        k = K(raw)
        return self.I.call(one(self.M.global_(
            'httpolice.structure', cls)), [one(k)], {})

    def attempt(self, f, conv=None):
        n = len(self.I.faults)
        self.I.pc = 1
        v = f()
        if self.I.pc == 0 or len(self.I.faults) > n:
            self.I.pc = 1
            return ('raises', [str(x[0]) for x in self.I.faults[n:]])
        return (conv or self.conc)(v)


def shape(mode, v):
    if isinstance(v, tuple) and v and v[0] == 'raises':
        return 'raises'
    if mode == 'truth':
        return bool(v)
    if mode == 'some':
        return v is not None
    if mode == 'pair':
        return [bool(x) for x in v]
    return v


def facts(E, M, table, tv, cls, queries, raw):
    I = E.I
    r = {}
    kv = E.key(cls, raw)
    for q, mode in queries:
        if tv.cls.lookup(q) is None:
            raise AnchorError('%s.%s' % (table, q))
        x = E.attempt(lambda: I.call_method(tv, q, [kv]))
        x = shape(mode, x)
        if x not in (None, False) and x != [False, False] or \
                (mode == 'tri' and x is False):
            r[q] = x
    if cls == 'ProductName':        # never shown as a known name
        return r
    t = E.attempt(lambda: I.call(one(E.ns['title'].single()), [kv], {}))
    if t:
        r['title'] = t
    tc = E.attempt(lambda: I.call(one(E.ns['title'].single()),
                                  [kv, one(K(True))], {}))
    if tc:
        r['full_title'] = tc
    c = E.attempt(lambda: I.call(one(E.ns['citation'].single()), [kv], {}))
    if isinstance(c, O):
        r['cite'] = E.attempt(lambda: I.getattr(one(c), 'url'))
    elif c is not None:
        r['cite'] = str(c)
    for f in FIELDS.get(table, ()):
        d = E.attempt(lambda: I.call_method(tv, 'get', [kv]),
                      lambda v: v.single())
        if isinstance(d, DictV):
            e = d.entries.get(('k', f))
            if e is not None:
                r[f] = E.conc(e[2])
    return r


def all_tables(M):
    E = Eval(M)
    r = {}
    for table, (cls, queries) in TABLES.items():
        tv = E.ns.get(table)
        if tv is None:
            raise AnchorError('httpolice.known.' + table)
        tv = tv.single()
        raw = tv.attrs['raw_by_key'].single()
        rows = {}
        for e in list(raw.entries.values()):
            k = E.conc(e[0])
            rows[k] = facts(E, M, table, tv, cls, queries, k)
        r[table] = (tv, rows)
    return E, r


def run(ctx):
    M = ctx.model()
    E, tabs = all_tables(M)
    I = E.I
    spec = {}
    table = None
    with open(ctx.spec('known.txt'), encoding='utf-8') as f:
        for line in f:
            line = line.rstrip('\n')
            if line.startswith('['):
                if line.endswith(']') and ',' not in line:
                    table = line[1:-1]
                    spec[table] = {}
                    continue
                k, d = json.loads(line)
                spec[table][k] = d
    n = 0
    for table, (tv, rows) in tabs.items():
        cls, queries = TABLES[table]
        want = spec[table]
        where = 'httpolice/known/%s.csv' % table
        for k in want:
            n += 1
            if k not in rows:
                ctx.violation('%s:%s:missing' % (table, k), where,
                              '%s is not in the table' % k)
                continue
            for fact in sorted(set(want[k]) | set(rows[k])):
                a, b = rows[k].get(fact), want[k].get(fact)
                if isinstance(a, tuple):
                    a = list(a)
                if a != b:
                    ctx.violation(
                        '%s:%s:%s' % (table, k, fact), where,
                        '%s %s: %s is %r, specified %r' % (
                            table, k, fact, a, b))
        for k in rows:
            if k not in want and rows[k]:
                ctx.violation('%s:%s:extra' % (table, k), where,
                              '%s is not specified: %r' % (k, rows[k]))
        # a key in no table
        unk = 999 if cls in ('StatusCode', 'WarnCode') else 'x/no-such-name'
        d = facts(E, M, table, tv, cls, queries, unk)
        d = {a: b for a, b in d.items() if b is not False}
        if d:
            ctx.violation('%s:unknown' % table, where,
                          'claims to know an unregistered name: %r' % d)
        if E.conc(I.call_method(tv, '__contains__', [E.key(cls, unk)])):
            ctx.violation('%s:unknown' % table, where,
                          'contains an unregistered name')
        if cls == 'MediaType':
            for u in forms(M, tv, table, queries):
                if u.lower() in {str(x).lower() for x in rows}:
                    continue
                n += 1
                d = facts(E, M, table, tv, cls, queries, u)
                for q in set(FORMS) | set(d):
                    a = bool(d.get(q))
                    b = q in FORMS and FORMS[q](u)
                    if a != b and d.get(q) is not False:
                        ctx.violation(
                            '%s:form:%s' % (table, q),
                            'httpolice/known/__init__.py',
                            '%s of the unregistered media type %s is %s' % (
                                q, u, a))
        # names written in another case
        for k in rows:
            if cls not in NOCASE + CASE or not isinstance(k, str) or k.swapcase() == k or \
                    k.swapcase() in rows:
                continue
            kv = E.key(cls, k.swapcase())
            got = E.conc(I.call_method(tv, '__contains__', [kv]))
            if bool(got) != (cls in NOCASE):
                ctx.violation('%s:%s:case' % (table, k), where,
                              '%s %s as %s: contained=%s' % (
                                  table, k, k.swapcase(), got))
            n += 1
    if n < MIN_KEYS:
        raise AnchorError('only %d names analysed' % n)
    ctx.cover(names=n, tables=len(tabs),
              queries=sum(len(q) for _, q in TABLES.values()))


def draft(root):
    from ..model import Model
    M = Model(root)
    _, tabs = all_tables(M)
    out = []
    for t, (_, rows) in tabs.items():
        out.append('[%s]' % t)
        for k in sorted(rows, key=str):
            out.append(json.dumps([k, rows[k]], sort_keys=True,
                                  ensure_ascii=False))
    return '\n'.join(out) + '\n'
