"""What the command does with exchanges: its exit status is computed as a
condition on which notices were reported and silenced, for every threshold,
and each report is followed from the notices of an exchange to its output."""
import os

from ..model import (AnchorError, INT, make_exchange, make_request,
                     make_response)
from ..reports import Rendering
from ..values import DictV, K, ListV, NatV, O, TupV, V, one
from .c06 import Real, call, faults, mentions, under

LEVEL = 'other'
ASSUMES = (
    'argparse, sys.exit and the streams behave as documented',
    'an input is any iterable of exchanges that may end by raising',
)
CLI = 'httpolice/cli.py'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(ctx):
    X = Rendering(ctx.root)
    n = dict(runs=0, obligations=0, placements=0)
    with Real(X.M):
        order(ctx, X, n)
        status(ctx, X, n)
    if n['runs'] < 6 or n['placements'] < 14:
        raise AnchorError('too little was analysed')
    ctx.cover(rule='run_cli() gives a non-zero status exactly if reading '
              'failed or a notice of at least the threshold was reported and '
              'not silenced; every exchange read is checked once and '
              'reported once, in order; every report shows each notice once, '
              'in its place and in order', **n)


# --------------------------------------------------------------------------
# Exit status.

def status(ctx, X, n):
    M, I = X.M, X.M.I
    m = I.m
    fd = I.load('feed', os.path.join(HERE, 'stubs', 'feed.py'))
    if isinstance(I.import_module('httpolice.cli'), O):
        raise AnchorError('httpolice.cli')
    sev = M.global_('httpolice.notice', 'Severity')
    names = list(sev.meta['members'])
    levels = {k: I.prim_of(I.getattr(v, 'value').single()).v
              for k, v in sev.meta['members'].items()}
    notices = M.global_('httpolice.notice', 'all_notices')
    ids = {}                    # severity -> identifier
    for e in notices.entries.values():
        o = e[2].single()
        s = I.getattr(one(o), 'severity')
        for k, v in sev.meta['members'].items():
            if I.compare('Eq', s, v) == 1 and len(ids.setdefault(k, [])) < 3:
                ids[k].append(e[0].single().v)
    used = [k for k in names if ids.get(k)]
    if len(used) < 3:
        raise AnchorError('notices of few severities')
    fails = I.atom('T', 'fails')
    x = I.sy(('T', 'silenced'), INT)
    log = {}

    def seen(kind):
        def f(I, a, kw):
            log[kind].append((I.pc, a))
            return one(K(None))
        return one(NatV('feed.' + kind, f))
    for kind in ('read', 'reported', 'shown'):
        fd.ns['feed_' + kind] = seen(kind)
    fd.ns['broken'] = one(M.global_('httpolice.inputs.common', 'InputError'))
    fd.ns['fails'] = truth_value(fails)
    table(I, M, 'inputs', fd.ns['input_'])
    table(I, M, 'reports', fd.ns['report'])

    def check(I, f, a, kw):
        v = a[0] if a else list(kw.values())[0]
        log['check'].append((I.pc, [v]))
        o = v.single()
        for obj, at, i in plan:
            if box[obj][0] is o:
                pc = I.pc
                under(I, m.and_(pc, at),
                      lambda: call(I, one(box[obj][1]), 'complain',
                                   one(K(i))))
                I.pc = pc
        return one(K(None))

    box = {}
    plan = []
    I.intercepts['httpolice.exchange:check_exchange'] = check
    I.lazy = True
    try:
        for k in [None] + names:
            for silence in (False, True):
                n['runs'] += 1
                fresh(M, fd, box)
                log.update((a, []) for a in ('read', 'reported', 'shown',
                                             'check'))
                del plan[:]
                for j, obj in enumerate(('req1', 'resp1', 'req2', 'resp2',
                                         'exch3', 'resp3')):
                    s = used[j % len(used)]
                    i = ids[s][j // len(used) % len(ids[s])]
                    plan.append((obj, I.atom('T', 'says%d' % j), i))
                one_run(ctx, X, n, k, silence, plan, box, log, levels, names,
                        used, fails, x)
    finally:
        I.lazy = False
        del I.intercepts['httpolice.exchange:check_exchange']


def truth_value(g):
    from ..values import B
    return one(B(g))


def table(I, M, name, f):
    """Every format of inputs or reports is the stand-in."""
    d = M.global_('httpolice.' + name, 'formats')
    if not isinstance(d, DictV) or not d.entries:
        raise AnchorError('%s.formats' % name)
    for e in d.entries.values():
        e[2] = f


def fresh(M, fd, box):
    box.clear()
    M.I.pc = 1
    out = []
    for i in (1, 2, 3):
        req = make_request(M, 'req%d' % i) if i != 3 else None
        rs = [make_response(M, 'resp%d' % i)]
        if i == 2:
            rs.append(make_response(M, 'respx'))
        ex = make_exchange(M, req, rs)
        box['req%d' % i] = (ex, req)
        box['resp%d' % i] = (ex, rs[-1])
        box['exch%d' % i] = (ex, ex)
        out.append(ex)
    box['all'] = (None, out)
    fd.ns['exchanges'] = one(ListV('list', [(1, one(e)) for e in out]))


def one_run(ctx, X, n, k, silence, plan, box, log, levels, names, used,
            fails, x):
    M, I = X.M, X.M.I
    m = I.m
    what = 'with %s%s' % ('--fail-on %s' % k if k else 'no --fail-on',
                          ', --silence' if silence else '')
    cls = I.modules['httpio'].ns['StringIO'].single()
    args = O(cls, {
        'input': one(K('combined')), 'output': one(K('text')),
        'path': one(ListV('list', [(1, one(K('x')))])),
        'silence': one(ListV('list', [(1, x)])) if silence else one(K(None)),
        'fail_on': one(K(k)), 'full_traceback': one(K(False))})
    out, err = O(cls, {}), O(cls, {})
    out.attrs['buffer'] = one(O(cls, {}))
    n0 = len(I.sinks.out)
    u0 = len(I.undecided)
    I.pc = 1
    r = I.call(one(M.global_('httpolice.cli', 'run_cli')),
               [one(args), one(out), one(err)], {})
    pc = I.pc
    written = I.sinks.out[n0:]
    del I.sinks.out[n0:]
    faults(ctx, I, 'status', CLI + ' (run_cli)', 'run_cli(), ' + what + ',')
    for u in I.undecided[u0:]:
        raise AnchorError('undecided: %s' % (u,))
    I.pc = 1
    got = I.truth(r)
    want = fails
    for obj, g, i in plan:
        sevi = severity(X, i)
        if k is not None and levels[sevi] >= levels[k]:
            off = I.compare('Eq', x, one(K(i))) if silence else 0
            want = m.or_(want, m.diff(g, off))
    n['obligations'] += 1
    if pc != 1 or got != want:
        cube = m.a_sat_cube(m.xor(got, want)) if got != want else None
        ctx.violation(
            'status/%s' % ('threshold' if k else 'none'), CLI + ' (run_cli)',
            'the exit status %s is not non-zero exactly if reading failed%s'
            '%s' % (what, ' or a notice of at least that severity was '
                    'reported and not silenced' if k else '',
                    '; e.g. when %s' % told(I, cube, plan) if cube else ''))
    # an error is told
    n['obligations'] += 1
    said = m.disj(p for kind, b, p, v, site, _ in written
                  if kind == 'write' and b is err)
    if said != fails:
        ctx.violation('status/message', CLI + ' (run_cli)', 'something is '
                      'not written to the standard error exactly if '
                      'reading failed (%s)' % what)
    # each exchange checked once, then reported once, in order
    for kind in ('read', 'check', 'reported'):
        n['obligations'] += 1
        objs = [(g, a[0].single()) for g, a in log[kind]]
        if [o for g, o in objs] != box['all'][1] or \
                any(m.or_(g, fails) != 1 for g, o in objs):
            ctx.violation('exchanges/%s' % kind, CLI + ' (run_cli)',
                          'the exchanges that were read are not each %s '
                          'exactly once, in order (%s)' % (
                              {'read': 'taken', 'check': 'checked'}.get(
                                  kind, kind), what))
    # the report sees exactly what was not silenced
    n['obligations'] += 1
    shown = {}
    for g, (o, c) in log['shown']:
        for g2, s in c.alts:
            i = I.prim_of(I.getattr(one(s), 'id').single()).v
            kk = (id(o.single()), i)
            g = m.diff(m.and_(g, g2), fails)
            if g:
                shown[kk] = m.or_(shown.get(kk, 0), g)
    ws = {}
    for obj, g, i in plan:
        off = I.compare('Eq', x, one(K(i))) if silence else 0
        ws[id(box[obj][1]), i] = m.diff(m.diff(g, off), fails)
    if shown != ws:
        ctx.violation('shown', CLI + ' (run_cli)', 'the report does not see '
                      'exactly the notices that were reported and not '
                      'silenced (%s)' % what)


def severity(X, i):
    I = X.M.I
    d = X.M.global_('httpolice.notice', 'all_notices')
    sev = X.M.global_('httpolice.notice', 'Severity')
    for e in d.entries.values():
        if e[0].single().v == i:
            s = I.getattr(e[2], 'severity')
            for k, v in sev.meta['members'].items():
                if I.compare('Eq', s, v) == 1:
                    return k
    raise AnchorError('notice %s' % i)


def told(I, cube, plan):
    out = []
    for a, val in (cube.items() if isinstance(cube, dict) else cube):
        a = I.m.atoms[a] if isinstance(a, int) else a
        if a[0] == 'T' and str(a[1]).startswith('says'):
            obj, _, i = plan[int(a[1][4:])]
            out.append('notice %d (%s) is %sreported' % (
                i, obj, '' if val else 'not '))
        elif a == ('T', 'fails'):
            out.append('reading %s' % ('fails' if val else 'does not fail'))
        else:
            out.append('%s%s' % ('' if val else 'not ', str(a)[:60]))
    return ', '.join(sorted(out))


# --------------------------------------------------------------------------
# Reports.

def order(ctx, X, n):
    """Each notice is shown once, in its place."""
    M, I, R = X.M, X.M.I, X.R
    m = I.m
    for name in X.REPORTS:
        for shape in ((True, 2), (True, 0), (False, 1), (False, 0)):
            req = make_request(M, 'req') if shape[0] else None
            rs = [make_response(M, 'resp' if i == 0 else 'resp%d' % (i + 1))
                  for i in range(shape[1])]
            exch = make_exchange(M, req, rs)
            for i, r in enumerate(rs):
                r.attrs['status'] = I.call(one(M.cls('StatusCode')),
                                           [one(K(555 + i))], {})
            for x in ([req] if req else []) + rs:
                for a in ('header_entries', 'trailer_entries'):
                    x.attrs[a] = one(ListV('list', []))
            I.pc = 1
            objs = ([('req', req)] if req else []) + [
                (555 + i, r) for i, r in enumerate(rs)] + [('exch', exch)]
            want = []
            M.light = True
            try:
                for w, o in reversed(objs):
                    for i in (1001, 1216, 1016):
                        # (not in the order of identifiers)
                        g = I.atom('T', 'has', str(w), i)
                        under(I, g, lambda: call(I, one(o), 'complain',
                                                 one(K(i))))
                for w, o in objs:
                    for i in (1001, 1216, 1016):
                        want.append((w, i, I.atom('T', 'has', str(w), i)))
                state = R.module_state()
                out, fs = R.report(name, {'exch': exch})
                for x, old in state:
                    x.entries = old
            finally:
                M.light = False
            del I.faults[:]
            got = text_flow(I, out) if name == 'text' else flow(I, out)
            shown(ctx, n, m, name, shape, got, want)


def flow(I, out):
    """What is shown: [(condition, identifier or status)]."""
    r = []
    for kind, _, pc, v, site, _ in out:
        if kind == 'text':
            for g, s in v.alts:
                t = token(I.pathof(s))
                if t is not None:
                    r.append((I.m.and_(pc, g), t))
    return r


def text_flow(I, out):
    """The same, along the buffers that text goes through."""
    bufs = {}
    read = set()
    for kind, b, pc, v, site, _ in out:
        if kind == 'write':
            bufs.setdefault(id(b), [b, []])[1].append((pc, v))

    def walk(p, g, acc):
        if not isinstance(p, tuple):
            return
        if p and p[0] == 'buf':
            read.add(p[1])
            for pc, v in bufs.get(p[1], (None, ()))[1]:
                piece(pc, v, acc)
            return
        t = token(p)
        if t is not None:
            acc.append((g, t))
            return
        for q in p:
            walk(q, g, acc)

    def piece(pc, v, acc):
        # what is left of the alternatives is the same but for its length
        best = None
        for g, s in v.alts:
            a = []
            walk(I.pathof(s), 1, a)
            if best is None:
                best = a
            elif [t for _, t in a] != [t for _, t in best]:
                for gg, t in a:
                    acc.append((I.m.and_(pc, g), t))
        for gg, t in best or ():
            acc.append((pc if gg == 1 else gg, t))
    root = [b for b, _ in bufs.values() if 'stream' in b.attrs]
    acc = []
    for b in root:
        for pc, v in bufs[id(b)][1]:
            piece(pc, v, acc)
    r = []
    for g, t in acc:
        for a in I.m.support_atoms(g):
            if a[0] == 'truthy' and isinstance(a[1], tuple) and \
                    a[1][0] == 'buf':
                g = I.m.restrict(g, I.m.atom_index[a], 1)
        r.append((g, t))
    return r


def token(p):
    """A notice's identifier or a status in something that is written."""
    for i in (1001, 1216, 1016, 555, 556):
        if isinstance(p, tuple) and p and p[0] == 'k' and mentions(p, i):
            return i
    if isinstance(p, tuple) and p and p[0] in ('fmt', 'str', 'string', 't',
                                               'm', 'lib'):
        for q in p[1:]:
            t = token(q)
            if t is not None:
                return t
        for q in p[1:]:
            if isinstance(q, tuple) and q and isinstance(q[0], tuple):
                for x in q:
                    t = token(x)
                    if t is not None:
                        return t
    return None


def shown(ctx, n, m, name, shape, got, want):
    where = 'httpolice/reports/%s.py' % name
    place = 'req' if shape[0] else 'exch'
    seq = []
    for g, t in got:
        if t in (555, 556):
            place = t
        else:
            seq.append((g, t, place))
    ws = []
    for w, i, g in want:
        n['placements'] += 1
        ws.append((i, g))
    have = [(t, g) for g, t, _ in seq]
    n['obligations'] += len(ws) + 1
    if have == ws:
        for (g, t, p), (w, i, _) in zip(seq, want):
            if p != w and w != 'exch' and p != 'exch':
                ctx.violation(
                    'order/%s-place' % name, where, 'the %s report shows a '
                    'notice on %s under %s' % (name, label(w), label(p)))
        return
    for w, i, g in want:
        c = [h for h in have if h == (i, g)]
        if len(c) != 1:
            ctx.violation(
                'order/%s-%s' % (name, 'missing' if not c else 'again'),
                where, 'the %s report of an exchange with %s and %d '
                'responses shows a notice on %s %s' % (
                    name, 'a request' if shape[0] else 'no request',
                    shape[1], label(w), 'not exactly when there is one'
                    if not c else '%d times' % len(c)))
            return
    ctx.violation('order/%s' % name, where, 'the %s report of an exchange '
                  'with %s and %d responses shows notices out of order or '
                  'more than once' % (name, 'a request' if shape[0] else
                                      'no request', shape[1]))


def label(w):
    return {'req': 'the request', 'exch': 'the exchange',
            555: 'the first response', 556: 'the second response'}[w]
