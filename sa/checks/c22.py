"""Which streams end up in one exchange, and in which order: the readers of
httpolice.inputs.streams are interpreted abstractly on families of directory
listings whose names are known (every order of listing, every way for
connections to share addresses, ports, counters and times, one-sided, non-HTTP
and misnamed files), and must give the exchanges that the names say."""
import contextlib
import datetime
import itertools
import re
import signal

from ..interp import Budget
from ..model import AnchorError
from ..streams import Feed, const
from ..values import K, ListV, O, one

LEVEL = 'other'
ASSUMES = (
    'files and directories behave as the operating system documents',
    'streams are taken apart as C12 decides',
)
WHERE = 'httpolice/inputs/streams.py'

CLIENT = b'GET /a HTTP/1.1\r\nHost: x\r\n\r\nGET /b HTTP/1.1\r\nHost: x\r\n\r\n'
SERVER = (b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n'
          b'HTTP/1.1 404 No\r\nContent-Length: 0\r\n\r\n')
OTHER = b'\x16\x03\x01\x02\n\x01'
DATA = {'c': CLIENT, 's': SERVER, 'x': OTHER}


class Captures(Feed):

    def __init__(self, M):
        Feed.__init__(self, M, symbolic=False)
        I = self.I
        I.import_module('httpolice.inputs')
        self.formats = M.global_('httpolice.inputs', 'formats')
        self.dirs = {}
        self.read = set()
        I.ext.update({
            'os.listdir': self.x_listdir, 'os.scandir': self.refuse,
            'os.path.join': self.x_join, 'io.open': self.x_open,
            'open': self.x_open, 'io.BytesIO': self.x_same,
            'io.BufferedReader': self.x_flat,
            'datetime.datetime.utcfromtimestamp': self.x_when,
        })
        I.intercepts['httpolice.blackboard:Blackboard.complain'] = \
            self.i_complain

    def refuse(self, I, a, kw):
        return None

    def x_same(self, I, a, kw):
        return a[0]

    def x_when(self, I, a, kw):
        t = const(I, a[0])
        try:
            datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
        except (ValueError, OverflowError, OSError, TypeError) as e:
            if t is not None:
                I.raise_named(type(e).__name__, str(e), certain=True)
        return a[0]

    def x_listdir(self, I, a, kw):
        d = const(I, a[0])
        return one(ListV('list', [(1, one(K(n))) for n in self.dirs[d]]))

    def x_join(self, I, a, kw):
        xs = [const(I, x) for x in a]
        return None if None in xs else one(K('/'.join(xs)))

    def x_open(self, I, a, kw):
        p = const(I, a[0])
        if p is None:
            return None
        d, _, n = p.rpartition('/')
        if n not in self.dirs.get(d, ()):
            I.raise_named('FileNotFoundError', p, certain=True)
            return None
        return self.flat_of(self.dirs[d][n])

    def x_flat(self, I, a, kw):
        data = const(I, a[0])
        return None if data is None else self.flat_of(data)

    def flat_of(self, data):
        f = O(self.flat, {})
        self.I.call_method(f, '__init__', [one(K(data))])
        return one(f)

    def read_all(self, fmt, dirs, paths):
        """('error', exception, text) or [shown exchange]"""
        I = self.I
        I.pc, I.steps, I.while_limit = 1, 0, 200
        del self.M.events[:]
        del I.faults[:]
        self.dirs = dirs
        self.u0 = len(I.undecided)
        f = I.getitem(self.formats if not isinstance(self.formats, O) and
                      hasattr(self.formats, 'alts') else one(self.formats),
                      one(K(fmt)))
        v = I.call(f, [one(ListV('list', [(1, one(K(p))) for p in paths]))],
                   {})
        if I.faults:
            x = I.faults[0]
            return ('error', x[0], x[1])
        out = []
        for g, s in v.alts:
            if not isinstance(s, ListV) or s.opaque is not None or g != 1:
                return None
            for g2, e in s.entries:
                x = e.single()
                if g2 != 1 or not isinstance(x, O):
                    return None
                out.append(self.shown(x))
        return out

    def shown(self, x):
        def who(y):
            r = y.attrs['remark'].single()
            t = self.I.prim_of(r).v if r is not None and isinstance(
                self.I.prim_of(r), K) else None
            mo = re.match(r'from (.*), offset (\d+)$', str(t))
            return '%s@%s' % mo.groups() if mo else '?'
        req = x.attrs['request'].single()
        resps = x.attrs['responses'].single()
        rs = []
        for g, r in resps.entries:
            rs.append(who(r.single()))
        said = []
        for e in self.M.events:
            if e.obj is x and e.guard:
                kw = [const(self.I, e.kwargs[n]) for n in sorted(e.kwargs)
                      if n.startswith('path')]
                said.append((e.id,) + tuple(kw))
        return (who(req) if isinstance(req, O) else None, tuple(rs),
                tuple(said))


# -- what the names of the files say ----------------------------------------

def flow(name):
    mo = re.match(r'(\d+)-((?:\d+\.){3}\d+-\d+)-((?:\d+\.){3}\d+-\d+)-\d+$',
                  name)
    return mo and (int(mo[1]), None, mo[2], mo[3])


def pick(name):
    mo = re.match(r'tcpick_(\d+)_([\d.]+)_([\d.]+)_[a-z]+\.(serv|clnt)\.dat$',
                  name)
    if not mo:
        return None
    a, b = (mo[3], mo[2]) if mo[4] == 'serv' else (mo[2], mo[3])
    return int(mo[1]), int(mo[1]), a, b


NAMED = {'tcpflow': flow, 'tcpick': pick}
IGNORED = {'tcpflow': ('report.xml', 'alerts.txt'), 'tcpick': ()}


def exchanges(client, server):
    reqs = [None] * 2 if client is None else [
        '%s@%d' % (client, i) for i in (0, CLIENT.index(b'GET /b'))]
    resps = [()] * 2 if server is None else [
        ('%s@%d' % (server, i),) for i in (0, SERVER.index(b'HTTP/1.1 404'))]
    return [(q, r, ()) for q, r in zip(reqs, resps)]


def expected(fmt, dirs, paths, kinds):
    """('error', name) or [(time, exchanges)]"""
    conns = []
    for n, d in enumerate(paths):
        streams = {}
        for name in dirs[d]:
            if name in IGNORED[fmt]:
                continue
            x = NAMED[fmt](name)
            if not x:
                return ('error', name)
            time, hint, a, b = x
            if (hint, a, b) in streams:
                return ('error', name, streams[hint, a, b][1])
            streams[hint, a, b] = (time, name)
        done = set()
        for (hint, a, b), (time, name) in sorted(
                streams.items(), key=lambda s: s[1]):
            if name in done:
                continue
            done.add(name)
            other = streams.get((hint, b, a))
            if other is not None and other[1] in done:
                other = None
            if other:
                done.add(other[1])
                time = min(time, other[0])
            names = [name] + ([other[1]] if other else [])
            p = ['%s/%s' % (d, x) for x in names]
            by = {kinds[x]: y for x, y in zip(names, p)}
            out = []
            if not other:
                out.append((None, (), ((1278, p[0]),)))
            if 'x' in by:
                out.append((None, (), ((1279,) + tuple(
                    p + ['(none)'] * (2 - len(p))),)))
            else:
                out += exchanges(by.get('c'), by.get('s'))
            conns.append(((n, time) if fmt == 'tcpick' else time, out))
    return conns


def agrees(fmt, got, conns):
    """Every connection once, whole, in order; earlier ones first (tcpick: as
    they are counted in their directory)."""
    left = list(conns)
    i = 0
    while i < len(got):
        for c in left:
            k = len(c[1])
            if norm(got[i:i + k]) == norm(c[1]):
                break
        else:
            return 'it has %s' % say(got[i])
        if any(o[0] < c[0] for o in left):
            return 'the connection of %s comes too early' % say(got[i])
        left.remove(c)
        i += k
    if left:
        return 'it lacks %s' % say(left[0][1][0])
    return None


def norm(xs):
    return [(q, r, tuple((s[0],) + tuple(sorted(map(str, s[1:])))
                         for s in said)) for q, r, said in xs]


def say(x):
    q, r, said = x
    if said:
        return 'notice %s' % ' '.join(str(y) for y in said[0])
    return 'an exchange of %s' % ' and '.join(
        y for y in ((q,) if q else ('no request',)) + r)


# -- the families ------------------------------------------------------------

A, B, C = '10.0.0.1', '10.0.0.2', '10.0.0.3'


def fname(t, a, ap, b, bp):
    return '%d-%s-%05d-%s-%05d-0' % (t, a, ap, b, bp)


def pname(n, d, a=A, b=B):
    return 'tcpick_%06d_%s_%s_http.%s.dat' % (n, a, b, d)


def flow_connections():
    """{label: [(name, kind)]}"""
    yield 'one connection', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 80, A, 4000), 's')]
    yield 'the server first', [
        (fname(101, A, 4000, B, 80), 'c'), (fname(99, B, 80, A, 4000), 's')]
    yield 'at the same time', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(100, B, 80, A, 4000), 's')]
    yield 'two connections', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 80, A, 4000), 's'),
        (fname(95, C, 4000, B, 80), 'c'), (fname(102, B, 80, C, 4000), 's')]
    yield 'times with a different number of digits', [
        (fname(1000, A, 4000, B, 80), 'c'),
        (fname(1001, B, 80, A, 4000), 's'),
        (fname(99, C, 4000, B, 80), 'c'), (fname(998, B, 80, C, 4000), 's')]
    yield 'ports only differ', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 80, A, 4000), 's'),
        (fname(103, A, 4001, B, 80), 'c'), (fname(104, B, 80, A, 4001), 's')]
    yield 'both ways', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 80, A, 4000), 's'),
        (fname(105, B, 4000, A, 80), 'c'), (fname(106, A, 80, B, 4000), 's')]
    yield 'swapped ports', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 4000, A, 80), 's')]
    yield 'only a client', [(fname(100, A, 4000, B, 80), 'c')]
    yield 'only a server', [(fname(100, B, 80, A, 4000), 's')]
    yield 'to itself', [(fname(100, A, 80, A, 80), 'c')]
    yield 'one side each', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(90, C, 80, A, 4001), 's')]
    yield 'not HTTP', [
        (fname(100, A, 4000, B, 443), 'x'), (fname(101, B, 443, A, 4000),
                                             'x'),
        (fname(102, A, 4001, B, 80), 'c'), (fname(103, B, 80, A, 4001), 's')]
    yield 'one side, not HTTP', [(fname(100, A, 4000, B, 443), 'x')]
    yield 'nothing', []
    yield 'reports of tcpflow', [
        ('report.xml', 'x'), ('alerts.txt', 'x'),
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 80, A, 4000), 's')]
    yield 'the same addresses again', [
        (fname(100, A, 4000, B, 80), 'c'), (fname(101, B, 80, A, 4000), 's'),
        (fname(200, A, 4000, B, 80), 'c')]
    yield 'no timestamp', [
        ('%s-04000-%s-00080' % (A, B), 'c'),
        (fname(101, B, 80, A, 4000), 's')]
    yield 'no ports', [('100-%s-%s-0' % (A, B), 'c')]
    yield 'something else', [
        ('README', 'x'), (fname(100, A, 4000, B, 80), 'c')]
    yield 'an extension', [(fname(100, A, 4000, B, 80) + '.html', 'c')]


def pick_connections():
    yield 'one connection', [(pname(1, 'clnt'), 'c'), (pname(1, 'serv'), 's')]
    yield 'client is served', [(pname(1, 'serv'), 'c'),
                               (pname(1, 'clnt'), 's')]
    yield 'two connections', [
        (pname(1, 'clnt'), 'c'), (pname(1, 'serv'), 's'),
        (pname(2, 'clnt'), 'c'), (pname(2, 'serv'), 's')]
    yield 'other counters', [(pname(1, 'clnt'), 'c'), (pname(2, 'serv'), 's')]
    yield 'counters with a different number of digits', [
        (pname(1000000, 'clnt'), 'c'), (pname(1000000, 'serv'), 's'),
        (pname(200000, 'clnt'), 'c'), (pname(200000, 'serv'), 's')]
    yield 'other addresses', [
        (pname(1, 'clnt'), 'c'), (pname(1, 'serv', A, C), 's')]
    yield 'only a client', [(pname(3, 'clnt'), 'c')]
    yield 'only a server', [(pname(3, 'serv'), 's')]
    yield 'not HTTP', [
        (pname(1, 'clnt'), 'x'), (pname(1, 'serv'), 'x'),
        (pname(2, 'clnt'), 'c'), (pname(2, 'serv'), 's')]
    yield 'nothing', []
    yield 'no counter', [('tcpick_%s_%s_http.clnt.dat' % (A, B), 'c')]
    yield 'no direction', [('tcpick_000001_%s_%s_http.both.dat' % (A, B),
                            'c')]
    yield 'something else', [('report.xml', 'x')]
    yield 'the same stream twice', [
        (pname(1, 'clnt'), 'c'), (pname(1, 'serv'), 's'),
        (pname(1, 'clnt').replace('http', 'https'), 'c')]
    yield 'the same stream twice, padded', [
        (pname(1, 'clnt'), 'c'),
        (pname(1, 'clnt').replace('00000', '000'), 'c')]


def captures(tier):
    for fmt, gen in (('tcpflow', flow_connections),
                     ('tcpick', pick_connections)):
        every = list(gen())
        for label, files in every:
            perms = list(itertools.permutations(files))
            if tier == 'quick' and len(perms) > 8:
                perms = perms[::5] + perms[-1:]
            for p in perms:
                yield fmt, label, [dict(p)], p
        by = dict(every)
        for x, y in (('one connection', 'one connection'),
                     ('only a client', 'only a server'),
                     ('two connections', 'one connection'),
                     ('nothing', 'one connection'),
                     ('one connection', 'something else')):
            yield fmt, '%s, and in another directory %s' % (x, y), \
                [dict(by[x]), dict(by[y])], by[x] + by[y]


def run(ctx):
    F = Captures(ctx.model())
    I = F.I
    n = dict(listings=0, obligations=0, discharged=0)
    skipped = []
    for fmt, label, ds, files in captures(ctx.tier):
        if len(skipped) > 12:
            break               # beyond what can be analysed here
        kinds = {}
        for d in ds:
            kinds.update(d)
        paths = ['/dir%d' % i for i in range(len(ds))]
        names = {p: list(d) for p, d in zip(paths, ds)}
        if len(ds) == 1:
            names[paths[0]] = [x for x, _ in files]
        dirs = {p: {x: DATA[ds[i][x]] for x in names[p]}
                for i, p in enumerate(paths)}
        want = expected(fmt, names, paths, kinds)
        what = '%s (%s): %s' % (fmt, label, ', '.join(
            '%s/%s' % (p, x) for p in paths for x in names[p]) or 'no files')
        judge(ctx, F, n, skipped, fmt, what, fmt + '/' + label, dirs, paths,
              want)
    plain(ctx, F, n, skipped)
    if not n['obligations']:
        raise AnchorError('nothing could be compared: %r' %
                          skipped[:2])
    ctx.cover(rule='exchanges, input errors and their order == what the '
              'names of the files say', skipped=len(skipped), **n)


@contextlib.contextmanager
def limit(seconds):
    def stop(_signum, _frame):
        raise Budget()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def judge(ctx, F, n, skipped, fmt, what, key, dirs, paths, want):
    try:
        with limit(15):
            got = F.read_all(fmt, dirs, paths)
    except Budget:
        got = None
    n['listings'] += 1
    if got is None or got and got[0] != 'error' and F.unsure():
        skipped.append((what, got is None))
        return
    n['obligations'] += 1
    text = None
    if got and got[0] == 'error':
        if got[1] != 'InputError':
            text = '%s escapes' % got[1]
        elif not (want and want[0] == 'error'):
            text = 'it is refused'
    elif want and want[0] == 'error':
        text = 'it is not refused although %s' % (
            'an odd number of streams cannot be paired' if len(want) == 1 else
            '%s is not the name of a stream' % want[1] if len(want) == 2
            else '%s is the same stream as %s' % want[1:])
    elif fmt in NAMED:
        text = agrees(fmt, got, want)
    elif norm(got) != norm(want):
        x = [y for y in got if y not in want] or got
        text = 'it has %s' % (say(x[0]) if x else 'no exchanges')
    if text is None:
        n['discharged'] += 1
        return
    ctx.violation(key, WHERE, '%s: %s' % (what, text))


def plain(ctx, F, n, skipped):
    """Formats that name the streams directly."""
    files = {'c1': CLIENT, 's1': SERVER, 'c2': CLIENT, 's2': SERVER}
    P = '/d/%s'.__mod__

    def go(fmt, names, want):
        judge(ctx, F, n, skipped, fmt, '%s of %s' % (fmt, ' '.join(names)),
              '%s/%s' % (fmt, ' '.join(names)), {'/d': files},
              [P(x) for x in names], want)
    go('streams', ['c1', 's1'], exchanges(P('c1'), P('s1')))
    go('streams', ['c1', 's1', 'c2', 's2'],
       exchanges(P('c1'), P('s1')) + exchanges(P('c2'), P('s2')))
    go('streams', ['c2', 's1', 'c1', 's2'],
       exchanges(P('c2'), P('s1')) + exchanges(P('c1'), P('s2')))
    go('streams', ['c1'], ('error',))
    go('streams', ['c1', 's1', 'c2'], ('error',))
    go('req-stream', ['c1'], exchanges(P('c1'), None))
    go('req-stream', ['c2', 'c1'],
       exchanges(P('c2'), None) + exchanges(P('c1'), None))
    go('resp-stream', ['s1'], exchanges(None, P('s1')))
    go('resp-stream', ['s2', 's1'],
       exchanges(None, P('s2')) + exchanges(None, P('s1')))
