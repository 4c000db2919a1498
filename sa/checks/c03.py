"""How reading an input ends: the readers are interpreted abstractly on
families of malformed files (every member of a HAR document missing or of
another type; streams cut anywhere; directories with odd names), and must end
with exchanges or the documented error; the command line tool must turn that
error into a message and a non-zero status."""
import copy
import os

from ..hars import Hars, PATH, UNAVAILABLE, UNSURE
from ..interp import Budget
from ..model import AnchorError
from ..streams import const
from ..values import K, ListV, O, one
from .c21 import GONE, HOST, PLAIN, b64, entry
from .c22 import CLIENT, SERVER, Captures, limit

LEVEL = 'other'
ASSUMES = (
    'opening, reading and listing files fail only with EnvironmentError',
    'json.load gives a JSON value, or raises ValueError or RecursionError',
)
HAR = 'httpolice/inputs/har.py'
STREAMS = 'httpolice/inputs/streams.py'
CLI = 'httpolice/cli.py'
STUBS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'stubs')

VALUES = [None, True, False, 0, -1, 3.5, float('inf'), float('nan'),
          10 ** 30, '', 'x', 'caf\xe9\u2014', [], ['x'], [['x']], {},
          {'x': 1}, GONE]
MORE = [1, 200, 1.0, -0.0, 'HTTP/1.1', 'base64', '0', ':', [None], [{}],
        {'name': 'Host'}, {'text': 5}]


# -- documents ---------------------------------------------------------------

def bases():
    yield 'Fiddler', entry(
        request__method='POST', request__bodySize=3,
        request__postData={'mimeType': 'text/plain', 'text': 'abc'},
        response__content={'size': 5, 'mimeType': 'text/plain',
                           'text': b64(b'hello'), 'encoding': 'base64'})
    yield 'Fiddler', entry(
        request__method='CONNECT', request__url='a.example:443',
        request__postData={'text': 'Fiddler'},
        response__content={'size': 5, 'text': b64(b'Fiddler'),
                           'encoding': 'base64'})
    yield 'Firefox', entry(
        request__headers=[PLAIN], response__status=404,
        response__content={'size': -1, 'text': 'abc'})


UNREAD = ('cookies', 'queryString', 'cache', 'timings')


def nodes(x, path=()):
    if not set(path) & set(UNREAD):
        yield path
        for k in x if isinstance(x, dict) else \
                range(len(x)) if isinstance(x, list) else ():
            for y in nodes(x[k], path + (k,)):
                yield y


def put(doc, path, v):
    if not path:
        return v
    d = t = copy.deepcopy(doc)
    for k in path[:-1]:
        t = t[k]
    if v is GONE:
        del t[path[-1]]
    else:
        t[path[-1]] = v
    return d


URLS = ['http://[::1', 'http://[::1]/', 'http://a:b/', '//[', 'http://a]/',
        'http://\u2100.example/', '?', '#', '\x00', 'http://a.example\n/x',
        'http://[v1.x]/', 'http://[1.2.3.4]/', 'http://a.example:99999/']


def documents(tier):
    """(what, document or the error of json.load)"""
    yield 'a file that is not JSON', ValueError('not JSON')
    yield 'JSON nested too deep', RecursionError('too deep')
    for i, (creator, e) in enumerate(bases()):
        doc = {'log': {'version': '1.2', 'creator': {'name': creator,
                                                     'version': '1'},
                       'entries': [e]}}
        if i == 0 or tier != 'quick':
            paths = list(nodes(doc))
        else:
            paths = [p for p in nodes(doc) if set(p) & {
                'postData', 'content', 'status', 'method', 'url'}]
        for p in paths:
            name = '.'.join(map(str, p)) or 'the document'
            for v in VALUES + (MORE if i == 0 or tier != 'quick' else []):
                if v is GONE and not p:
                    continue
                yield '%s %s (%s)' % (
                    name, 'missing' if v is GONE else '= %r' % (v,),
                    creator), put(doc, p, v)
        if i != 1:
            for u in URLS:
                yield 'log.entries.0.request.url = %r (%s)' % (u, creator), \
                    put(doc, ('log', 'entries', 0, 'request', 'url'), u)


# -- streams -----------------------------------------------------------------

JUNK = [b'', b'\r\n', b'\n\n\n', b'\x00', b'\xff\xfe\xff\xff', b'GET',
        b'GET / HTTP/1.1', b'HTTP/1.1 200', b'HTTP/1.1 \xb2\xb2\xb2 OK\r\n\r\n',
        b'GET / HTTP/9.9\r\n\r\n', b'GET / HTTP/1.1\r\n: x\r\n\r\n',
        b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffx\r\n',
        b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab',
        b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\n\r\n',
        b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n'
        b'999999999999999999999999\r\nab',
        b'POST / HTTP/1.1\r\nTransfer-Encoding: gzip, foo\r\n\r\nab',
        b'POST / HTTP/1.1\r\nTransfer-Encoding: gzip, chunked\r\n\r\n'
        b'2\r\nab\r\n0\r\n\r\n',
        b'POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\nab',
        b'POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nab',
        b'POST / HTTP/1.1\r\nContent-Length: 5, 5\r\n\r\nabcde',
        b'POST / HTTP/1.1\r\nContent-Length: \xb2\r\n\r\nab']


def cut(data):
    yield 'nothing of', b''
    for i in range(7, len(data), 11):
        yield '%d bytes of' % i, data[:i]


def stream_cases(tier):
    """(what, format, {directory: {name: data}}, paths)"""
    for i, x in enumerate(JUNK):
        yield '%.60r' % x, 'req-stream', {'/d': {'f': x}}, ['/d/f']
        yield '%.60r' % x, 'resp-stream', {'/d': {'f': x}}, ['/d/f']
        yield '%.60r as a request' % x, 'streams', {
            '/d': {'f': x, 's': SERVER}}, ['/d/f', '/d/s']
        yield '%.60r as a response' % x, 'streams', {
            '/d': {'f': x, 'c': CLIENT}}, ['/d/c', '/d/f']
    for what, x in cut(SERVER):
        yield '%s a response stream' % what, 'streams', {
            '/d': {'s': x, 'c': CLIENT}}, ['/d/c', '/d/s']
    for what, x in cut(CLIENT):
        yield '%s a request stream' % what, 'streams', {
            '/d': {'s': SERVER, 'c': x}}, ['/d/c', '/d/s']
    I, O_ = (b'======== BEGIN %s STREAM ========\r\n' % n
             for n in (b'INBOUND', b'OUTBOUND'))
    whole = b'A note.\r\n' + I + CLIENT + O_ + SERVER
    for what, x in [('all of', whole), ('no markers in', b'A note.\r\n'),
                    ('only the inbound part of', I + CLIENT),
                    ('only the outbound part of', O_ + SERVER),
                    ('the parts in the wrong order in',
                     O_ + SERVER + I + CLIENT),
                    ('only the markers of', I + O_),
                    ('an undecodable preamble in', b'\xff\xfe' + whole),
                    ('nothing in', b''),
                    ('a marker without its end in', I[:-2] + CLIENT)]:
        for n in ('f', 'f.https', 'f.noscheme'):
            yield '%s a combined file' % what, 'combined', \
                {'/d': {n: x}}, ['/d/' + n]
    flow = '%s-10.0.0.1-80-10.0.0.2-90-0'
    pick = 'tcpick_%s_10.0.0.1_10.0.0.2_%s.%s.dat'
    for n in ['x', '', '.', 'x' * 300, 'caf\xe9', '\udcff'] + [
            flow % t for t in (
                '0', '1400000000', '9' * 11, '9' * 12, '9' * 15, '9' * 20,
                '9' * 400, '-1', '\u0661', '\xb2')] + [
            '0-a-1-b-2-3', '0-10.0.0.1-99999-x-1-0', '0---0',
            'alerts.txt', 'report.xml'] + [
            pick % x for x in (
                ('000001', '80', 'serv'), ('1', 'http', 'clnt'),
                ('\u0661', '80', 'serv'), ('\xb2', '80', 'serv'),
                ('9' * 400, '80', 'clnt'), ('', '', 'serv'),
                ('1', '80', 'bogus'))]:
        for fmt in ('tcpflow', 'tcpick'):
            yield 'a file named %.80r' % n, fmt, {'/d': {n: CLIENT}}, ['/d']


# -- judging -----------------------------------------------------------------

def run(ctx):
    n = dict(documents=0, streams=0, reports=0, obligations=0, discharged=0)
    skipped = []
    M = ctx.model()
    F = Hars(M)
    for what, doc in documents(ctx.tier):
        n['documents'] += 1
        judge(ctx, n, skipped, HAR, 'har', what, F,
              lambda: F.read(doc))
    cli(ctx, F, n, skipped)
    F = Captures(M)
    for what, fmt, dirs, paths in stream_cases(ctx.tier):
        n['streams'] += 1
        judge(ctx, n, skipped, STREAMS, fmt, what, F,
              lambda: F.read_all(fmt, dirs, paths))
    if not n['obligations']:
        raise AnchorError('nothing could be compared: %r' % skipped[:2])
    ctx.cover(rule='reading ends with exchanges or InputError, and the tool '
              'reports the error', skipped=len(skipped),
              skipped_cases=skipped[:8], **n)


def judge(ctx, n, skipped, where, fmt, what, F, read):
    faults = F.I.faults
    if len(skipped) > 100:
        return
    try:
        with limit(8):
            got = read()
            if got is None and faults and all(x[0] == 'InputError'
                                              for x in faults):
                got = []            # exchanges, or the documented error
    except Budget:
        got = None
    if got is None:
        skipped.append('%s: %s' % (fmt, what))
        return
    n['obligations'] += 1
    if got and got[0] == 'error' and got[1] not in (
            'InputError', 'FileNotFoundError'):
        ctx.violation('%s/%s/%s' % (fmt, got[1], what), where,
                      '%s: %s: %s escapes (%s)' % (
                          fmt, what, got[1], got[2]))
        return
    bad = fmt == 'har' and got and got[0] != 'error' and \
        mistyped(F, got)
    if bad:
        ctx.violation('%s/%s/%s' % (fmt, bad, what), where,
                      '%s: %s: %s is no string' % (fmt, what, bad))
        return
    n['discharged'] += 1


TYPES = {'body': bytes, 'decoded_body': bytes, 'unicode_body': str}


def mistyped(F, exchanges):
    """What the checks will take for a string but is not."""
    for x in exchanges:
        req, resps = F.shown(x)
        for y in [req] + resps:
            for f, t in TYPES.items():
                v = y[f]
                if not (v is None or v is UNSURE or v is UNAVAILABLE or
                        isinstance(v, t)):
                    return f
            if any(not (v is UNSURE or isinstance(v, bytes))
                   for _, v in y['header_entries']):
                return 'a header value'
    return None


def cli(ctx, F, n, skipped):
    """run_cli on inputs that end with an error."""
    I = F.I
    I.import_module('httpolice.cli')
    run_cli = F.M.global_('httpolice.cli', 'run_cli')
    ns = I.load('clistub', os.path.join(STUBS, 'clistub.py')).ns
    cases = [('a HAR file that is not JSON', 'har', PATH,
              ValueError('not JSON')),
             ('an empty HAR document', 'har', PATH, {}),
             ('a HAR document cut short', 'har', PATH,
              {'log': {'creator': {'name': ''}, 'entries': [{}]}}),
             ('a file that does not exist', 'har', '/d/none', {})]
    for what, fmt, path, doc in cases:
        for full in (False, True):
            n['reports'] += 1
            r = report(F, run_cli, ns, fmt, path, doc, full)
            if r is None:
                skipped.append('the tool on %s' % what)
                continue
            n['obligations'] += 1
            if r == 'told':
                n['discharged'] += 1
            else:
                ctx.violation('cli/%s' % what, CLI, 'the tool on %s%s: %s' % (
                    what, ', with --full-traceback' if full else '', r))


def report(F, run_cli, ns, fmt, path, doc, full):
    I = F.I
    I.pc, I.steps = 1, 0
    del F.M.events[:]
    del I.faults[:]
    F.doc = doc
    outs = []
    for _ in range(2):
        o = O(ns['Out'].single(), {})
        I.call_method(o, '__init__', [])
        outs.append(o)
    args = O(ns['Args'].single(), {})
    I.call_method(args, '__init__', [
        one(K(fmt)), one(ListV('list', [(1, one(K(path)))])), one(K(full))])
    try:
        with limit(30):
            v = I.call(run_cli if not isinstance(run_cli, O) and
                       hasattr(run_cli, 'alts') else one(run_cli),
                       [one(args), one(outs[0]), one(outs[1])], {})
    except Budget:
        return None
    if I.faults:
        x = I.faults[0]
        return '%s escapes' % x[0] if x[2] == 1 else None
    c = v.single()
    c = I.prim_of(c) if c is not None else None
    if not isinstance(c, K):
        return None
    if not c.v:
        return 'its status is %r' % (c.v,)
    if not outs[1].attrs['said'].single().entries:
        return 'it says nothing about the error'
    return 'told'
