"""What the entries of a HAR file become: httpolice.inputs.har is interpreted
abstractly on families of documents whose content is known, and the exchanges
must be those the documents describe, with what HAR cannot tell left open."""
import base64
import copy
import itertools
import urllib.parse

from ..hars import Hars, PATH, UNAVAILABLE, UNSURE
from ..interp import Budget
from ..model import AnchorError
from .c22 import limit

LEVEL = 'other'
ASSUMES = (
    'json.load returns the document the file contains',
    'what HAR exporters leave out or rewrite is as the comments in '
    'httpolice/inputs/har.py describe',
)
WHERE = 'httpolice/inputs/har.py'

FIDDLER, CHROME, FIREFOX, EDGE = (
    'Fiddler', 'WebInspector', 'Firefox', 'F12 Developer Tools')
CREATORS = [FIDDLER, CHROME, FIREFOX, EDGE, 'Charles Proxy', '']

DERIVED = object()          # follows from the rest, as C19 decides


# -- what a document describes ----------------------------------------------

def exchange(entry, creator):
    q = request(entry['request'], creator)
    s = entry['response']
    return q, ([] if s['status'] == 0 else
               [response(s, q['method'], creator)])


def common(x, creator):
    return {
        'version': x['httpVersion']
        if x['httpVersion'].startswith('HTTP/') and
        creator not in (CHROME, FIREFOX, EDGE) else None,
        'header_entries': [(h['name'], h['value'].encode('iso-8859-1'))
                           for h in x['headers'] if h['name'][:1] != ':'],
        'remark': 'from ' + PATH,
    }


def request(x, creator):
    d = common(x, creator)
    p = urllib.parse.urlparse(x['url'])
    d.update(scheme=p.scheme, method=x['method'], is_to_proxy=None)
    if x['method'] == 'CONNECT':
        d['target'] = p.netloc
    elif any(n.lower() == 'host' for n, _ in d['header_entries']):
        d['target'] = p.path + ('?' + p.query if p.query else '')
    else:
        d['target'] = x['url']
    d['body'] = sized(x['bodySize'])
    text = (x.get('postData') or {}).get('text') or None
    if text and creator == FIDDLER and x['method'] == 'CONNECT' and \
            'Fiddler' in text:
        text, d['body'] = None, b''
    d['decoded_body'] = d['body']
    d['unicode_body'] = derived(d['decoded_body']) if text is None else text
    return d


def response(x, method, creator):
    d = common(x, creator)
    d.update(status=x['status'], reason=x['statusText'])
    c = x['content']
    tunnel = creator == FIDDLER and method == 'CONNECT' and \
        200 <= x['status'] <= 299
    if tunnel:
        d['header_entries'] = [
            h for h in d['header_entries'] if h[0] not in (
                'EndTime', 'ClientToServerBytes', 'ServerToClientBytes')]
    if 0 in (x['bodySize'], c['size']) or x['status'] == 304:
        d['body'] = b''
    elif creator == FIREFOX:
        d['body'] = None
    elif x['bodySize'] > 0 or c['size'] > 0:
        d['body'] = UNAVAILABLE
    else:
        d['body'] = None
    decoded = text = None
    if c.get('text') and x['status'] != 304:
        if c.get('encoding', '').lower() == 'base64':
            try:
                decoded = base64.b64decode(c['text'])
            except ValueError:
                pass
            if tunnel and decoded is not None and b'Fiddler' in decoded:
                decoded, d['body'] = None, b''
        elif 'encoding' not in c:
            text = c['text']
    d['decoded_body'] = d['body'] if decoded is None else decoded
    d['unicode_body'] = derived(d['decoded_body']) if text is None else text
    return d


def sized(n):
    return b'' if n == 0 else UNAVAILABLE if n > 0 else None


def derived(body):
    return DERIVED if isinstance(body, bytes) else body


# -- the families ------------------------------------------------------------

HOST = {'name': 'Host', 'value': 'a.example'}
PLAIN = {'name': 'Accept', 'value': 'text/html, */*;q=0.5'}
ODD = {'name': 'x-Odd', 'value': ' caf\xe9 '}
COLON = [{'name': ':method', 'value': 'GET'},
         {'name': ':authority', 'value': 'a.example'}]


def entry(**kw):
    e = {
        'startedDateTime': '2020-01-01T00:00:00.000Z', 'time': 1,
        'request': {
            'method': 'GET', 'url': 'http://a.example/x', 'cookies': [],
            'httpVersion': 'HTTP/1.1', 'headers': [HOST, PLAIN],
            'queryString': [], 'headersSize': -1, 'bodySize': 0,
        },
        'response': {
            'status': 200, 'statusText': 'OK', 'httpVersion': 'HTTP/1.1',
            'cookies': [], 'headers': [PLAIN], 'redirectURL': '',
            'headersSize': -1, 'bodySize': 5,
            'content': {'size': 5, 'mimeType': 'text/plain'},
        },
        'cache': {}, 'timings': {},
    }
    for n, v in kw.items():
        path = n.split('__')
        d = e
        for p in path[:-1]:
            d = d[p]
        if v is GONE:
            d.pop(path[-1], None)
        else:
            d[path[-1]] = v
    return e


GONE = object()


def product(**dims):
    names = list(dims)
    for vs in itertools.product(*dims.values()):
        yield dict(zip(names, vs))


def b64(x):
    return base64.b64encode(x).decode('ascii')


URLS = ['http://a.example/x', 'https://a.example:8443/x/y?q=1&r=%20',
        'http://a.example', 'http://a.example/?', 'HTTP://A.example/B?c#d',
        'a.example:443', 'http://a.example/p;v=1?x=/;y']
TEXTS = [{}, {'text': ''}, {'text': 'plain'}, {'text': 'caf\xe9 \u2014'},
         {'text': b64(b'bytes\xff'), 'encoding': 'base64'},
         {'text': b64(b'bytes'), 'encoding': 'BASE64'},
         {'text': 'x', 'encoding': 'base64'},
         {'text': 'x', 'encoding': ''}, {'text': 'x', 'encoding': 'gzip'},
         {'text': '', 'encoding': 'base64'}]


def documents(tier):
    """(creator, [entry])"""
    for d in product(request__method=['GET', 'POST', 'CONNECT', 'connect'],
                     request__url=URLS,
                     request__headers=[[HOST, PLAIN], [PLAIN],
                                       COLON + [PLAIN],
                                       [dict(HOST, name='hOST'), ODD] + COLON,
                                       []]):
        yield FIDDLER if len(d['request__headers']) % 2 else '', [entry(**d)]
    post = [GONE, None, {'mimeType': 'a/b'}, {'mimeType': '', 'text': ''},
            {'text': 'a=b'}, {'text': None},
            {'text': 'A Fiddler tunnel\u2026'}]
    for c in CREATORS:
        for d in product(request__method=['POST', 'CONNECT'],
                         request__bodySize=[-1, 0, 1, 700],
                         request__postData=post):
            yield c, [entry(**d)]
        for v, w in itertools.product(
                ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2.0', 'h2', '', 'unknown',
                 'http/1.1'], repeat=2):
            yield c, [entry(request__httpVersion=v, response__httpVersion=w,
                            response__headers=COLON[:1] + [ODD, PLAIN, ODD])]
        for d in product(response__status=[0, 200, 304, 404],
                         response__bodySize=[-1, 0, 5],
                         size=[-1, 0, 5], text=TEXTS):
            size, text = d.pop('size'), d.pop('text')
            if text.get('text') and 0 in (size, d['response__bodySize']):
                continue                    # it contradicts itself
            yield c, [entry(response__content=dict(text, size=size), **d)]
        extra = [{'name': n, 'value': '1'} for n in (
            'EndTime', 'StartTime', 'ClientToServerBytes',
            'ServerToClientBytes')]
        for d in product(request__method=['GET', 'CONNECT'],
                         response__status=[199, 200, 204, 299, 300, 403],
                         text=[{}, TEXTS[4],
                               {'text': b64(b'a Fiddler b'),
                                'encoding': 'base64'},
                               {'text': 'a Fiddler b'}]):
            text = d.pop('text')
            yield c, [entry(response__content=dict(text, size=9),
                            response__headers=extra + [PLAIN],
                            response__statusText='', **d)]
    one = entry(request__url='http://a.example/1')
    two = entry(request__url='http://a.example/2', response__status=0)
    three = entry(request__url='http://a.example/3',
                  response__statusText='Third')
    for xs in ([], [one, two, three], [three, one], [two, two],
               [one, copy.deepcopy(one)]):
        yield '', xs


def run(ctx):
    F = Hars(ctx.model())
    n = dict(documents=0, obligations=0, discharged=0)
    skipped = []
    for creator, entries in documents(ctx.tier):
        if len(skipped) > 20:
            break
        doc = {'log': {'version': '1.2', 'creator': {'name': creator},
                       'entries': entries}}
        want = [exchange(e, creator) for e in entries]
        n['documents'] += 1
        try:
            with limit(15):
                got = F.read(doc)
                shown = None if got is None or got and got[0] == 'error' \
                    else [F.shown(x) for x in got]
        except Budget:
            got = None
        if got is None:
            skipped.append(label(creator, entries))
            continue
        if got and got[0] == 'error':
            n['obligations'] += 1
            ctx.violation('%s' % got[1], WHERE, 'a well-formed document is '
                          'refused (%s): %s' % (got[1],
                                                label(creator, entries)))
            continue
        compare(ctx, n, label(creator, entries), shown, want)
    if not n['obligations']:
        raise AnchorError('nothing could be compared: %r' % skipped[:2])
    ctx.cover(rule='messages of HAR entries == what the entries record, '
              'unavailable where HAR cannot tell', skipped=len(skipped), **n)


def label(creator, entries):
    """The document, by what distinguishes it from the plainest one."""
    base = entry()
    out = ['creator %r' % creator]
    for e in entries:
        for part in ('request', 'response'):
            for a, b in e[part].items():
                if base[part].get(a) != b:
                    out.append('%s.%s = %.120r' % (part, a, b))
    if len(entries) != 1:
        out.append('%d entries' % len(entries))
    return '; '.join(out)


def compare(ctx, n, what, shown, want):
    n['obligations'] += 1
    if len(shown) != len(want) or any(
            len(a[1]) != len(b[1]) or a[0] is None
            for a, b in zip(shown, want)):
        ctx.violation('exchanges', WHERE, '%s: it becomes %s, not %s' % (
            what, shape(shown), shape(want)))
        return
    n['discharged'] += 1
    for a, b in zip(shown, want):
        for side, x, y in [('request', a[0], b[0])] + [
                ('response', r, s) for r, s in zip(a[1], b[1])]:
            for f, v in y.items():
                if v is DERIVED or x[f] is UNSURE:
                    continue
                n['obligations'] += 1
                if same(x[f], v):
                    n['discharged'] += 1
                else:
                    ctx.violation(
                        '%s.%s' % (side, f), WHERE,
                        '%s: %s of the %s is %r, not %r' % (
                            what, f, side, x[f], v))


def same(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(
            p is UNSURE or p == q
            for x, y in zip(a, b) for p, q in zip(x, y))
    return type(a) is type(b) and a == b


def shape(xs):
    return '%d exchange(s) with %s response(s)' % (
        len(xs), ', '.join(str(len(r)) for _, r in xs) or 'no')
