"""What streams are taken apart into: httpolice.framing1 and httpolice.stream
are interpreted abstractly on a family of streams covering every construct of
message syntax and every way for it to be broken, and the exchanges, messages
and notices must be those of spec/streams.txt."""
import codecs
import re

from ..model import AnchorError
from ..streams import Feed
from ..values import K, ListV, O, TupV, one

LEVEL = 'other'
ASSUMES = (
    'files behave as io.BufferedReader does',
    'header fields are parsed as C09 and C24 decide',
)
WHERE = 'httpolice/framing1.py parse_streams'


def read(path):
    """[(name, inbound, outbound, [expected line])]"""
    out = []
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.rstrip('\n')
            if line.startswith('== '):
                out.append([line[3:], None, None, []])
            elif line[:1] in '<>' and line:
                i = 1 if line[0] == '>' else 2
                kind, text = line[1:2], line[2:]
                text = re.sub(r'\{(.)\*(\d+)\}', lambda mo: mo[1] * int(mo[2]),
                              text)
                data = codecs.escape_decode(text.encode('utf-8'))[0]
                if kind == '!':
                    data = data.lstrip(b' ') + b'\n'
                elif kind == '*':
                    pass
                elif kind == '0':
                    data = b''
                else:
                    data += b'\r\n'
                out[-1][i] = (out[-1][i] or b'') + data
            elif line.startswith('= '):
                out[-1][3].append(line[2:])
            elif line and not line.startswith('#'):
                raise AnchorError('spec: %r' % line)
    return out


class Show:

    def __init__(self, F):
        self.F, self.I = F, F.I

    def const(self, v):
        if v is None or len(v.alts) != 1:
            return '?'
        s = self.I.prim_of(v.alts[0][1])
        if isinstance(s, K):
            if isinstance(s.v, bytes):
                t = repr(s.v)[1:]
                return t if len(t) < 100 else '%d bytes' % len(s.v)
            return str(s.v) if len(str(s.v)) < 100 else \
                '%d characters' % len(s.v)
        if isinstance(s, O) and s.cls.name == 'Unavailable':
            return 'unavailable'
        return self.F.render(v)

    def fields(self, v):
        out = []
        for g, s in v.alts:
            if not isinstance(s, ListV) or s.opaque is not None:
                return ['?']
            for g2, e in s.entries:
                if g2 == 0:
                    continue
                x = self.I.prim_of(e.single())
                if not isinstance(x, TupV):
                    return ['?']
                out.append('%s: %s' % tuple(
                    self.const(y) for y in x.items[:2]))
        return out

    def message(self, o, start):
        r = [' '.join(self.const(o.attrs.get(a)) for a in start)]
        r += ['{%s}' % '; '.join(self.fields(o.attrs['header_entries']))]
        r.append(self.const(o.attrs.get('body')))
        if self.fields(o.attrs['trailer_entries']):
            r.append('trailer {%s}' % '; '.join(
                self.fields(o.attrs['trailer_entries'])))
        return ' '.join(r) + self.notices(o)

    def notices(self, o):
        n = sorted(str(e.id) for e in self.F.M.events
                   if e.obj is o and e.guard)
        return ' ! ' + ' '.join(n) if n else ''

    def exchange(self, e):
        g, req, resps, x = e
        r = []
        for h, q in req:
            if isinstance(q, O):
                r.append(self.message(q, ('method', 'target', 'version',
                                          'scheme')))
        for h, q in resps:
            r.append('-> ' + self.message(q, ('version', 'status', 'reason')))
            if q.attrs.get('request') is None or \
                    q.attrs['request'].single() is not req[0][1] and not (
                        isinstance(req[0][1], K)):
                r.append('(not a response to it)')
        if not r:
            r.append('box')
        return ' '.join(r) + self.notices(x)


def evaluate(F, inbound, outbound):
    I = F.I
    n0 = len(I.faults)
    es = F.run(inbound, outbound)
    S = Show(F)
    if es is None:
        return None
    out = [S.exchange(e) for e in es]
    if any(e[0] != 1 for e in es):
        return None
    for x in I.faults:
        out.append('raises %s' % getattr(x[0], 'name', x[0]))
    return out


def run(ctx):
    F = Feed(ctx.model(), False)
    spec = read(ctx.spec('streams.txt'))
    done = same = 0
    for name, inbound, outbound, want in spec:
        got = evaluate(F, inbound, outbound)
        if got is None or F.unsure():
            continue
        done += 1
        if got == want:
            same += 1
            continue
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        ctx.violation(name, WHERE, 'for the stream "%s": expected %r, but '
                      'the code gives %r' % (
                          name, want[i] if i < len(want) else 'nothing more',
                          got[i] if i < len(got) else 'nothing more'))
    if done < 40:
        raise AnchorError('only %d streams could be evaluated' % done)
    ctx.cover(obligations=done, discharged=same, streams=len(spec),
              rule='exchanges, messages and notices of each family of '
              'streams are those of spec/streams.txt')
