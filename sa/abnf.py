"""A reader for the ABNF of /verif/spec, producing automata."""
import re

from . import lang

TOK = re.compile(r'''\s+|;[^\n]*|(?P<name>[A-Za-z][A-Za-z0-9-]*)|
    (?P<str>%s"[^"]*"|%i"[^"]*"|"[^"]*")|
    (?P<num>%[xX][0-9A-Fa-f]+(?:-[0-9A-Fa-f]+|(?:\.[0-9A-Fa-f]+)*))|
    (?P<int>[0-9]+)|(?P<op>[][(){}/*#=-])''', re.X)


class ABNF:

    def __init__(self, path, letters):
        self.letters = letters
        self.rules = {}
        self.memo = {}
        self.busy = []
        self.recursive = set()
        cur = None
        for line in open(path):
            line = line.rstrip('\n')
            if not line.strip() or line.lstrip().startswith(';'):
                continue
            if line[0] in ' \t':
                self.rules[cur] += ' ' + line.strip()
                continue
            name, _, body = line.partition('=')
            cur = name.strip()
            if cur in self.rules:
                raise ValueError('duplicate ABNF rule ' + cur)
            self.rules[cur] = body.strip()

    def tokens(self, s):
        out = []
        i = 0
        while i < len(s):
            m = TOK.match(s, i)
            if m is None:
                raise ValueError('bad ABNF: %r' % s[i:])
            if m.lastgroup:
                out.append((m.lastgroup, m.group()))
            i = m.end()
        return out

    def dfa(self, name):
        r = self.memo.get(name)
        if r is not None:
            return r
        if name in self.busy:
            self.recursive.add(name)
            return self.letters.get(name)
        if self.is_rec(name):
            self.recursive.add(name)
            r = self.letters.get(name)
            self.memo[name] = r
            return r
        return self.body(name)

    def is_rec(self, name, seen=None):
        todo = [name]
        seen = set()
        while todo:
            n = todo.pop()
            for k, t in self.tokens(self.rules[n]):
                if k == 'name':
                    if t == name:
                        return True
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
        return False

    def body(self, name):
        if name not in self.rules:
            raise KeyError('ABNF rule %s' % name)
        self.busy.append(name)
        toks = self.tokens(self.rules[name])
        d, i = self.alt(toks, 0)
        if i != len(toks):
            raise ValueError('bad ABNF in %s at %r' % (name, toks[i:]))
        self.busy.pop()
        if name not in self.recursive:
            self.memo[name] = d
        return d

    def alt(self, t, i):
        ds = []
        while True:
            d, i = self.cat(t, i)
            ds.append(d)
            if i < len(t) and t[i] == ('op', '/'):
                i += 1
                continue
            return lang.union(ds), i

    def cat(self, t, i):
        ds = []
        while i < len(t) and t[i] not in (('op', '/'), ('op', ')'),
                                          ('op', ']'), ('op', '}')):
            d, i = self.rep(t, i)
            ds.append(d)
        return lang.concat(ds), i

    def rep(self, t, i):
        lo, hi = 1, 1
        if t[i][0] == 'int' or t[i] in (('op', '*'), ('op', '#')):
            n = None
            if t[i][0] == 'int':
                n = int(t[i][1])
                i += 1
            if i < len(t) and t[i] == ('op', '#'):
                d, i = self.elem(t, i + 1)
                return self.list_(d, n or 0), i
            if i < len(t) and t[i] == ('op', '*'):
                i += 1
                lo = n or 0
                hi = None
                if t[i][0] == 'int':
                    hi = int(t[i][1])
                    i += 1
            else:
                lo = hi = n
        d, i = self.elem(t, i)
        if (lo, hi) != (1, 1):
            d = lang.repeat(d, lo, hi)
        return d, i

    def list_(self, d, lo):
        ws = lang.repeat(lang.letter(1 << 32 | 1 << 9), 0, None)
        comma = lang.letter(1 << 44)
        opt = lang.union
        if lo == 0:
            # [ ( "," / element ) *( OWS "," [ OWS element ] ) ], whitespace
            # around empty elements and at the end being immaterial.
            e = opt([lang.EPS, lang.concat([d, ws])])
            return lang.concat([e, lang.repeat(
                lang.concat([comma, ws, e]), 0, None)])
        # *( "," OWS ) element *( OWS "," [ OWS element ] )
        return lang.concat([
            lang.repeat(lang.concat([comma, ws]), 0, None), d,
            lang.repeat(lang.concat(
                [ws, comma, opt([lang.EPS, lang.concat([ws, d])])]),
                0, None)])

    def elem(self, t, i):
        k, s = t[i]
        if k == 'name':
            return self.dfa(s), i + 1
        if k == 'str':
            cs = s.startswith('%s')
            s = s[s.index('"') + 1:-1]
            ds = []
            for c in s:
                m = 1 << ord(c)
                if not cs:
                    m |= 1 << ord(c.lower()) | 1 << ord(c.upper())
                ds.append(lang.letter(m))
            return lang.concat(ds), i + 1
        if k == 'num':
            b = s[2:]
            if '-' in b:
                a, z = [int(x, 16) for x in b.split('-')]
                m = 0
                for c in range(a, z + 1):
                    m |= 1 << c
                return lang.letter(m), i + 1
            return lang.concat([lang.letter(1 << int(x, 16))
                                for x in b.split('.')]), i + 1
        if s == '(':
            d, i = self.alt(t, i + 1)
            assert t[i] == ('op', ')'), t[i:]
            return d, i + 1
        if s == '[':
            d, i = self.alt(t, i + 1)
            assert t[i] == ('op', ']'), t[i:]
            return lang.union([lang.EPS, d]), i + 1
        if s == '{':
            a, i = self.elem(t, i + 1)
            assert t[i] == ('op', '-'), t[i:]
            b, i = self.elem(t, i + 1)
            assert t[i] == ('op', '}'), t[i:]
            return lang.difference(a, b), i + 1
        raise ValueError('bad ABNF element %r' % (t[i:],))
