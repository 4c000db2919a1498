"""The catalogue of notices and the report libraries, for the interpreter.

`install` makes the interpreter load stand-ins for lxml.etree and dominate
(sa/stubs), with lxml's parser replaced by a native one that builds the
elements of notices.xml; what reports write is recorded by `Sinks`.
"""
import os
import xml.etree.ElementTree as ET

from .values import DictV, K, ListV, NONE, NatV, O, Sy, one

HERE = os.path.dirname(os.path.abspath(__file__))


def install(I):
    stubs = os.path.join(HERE, 'stubs')
    I.stubs.update(lxml=stubs, dominate=stubs)
    I.intercepts['lxml.etree:fromstring'] = i_fromstring
    mod = I.load('httpio', os.path.join(stubs, 'httpio.py'))
    sio = mod.ns['StringIO']
    I.ext_override['io.StringIO'] = sio
    I.ext_override['codecs.getwriter'] = one(NatV('getwriter', i_getwriter))
    I.sinks = Sinks(I)
    for m in ('dominate', 'dominate.tags', 'dominate.util'):
        I.import_module(m)
    for m in ('dominate', 'dominate.tags', 'dominate.util', 'httpio'):
        I.modules[m].ns.update(I.sinks.functions)


def i_getwriter(I, args, kwargs):
    enc = args[0]

    def writer(I, a, kw):
        o = O(I.modules['httpio'].ns['StringIO'].single(), {})
        o.attrs['stream'] = a[0]
        o.attrs['encoding'] = enc
        return one(o)
    return one(NatV('writer', writer))


class Sinks:
    """What a report writes: (kind, object, guard, value, site)."""

    def __init__(self, I):
        self.I = I
        self.out = []
        self.bufs = {}
        self.functions = {
            'sink_' + n: one(NatV('sink_' + n, getattr(self, n)))
            for n in ('text', 'attr', 'raw', 'len', 'render', 'write',
                      'value')}

    def add(self, kind, o, v):
        I = self.I
        self.out.append((kind, o, I.pc, v, self.site(), tuple(I.open)))

    def site(self):
        """The innermost analysed function that is not a stand-in's."""
        I = self.I
        for i, fr in enumerate(reversed(I.frames)):
            mod = fr.scope.module
            if mod is None or not mod.path or '/stubs/' in mod.path:
                continue
            if i == 0:
                return I.site()
            node = getattr(fr.func, 'node', None)
            return (mod.path,
                    fr.func.name if fr.func is not None else '<module>',
                    getattr(node, 'lineno', 0))
        return I.site()

    def text(self, I, a, kw):
        def go(s):
            if isinstance(s, O) and s.prim is None:
                tag = I.modules['dominate.tags'].ns['dom_tag'].single()
                if s.cls.is_sub(tag):
                    return NONE
            p = I.prim_of(s)
            if I.pytype(p) in ('str', 'int', 'float'):
                self.add('text', None, one(p))
            else:
                I.fault('ValueError', 'an element made of %s' % str(
                    I.pathof(s))[:80])
            return NONE
        return I.split(a[0], go)

    def attr(self, I, a, kw):
        self.add('attr', a[0], a[1])
        return NONE

    def raw(self, I, a, kw):
        self.add('raw', None, a[0])
        return NONE

    def len(self, I, a, kw):
        return I.sy(I.fresh('len'), ('prim', 'int'))

    def render(self, I, a, kw):
        return one(K(''.join(
            s.v for kind, _, g, v, _, _ in self.out if kind == 'text'
            for _, s in v.alts if isinstance(s, K) and
            isinstance(s.v, str))))

    def write(self, I, a, kw):
        o = a[0].single()
        self.add('write', o, a[1])
        b = self.bufs.setdefault(id(o), [o, []])
        b[1].append((I.pc, a[1]))
        return NONE

    def value(self, I, a, kw):
        o = a[0].single()
        b = self.bufs.setdefault(id(o), [o, []])
        g = 0
        for w, _ in b[1]:
            g = I.m.or_(g, w)
        text = I.sy(('buf', id(o)), ('prim', 'str'))
        if g == 0:
            return one(K(''))
        return text if g == 1 else I.ite(g, text, one(K('')))


def i_fromstring(I, f, args, kwargs):
    data = args[0].single()
    mod = I.modules['lxml.etree'].ns
    pv = args[1].single() if len(args) > 1 else None
    classes = {}
    if isinstance(pv, O) and 'lookup' in pv.attrs:
        ns = pv.attrs['lookup'].single().attrs['ns'].single()
        d = ns.attrs['classes'].single()
        for kk, e in d.entries.items():
            classes[e[0].single().v] = e[2].alts[0][1]
    base = mod['ElementBase'].single()
    comment = mod['_Comment'].single()
    ctag = mod['Comment']

    def build(e):
        if not isinstance(e.tag, str):
            cls, tag = comment, ctag
        else:
            cls, tag = classes.get(e.tag, base), one(K(e.tag))
        o = O(cls, {})
        at = DictV()
        for k, v in e.attrib.items():
            at.entries[('k', k)] = [one(K(k)), 1, one(K(v))]
        o.attrs.update(
            tag=tag, text=one(K(e.text)), tail=one(K(e.tail)),
            _attrib=one(at),
            _children=one(ListV('list', [(1, one(build(c))) for c in e])))
        return o
    if not isinstance(data, K):
        return NONE
    p = ET.XMLParser(target=ET.TreeBuilder(insert_comments=True))
    p.feed(data.v)
    return one(build(p.close()))
