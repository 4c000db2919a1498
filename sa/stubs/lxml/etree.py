"""What HTTPolice uses of lxml.etree, for the abstract interpreter only."""


class ElementBase:

    def get(self, name, default=None):
        return self._attrib.get(name, default)

    def find(self, tag):
        for child in self._children:
            if child.tag == tag:
                return child
        return None

    def findall(self, tag):
        return [child for child in self._children if child.tag == tag]

    def append(self, child):
        self._children.append(child)

    def getchildren(self):
        return list(self._children)

    def __iter__(self):
        return iter(self._children)

    def __len__(self):
        return len(self._children)


class _Comment:
    pass


def Comment(text=None):
    pass


class _Namespace:

    def __init__(self):
        self.classes = {}

    def __call__(self, name):
        def deco(cls):
            self.classes[name] = cls
            return cls
        return deco

    def __setitem__(self, name, cls):
        self.classes[name] = cls


class ElementNamespaceClassLookup:

    def __init__(self):
        self.ns = _Namespace()

    def get_namespace(self, name):
        return self.ns


class XMLParser:

    def set_element_class_lookup(self, lookup):
        self.lookup = lookup

    def makeelement(self, tag):
        cls = self.lookup.ns.classes.get(tag, ElementBase)
        elem = cls()
        elem.tag = tag
        elem.text = None
        elem.tail = None
        elem._attrib = {}
        elem._children = []
        return elem


def fromstring(data, parser=None):
    raise NotImplementedError       # see sa/catalogue.py
