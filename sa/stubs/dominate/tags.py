class dom_tag:

    def __init__(self, *args, **kwargs):
        for a in args:
            sink_text(a)
        for name in kwargs:
            sink_attr(name, kwargs[name])

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, traceback):
        pass

    def __len__(self):
        return sink_len(self)

    def add(self, *args):
        for a in args:
            sink_text(a)

    def add_raw_string(self, s):
        sink_raw(s)

    def render(self):
        return sink_render(self)


def attr(*args, **kwargs):
    for name in kwargs:
        sink_attr(name, kwargs[name])


class html(dom_tag):
    pass


class head(dom_tag):
    pass


class body(dom_tag):
    pass


class h1(dom_tag):
    pass


class h2(dom_tag):
    pass


class h3(dom_tag):
    pass


class h4(dom_tag):
    pass


class h5(dom_tag):
    pass


class h6(dom_tag):
    pass


class p(dom_tag):
    pass


class div(dom_tag):
    pass


class span(dom_tag):
    pass


class a(dom_tag):
    pass


class abbr(dom_tag):
    pass


class b(dom_tag):
    pass


class i(dom_tag):
    pass


class em(dom_tag):
    pass


class strong(dom_tag):
    pass


class code(dom_tag):
    pass


class pre(dom_tag):
    pass


class cite(dom_tag):
    pass


class q(dom_tag):
    pass


class var(dom_tag):
    pass


class meta(dom_tag):
    pass


class style(dom_tag):
    pass


class base(dom_tag):
    pass


class script(dom_tag):
    pass


class link(dom_tag):
    pass


class section(dom_tag):
    pass


class article(dom_tag):
    pass


class header(dom_tag):
    pass


class footer(dom_tag):
    pass


class nav(dom_tag):
    pass


class hr(dom_tag):
    pass


class br(dom_tag):
    pass


class ul(dom_tag):
    pass


class ol(dom_tag):
    pass


class li(dom_tag):
    pass


class dl(dom_tag):
    pass


class dt(dom_tag):
    pass


class dd(dom_tag):
    pass


class table(dom_tag):
    pass


class tr(dom_tag):
    pass


class td(dom_tag):
    pass


class th(dom_tag):
    pass


class tbody(dom_tag):
    pass


class thead(dom_tag):
    pass


class blockquote(dom_tag):
    pass


class details(dom_tag):
    pass


class summary(dom_tag):
    pass


class small(dom_tag):
    pass


class sub(dom_tag):
    pass


class sup(dom_tag):
    pass


class samp(dom_tag):
    pass


class kbd(dom_tag):
    pass


class title(dom_tag):
    pass


class img(dom_tag):
    pass


class button(dom_tag):
    pass


class label(dom_tag):
    pass


class tt(dom_tag):
    pass
