"""Stand-ins for an input and a report."""

exchanges = []
fails = False
broken = None


def input_(paths):
    for exch in exchanges:
        feed_read(exch)
        yield exch
    if fails:
        raise broken(u'cannot go on')


def report(items, buf):
    for exch in items:
        feed_reported(exch)
        for obj in [exch] + exch.children:
            for complaint in obj.complaints:
                feed_shown(obj, complaint)
