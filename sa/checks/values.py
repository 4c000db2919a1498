"""The table of header words (spec/values.txt), evaluated once per run."""
from ..headval import Words


def table(ctx):
    rows = []
    head = None
    for ln in open(ctx.spec('values.txt'), encoding='utf-8'):
        ln = ln.rstrip('\n')
        if ln.startswith('#'):
            continue
        if ln.startswith('    ['):
            ns, _, v = ln.strip()[1:].partition('] ')
            name, _, f = head.partition(': ')
            rows.append((name, f, ns.split(), v))
        else:
            head = ln
    return rows


def evaluate(ctx):
    W = Words(ctx.model())
    for name, f, ns, v in table(ctx):
        got_v, got_n = W.load(name, f.split(' ++ '))
        yield name, f, ns, v, got_n, got_v, W
