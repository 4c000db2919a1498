"""Header values mean what the specifications say: the semantic actions of the
grammar and the views of httpolice.header are interpreted abstractly on the
derivations of a family of words covering every construct, and the resulting
values are compared with spec/values.txt."""
from .values import evaluate

LEVEL = 'other'
ASSUMES = (
    'the parser applies the semantic actions of the derivation it finds '
    '(C30); where a word has several derivations, all are equivalent',
    'spec/values.txt states what the specifications mean',
    'a construct behaves alike on all words in its language that differ '
    'only within a symbolic leaf or within a token it does not inspect',
)


def run(ctx):
    n = 0
    heads = set()
    for name, f, ns, v, got_n, got_v, W in evaluate(ctx):
        n += 1
        heads.add(name.partition('@')[0])
        if got_v != v:
            ctx.violation('%s:%s' % (name, f[:60]), name,
                          'the value of "%s: %s" becomes %s, but %s is '
                          'specified' % (name, f, got_v[:300], v[:300]))
    from ..derive import Derive
    ctx.cover(words=n, headers=len(heads),
              actions_interpreted=len(Derive.ran))
