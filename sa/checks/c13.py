"""Rules about every message: for every notice, the condition under which
check_exchange() reports it -- computed by abstract interpretation over all
paths, as a Boolean function of predicates on the input -- equals the
condition written in spec/rules.txt."""
from . import rulecheck

LEVEL = 'other'
ASSUMES = ['external libraries behave as modelled in sa/extlib.py',
           'header fields are combined and parsed as C20 and C09/C10 decide']


def run(ctx):
    rulecheck.run(ctx, 'C13')
