"""Running the message checks under the abstract interpreter."""
from .model import make_request, make_response, make_exchange
from .values import one, K


def run_exchange(M, req=True, nresp=1):
    """Analyse check_exchange() on a symbolic exchange."""
    I = M.I
    done = M.__dict__.setdefault('ran', {})
    if (req, nresp) in done:
        return done[(req, nresp)]
    n0, f0 = len(M.events), len(I.faults)
    u0 = len(I.undecided)
    I.pc = 1
    rq = make_request(M) if req else None
    rs = [make_response(M, 'resp' if i == 0 else 'resp%d' % (i + 1))
          for i in range(nresp)]
    ex = make_exchange(M, rq, rs)
    I.call(one(M.global_('httpolice.exchange', 'check_exchange')),
           [one(ex)], {})
    r = {'events': M.events[n0:], 'faults': I.faults[f0:], 'pc': I.pc,
         'undecided': I.undecided[u0:], 'exch': ex, 'req': rq,
         'resps': rs}
    I.pc = 1
    done[(req, nresp)] = r
    return r
