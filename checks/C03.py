"""Focused single elements against the model, and method off against the unfocused function."""
from vf import sir
from vf.core import Check, Sub, fail
from .C01 import run, agree, RULE, more

FNS = sir.FOC


def run_off(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    c = dict(c, foc='off')
    a = sir.call(c, ctx, c['backend'])
    b = sir.call(dict(c, fn=c['fn'][:-2]), ctx, c['backend'])
    R = sir.refs(c)
    if (a.h is None) != (b.h is None):
        fail('%s: %s, but %s: %s', c['fn'], a.exc or 'computed', c['fn'][:-2], b.exc or 'computed')
    if a.h is not None:
        agree(c, a.h, b.h, R, 'method off and the unfocused function')
    return c['fn'], sir.nontrivial(R)


CHECK = Check('C03', RULE, {'main': sir.targets(FNS + [f[:-2] for f in FNS])},
              [Sub(f[5:], sir.case([f], foc=True), run, 2400) for f in FNS] +
              [Sub('off', sir.case(FNS, mode='partial'), run_off, 500), Sub('offin', sir.case(FNS), run_off, 500)] + more(FNS, foc=True))
