"""Flat apertures against the discrete-representation sum (and helpers shared by C02-C08)."""
import numpy as np
from vf import sir
from vf.core import Check, Sub, fail

FNS = ['dreamline', 'dreamrect', 'dreamcirc']
RULE = ('a case is one generated call (or a group of related calls) compared sample by sample with the NumPy model of the manual, '
        'in Python or Octave; it is non-trivial when at least two samples of some response receive a contribution')


def run(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    o = sir.call(c, ctx, c['backend'])
    R = sir.compare(c, o)
    if o.mutated:
        sir.fail('inputs %s modified', o.mutated)
    return c['fn'] + '/' + c['backend'] + ('/vec' if len(c['delay']) > 1 else '/scalar'), sir.nontrivial(R)


def agree(c, h, g, R, what, rtol=1e-9):
    """two computed responses agree, apart from contributions on a rounding tie or an edge"""
    h, g = np.asarray(h, float), np.asarray(g, float)
    if h.shape != g.shape:
        fail('%s: %s differ in size: %s and %s', c['fn'], what, h.shape, g.shape)
    for n, b in enumerate(R):
        tol = rtol * b.s + 1e-12 * b.tot + np.abs(b.hi - b.lo) * 1.001
        bad = ~(np.abs(h[:, n] - g[:, n]) <= tol)
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            fail('%s, observation point %d, sample %d: %s differ: %r and %r', c['fn'], n, k, what, float(h[k, n]), float(g[k, n]))


ATT = dict(cells=4, span=(2, 40), nobs=(1, 3), maxel=4, big=False)


def more(fns, n=500, **k):
    """the same law with absorption, and with windows that hold only a part of the response"""
    return [Sub('att', sir.case(fns, alpha=True, **dict(ATT, **k)), run, n),
            Sub('partial', sir.case(fns, mode='partial', **k), run, n),
            Sub('att_partial', sir.case(fns, mode='partial', alpha=True, **dict(ATT, **k)), run, n // 3)]


CHECK = Check('C01', RULE, {'main': sir.targets(FNS)},
              [Sub(f[5:], sir.case([f]), run, 2200) for f in FNS] + more(FNS))
