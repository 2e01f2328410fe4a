"""Analytic circular responses."""
import numpy as np
from hypothesis import strategies as st
from vf import analytic as an
from vf.core import Check, Sub, fail


def relations(c, ctx):
    """Rotation about the axis, proportionality to v."""
    h = an.call(c, ctx)
    f, w = c['f'], c['w']
    rot = [[float(np.hypot(p[0], p[1])) * np.cos(w), float(np.hypot(p[0], p[1])) * np.sin(w), p[2]] for p in c['ro']]
    g = an.call(dict(c, v=c['v'] * f), ctx)
    top = c['v'] * c['cp']
    if not (np.abs(h * f - g) <= 1e-9 * top * f).all():
        fail('%s is not proportional to v', c['fn'])
    r = an.call(dict(c, ro=rot), ctx)
    # rotation rounds the off-axis distance: samples next to a break point or on a steep edge may differ
    for n, p in enumerate(c['ro']):
        q = np.array(p) * 1e-3
        t = an.times(c, n)
        if c['fn'] == 'circ_sir':
            lo, hi = an.hull(lambda s: an.circ(s, q, c['geom'][0] * 1e-3, c['v'], c['cp']), t, 1e-11 * abs(t).max(), an.circ_breaks(q, c['geom'][0] * 1e-3, c['cp']), q[2] / c['cp'], top)
            ok = hi - lo < 1e-7 * top
        else:
            ok = np.full(len(t), abs(np.hypot(p[0], p[1]) - c['geom'][0]) > 1e-6)
        if not (np.abs(h[:, n] - r[:, n]) <= 1e-5 * top)[ok].all():
            fail('%s: point %s and the point rotated by %g about the axis differ', c['fn'], p, w)
    return c['fn'], bool(np.count_nonzero(h) > 1)


def plus(s):
    return st.tuples(s, an.fl(0.1, 10), an.fl(-3.1, 3.1)).map(lambda t: dict(t[0], f=t[1], w=t[2]))


def edge(fn):
    """Start delays that put samples exactly on the arrivals from the edges."""
    @st.composite
    def s(draw):
        c = draw(an.case(fn))
        p = c['ro'][0]
        rc, R = np.hypot(p[0], p[1]), c['geom'][0]
        a = draw(st.sampled_from([p[2], np.hypot(p[2], R - rc), np.hypot(p[2], R + rc)]))
        c['ro'] = [p]
        c['delay'] = [float(a / 1e3 / c['cp'] * 1e6)]
        return c
    return s()


CHECK = Check('C15', 'points on the axis, inside, on and outside the projection of the disc, in front of or in the plane; every sample is compared with the closed form (circ_sir) or its mean over the sampling interval by quadrature (scirc_sir), as an interval hull over the rounding of the time; rotation and velocity relations. Non-trivial: at least two non-zero samples', {'main': ['oct_circ_sir', 'oct_scirc_sir']},
              [Sub('circ', an.case('circ_sir'), an.check, 2500), Sub('scirc', an.case('scirc_sir'), an.check, 2000),
               Sub('edge', edge('circ_sir'), an.check, 1200), Sub('edge_s', edge('scirc_sir'), an.check, 500),
               Sub('rel', plus(an.case('circ_sir')), relations, 500), Sub('rel_s', plus(an.case('scirc_sir')), relations, 400)])
