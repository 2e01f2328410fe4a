"""Analytic rectangular response."""
import numpy as np
from hypothesis import strategies as st
from vf import analytic as an
from vf.core import Check, Sub, fail


def relations(c, ctx):
    h = an.call(c, ctx)
    f = c['f']
    top = c['v'] * c['cp']
    if not (np.abs(h * f - an.call(dict(c, v=c['v'] * f), ctx)) <= 1e-9 * top * f).all():
        fail('rect_sir is not proportional to v')
    for name, m in (('x', [-1, 1, 1]), ('y', [1, -1, 1]), ('xy', [-1, -1, 1])):
        g = an.call(dict(c, ro=[[a * b for a, b in zip(p, m)] for p in c['ro']]), ctx)
        if not (np.abs(g - h) <= 1e-6 * top).all():
            fail('rect_sir is not symmetric in %s', name)
    r = an.call(dict(c, ro=[[p[1], p[0], p[2]] for p in c['ro']], geom=c['geom'][::-1]), ctx)
    if not (np.abs(h - r) <= 1e-7 * top).all():
        fail('rect_sir changes when x and y are exchanged')
    return 'rect_sir', bool(np.count_nonzero(h) > 1)


def plus(s):
    return st.tuples(s, an.fl(0.1, 10)).map(lambda t: dict(t[0], f=t[1]))


@st.composite
def edge(draw):
    c = draw(an.case('rect_sir'))
    p = c['ro'][0]
    a, b = c['geom']
    s = draw(st.sampled_from([0, a / 2 - abs(p[0]), a / 2 + abs(p[0])]))
    l = draw(st.sampled_from([0, b / 2 - abs(p[1]), b / 2 + abs(p[1])]))
    c['ro'] = [p]
    c['delay'] = [float(np.sqrt(p[2] ** 2 + s * s + l * l) / 1e3 / c['cp'] * 1e6)]
    return c


CHECK = Check('C16', 'points inside, above edges and corners, beside and in the plane of the rectangle; every sample is compared with the angle of the circle inside the aperture as an interval hull over the rounding of the time; mirror, exchange and velocity relations. Non-trivial: at least two non-zero samples', {'main': ['oct_rect_sir']},
              [Sub('model', an.case('rect_sir'), an.check, 4000), Sub('edge', edge(), an.check, 2000), Sub('rel', plus(an.case('rect_sir')), relations, 800)])
