"""Numerical against analytic responses, through cumulative integrals."""
import numpy as np
from hypothesis import strategies as st
from vf import sir, analytic as an, ref
from vf.core import Check, Sub, fail, Skip
from vf.sir import fl, rnd


@st.composite
def case(draw, fn):
    c = draw(an.case('rect_sir' if fn == 'dreamrect' else 'scirc_sir', special=False))
    c['ro'] = c['ro'][:2]
    c['delay'] = c['delay'][:1]
    c['fn'] = fn
    big = max(c['geom'])
    for p in c['ro']:
        p[2] = rnd(max(p[2], 0.3 * big), 6)
        k = draw(st.integers(0, 3))
        if k == 0:
            p[0] = p[1] = 0.0
        elif k == 1:
            p[0], p[1] = rnd(p[0] / 5, 6), rnd(p[1] / 5, 6)
    n = draw(st.integers(30, 160))
    m = draw(st.integers(30, 160))
    w = c['geom'] if fn == 'dreamrect' else [2 * c['geom'][0]] * 2
    c['dx'], c['dy'] = w[0] / n, w[1] / m
    # window holding both responses
    lo, hi = [], []
    h = [x / 2 for x in w]
    for p in c['ro']:
        x, y = abs(p[0]), abs(p[1])
        lo.append(np.sqrt(max(x - h[0], 0) ** 2 + max(y - h[1], 0) ** 2 + p[2] ** 2) * 1e3 / c['cp'])
        hi.append(np.sqrt((x + h[0]) ** 2 + (y + h[1]) ** 2 + p[2] ** 2) * 1e3 / c['cp'])
    N = draw(st.integers(150, 500))
    c['dt'] = rnd((max(hi) - min(lo)) / N, 6)
    c['delay'] = [rnd(min(lo) - 5.3 * c['dt'])]
    c['nt'] = N + 25
    c['n_int'] = 20
    c['alpha'] = 0.0
    c['err'] = 'stop'
    c['backend'] = draw(st.sampled_from(['py', 'oct']))
    return c


def bounds(c, p):
    """Per cell: nearest and farthest distance to p, and the cells' area; then the bound on how much
    two quadratures of the aperture can differ at cumulative time t."""
    X, Y, Z, O, ds = sir.elem_grid(c)
    dx, dy = c['dx'], c['dy']
    ax, ay = np.abs(p[0] - X), np.abs(p[1] - Y)
    rmin = np.sqrt(np.maximum(ax - dx / 2, 0) ** 2 + np.maximum(ay - dy / 2, 0) ** 2 + p[2] ** 2)
    rmax = np.sqrt((ax + dx / 2) ** 2 + (ay + dy / 2) ** 2 + p[2] ** 2)
    edge = 0.0
    if c['fn'] == 'dreamcirc':
        # area mismatch of the stair-case outline, on both ends of every row
        R = c['geom'][0]
        ys = np.unique(Y)
        w = lambda y: np.sqrt(np.maximum(R * R - y * y, 0))
        ya, yb = ys - dy / 2, ys + dy / 2
        top = np.where((ya <= 0) & (yb >= 0), R, np.maximum(w(ya), w(yb)))
        bot = np.minimum(w(np.clip(ya, -R, R)), w(np.clip(yb, -R, R)))
        mism = dy * (2 * (top - bot) + dx)
        near = np.sqrt(np.maximum(np.hypot(p[0], p[1]) - R - dx - dy, 0) ** 2 + p[2] ** 2)
        edge = mism.sum() / (2 * np.pi * near) + 2 * dy * 2 * np.sqrt(2 * R * dy) / (2 * np.pi * near)
    # midpoint rule on 1/r: second derivatives are at most 2/r^3
    quad = (ds / (2 * np.pi) * (dx * dx + dy * dy) / 24 * 2 / rmin ** 3).sum()
    return rmin, rmax, ds, edge + quad


def run(c, ctx):
    o = sir.call(c, ctx, c['backend'])
    if o.h is None:
        fail('%s failed: %s %s', c['fn'], o.exc, o.text)
    a = an.call(dict(c, fn='rect_sir' if c['fn'] == 'dreamrect' else 'scirc_sir'), ctx)
    dt, cp, v = c['dt'], c['cp'], c['v']
    worst = 0.0
    for n, p in enumerate(c['ro']):
        rmin, rmax, ds, rest = bounds(c, p)
        D = np.cumsum(o.h[:, n]) * dt * 1e-3            # integral in units of v * mm
        A = np.cumsum(a[:, n]) * dt * 1e-3
        # end of sample k: rint puts [k-1/2, k+1/2) into sample k
        T = (c['delay'][0] + (np.arange(c['nt']) + 0.5) * dt)
        w = ds / (2 * np.pi * rmin)
        t1, t2 = np.sort(rmin * 1e3 / cp), np.sort(rmax * 1e3 / cp)
        i1, i2 = np.argsort(rmin), np.argsort(rmax)
        c1 = np.concatenate([[0], np.cumsum(w[i1])])[np.searchsorted(t1, T * (1 + 1e-12), 'right')]
        c2 = np.concatenate([[0], np.cumsum(w[i2])])[np.searchsorted(t2, T * (1 - 1e-12), 'left')]
        B = (c1 - c2) + rest                            # cells cut by the wavefront
        if c['fn'] == 'dreamrect':
            # rect_sir is sampled, not averaged: dt times its variation
            tv = 2 * np.abs(np.diff(a[:, n], prepend=0, append=0)).sum() / v
            if np.count_nonzero(a[:, n] > 1e-6 * v * cp) < 20:
                tv = 3 * cp
            B = B + tv * dt * 1e-3
        else:
            B = B + 0.2 * cp * dt * 1e-3                # trapezoid rule of scirc_sir
        e = np.abs(D - A) / v
        bad = ~(e <= B * (1 + 1e-9))
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            fail('%s: point %s: the integral up to sample %d is %g, the analytic one %g; the cells allow a difference of %g (total %g)',
                 c['fn'], p, k, D[k] / v, A[k] / v, B[k], A[-1] / v)
        worst = max(worst, B.max() / max(A[-1] / v, 1e-12))
    return '%s/%s' % (c['fn'], 'tight' if worst < 0.2 else 'loose'), worst < 0.5


def integral(c, ctx):
    """The integral over time does not depend on the temporal sampling."""
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    o = sir.call(c, ctx, c['backend'])
    d = dict(c, dt=c['dt'] * c['f'])
    d['nt'] = int(np.ceil(c['nt'] / c['f'])) + 4
    d['delay'] = [x - 2 * d['dt'] for x in c['delay']]
    q = sir.call(d, ctx, c['backend'])
    if o.h is None or q.h is None:
        fail('%s failed: %s %s', c['fn'], o.exc, q.exc)
    a, b = o.h.sum(0) * c['dt'], q.h.sum(0) * d['dt']
    s = (np.abs(o.h).sum(0) * c['dt']).max() + 1e-300
    R = sir.refs(c)
    ok = np.array([b.ntie == 0 for b in R])             # edge cells may or may not count
    if not (np.abs(a - b) <= 1e-9 * s)[ok].all():
        n = int(np.argmax(np.abs(a - b) * ok))
        fail('%s: point %d: the integral is %r with dt = %g and %r with dt = %g', c['fn'], n, a[n], c['dt'], b[n], d['dt'])
    return c['fn'], sir.nontrivial(R) and bool(ok.any())


def plus(s):
    return st.tuples(s, fl(0.3, 3.0)).map(lambda t: dict(t[0], f=t[1]))


FL = sir.SINGLE + sir.FOC + sir.ARR
CHECK = Check('C14', 'for a circular or rectangular piston 30..160 cells across, points on, near and off the axis: the running integral of the discrete response against that of the analytic one, within the bound given by the cells whose arrival a sampling interval can move plus the edge cells; and the integral of a response under another sampling interval. Non-trivial: the bound is below half of the total integral (integral: two samples with contributions and a sample free of ties)', {'main': ['oct_rect_sir', 'oct_scirc_sir'] + sir.targets(FL)},
              [Sub('circ', case('dreamcirc'), run, 500), Sub('rect', case('dreamrect'), run, 500),
               Sub('integral', plus(sir.case(FL, foc=True, steer=True, apod=True, cells=8)), integral, 1200)])
