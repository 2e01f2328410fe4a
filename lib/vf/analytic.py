"""Closed-form responses of rectangular and circular pistons, by methods other than the code's."""
import numpy as np
from hypothesis import strategies as st
from . import sir
from .core import fail, Skip
from .sir import F, fl, rnd, row, col

GL_X, GL_W = np.polynomial.legendre.leggauss(48)
GL_X, GL_W = (GL_X + 1) / 2, GL_W / 2


def circ_angle(rho, rc, R):
    """Half angle of the circle of radius rho, centred rc from the disc centre, that lies in the disc."""
    rho = np.asarray(rho, float)
    a, b, c = rho, rc, R           # triangle: sides rho, rc and opposite side R
    s1 = (a + b + c)
    s2 = np.maximum((-a + b + c), 0)
    s3 = (a - b + c)
    s4 = (a + b - c)
    with np.errstate(all='ignore'):
        ang = 2 * np.arctan2(np.sqrt(np.maximum(s2 * s3, 0)), np.sqrt(np.maximum(s1 * s4, 0)))
    ang = np.where(rho + rc <= R, np.pi, ang)
    ang = np.where((rho >= R + rc) | (rho <= rc - R), 0.0, ang)
    return ang


def circ(t, p, R, v, cp):
    """continuous response at t [s]; p, R in m."""
    rc = np.hypot(p[0], p[1])
    t = np.asarray(t, float)
    ct = cp * t
    rho2 = (ct - p[2]) * (ct + p[2])
    on = (ct >= p[2]) & (t >= 0)
    rho = np.sqrt(np.maximum(rho2, 0))
    h = v * cp / np.pi * circ_angle(rho, rc, R)
    return np.where(on, h, 0.0)


def rect(t, p, a, b, v, cp):
    """Arc inside the rectangle by splitting the circle at all edge crossings."""
    t = np.asarray(t, float)
    ct = cp * t
    on = (ct >= p[2]) & (t >= 0)
    rho = np.sqrt(np.maximum((ct - p[2]) * (ct + p[2]), 0))
    x, y = p[0], p[1]
    cuts = [np.full(t.shape, -np.pi), np.full(t.shape, np.pi)]
    with np.errstate(all='ignore'):
        for d in (a / 2 - x, -a / 2 - x):        # x + rho cos = edge
            q = np.clip(d / rho, -1, 1)
            q = np.where(np.isfinite(q), q, 1.0)
            w = np.arccos(q)
            cuts += [w, -w]
        for d in (b / 2 - y, -b / 2 - y):
            q = np.clip(d / rho, -1, 1)
            q = np.where(np.isfinite(q), q, 1.0)
            w = np.arcsin(q)
            cuts += [w, np.pi - w, -np.pi - w]
    C = np.clip(np.sort(np.array(cuts), axis=0), -np.pi, np.pi)
    C.sort(axis=0)
    mid = (C[1:] + C[:-1]) / 2
    ln = C[1:] - C[:-1]
    ins = (np.abs(x + rho * np.cos(mid)) <= a / 2) & (np.abs(y + rho * np.sin(mid)) <= b / 2)
    ang = (ln * ins).sum(0)
    return np.where(on, v * cp * ang / (2 * np.pi), 0.0)


def hull(f, t, eps, breaks, t0, top):
    """Least and greatest value of f within eps of t.  f is steep behind its break points (the
    arrivals from edges and corners) and jumps at the first one, t0."""
    pts = [t + e * eps for e in (-1, -0.5, 0, 0.5, 1)]
    for b in breaks:
        pts.append(np.clip(b, t - eps, t + eps))
    v = np.array([f(q) for q in pts])
    lo, hi = v.min(0), v.max(0)
    j = np.abs(t - t0) <= 2 * eps          # anything from nothing to the full plane
    return np.where(j, 0.0, lo), np.where(j, top, hi)


def circ_breaks(p, R, cp):
    rc = np.hypot(p[0], p[1])
    return [np.hypot(p[2], R - rc) / cp, np.hypot(p[2], R + rc) / cp]


def rect_breaks(p, a, b, cp):
    out = []
    for s in (0, a / 2 - p[0], a / 2 + p[0]):
        for l in (0, b / 2 - p[1], b / 2 + p[1]):
            out.append(np.sqrt(p[2] ** 2 + s * s + l * l) / cp)
    return out


def mean_circ(t1, t2, p, R, v, cp):
    """Mean of the continuous response over [t1,t2], integrated between its break points."""
    z = p[2]
    rc = np.hypot(p[0], p[1])
    br = sorted({z / cp, np.hypot(z, R - rc) / cp, np.hypot(z, R + rc) / cp})
    tot = np.zeros(len(t1))
    lo = [-np.inf] + br
    hi = br + [np.inf]
    for l, h in zip(lo, hi):
        a = np.clip(t1, l, h)
        b = np.clip(t2, l, h)
        w = np.maximum(b - a, 0)
        ok = w > 0
        if not ok.any():
            continue
        s = (1 - np.cos(np.pi * GL_X)) / 2
        ds = np.pi / 2 * np.sin(np.pi * GL_X) * GL_W
        T = a[ok, None] + w[ok, None] * s[None, :]
        tot[ok] += (circ(T, p, R, v, cp) * ds[None, :]).sum(1) * w[ok]
    return tot / (t2 - t1)


def trap_circ(t1, t2, p, R, v, cp, n):
    """The same mean with the trapezoid rule of n intervals on the curved part."""
    z = p[2]
    rc = np.hypot(p[0], p[1])
    t0, ta, tb = z / cp, np.hypot(z, R - rc) / cp, np.hypot(z, R + rc) / cp
    s1 = np.maximum(t1, 0)
    tot = np.zeros(len(t1))
    if R > rc:
        tot += v * cp * np.maximum(np.minimum(t2, ta) - np.maximum(s1, t0), 0)
    a, b = np.clip(s1, ta, tb), np.clip(t2, ta, tb)
    w = b - a
    ok = w > 0
    if ok.any():
        T = a[ok, None] + w[ok, None] * np.linspace(0, 1, n + 1)[None, :]
        rho = np.sqrt(np.maximum((cp * T - z) * (cp * T + z), 0))
        ang = circ_angle(rho, rc, R)
        tot[ok] += v * cp / np.pi * (ang[:, 1:] + ang[:, :-1]).sum(1) / 2 * w[ok] / n
    return tot / (t2 - t1)


# ------------------------------------------------------------------ cases
@st.composite
def case(draw, fn, special=True):
    c = dict(fn=fn)
    no = draw(st.integers(1, 6)) if draw(st.integers(0, 19)) else draw(st.integers(20, 60) | st.integers(60, 130))
    if fn == 'rect_sir':
        g = [draw(fl(0.2, 20)), draw(fl(0.2, 20))]
        hx, hy = g[0] / 2, g[1] / 2
    else:
        g = [draw(fl(0.2, 15))]
        hx = hy = g[0]
    c['geom'] = g
    ro = []
    for _ in range(no):
        k = draw(st.integers(0, 7)) if special else 9
        z = draw(fl(0.05, 60))
        if k == 0:
            p = [0.0, 0.0]
        elif k == 1:                   # on the edge
            p = [hx, 0.0] if fn != 'rect_sir' else [hx * draw(st.sampled_from([1, -1])), hy * draw(fl(-1.5, 1.5))]
        elif k == 2:
            p = [hx * draw(fl(-1, 1)), hy * draw(st.sampled_from([0.0, 1.0, -1.0]))]
        elif k == 3:
            p = [hx * draw(fl(-0.95, 0.95)), hy * draw(fl(-0.95, 0.95))]
        elif k == 4:
            p = [hx * draw(fl(1.05, 4)) * draw(st.sampled_from([1, -1])), hy * draw(fl(-0.95, 0.95))]
        elif k == 5:
            p = [hx * draw(fl(-0.95, 0.95)), hy * draw(fl(1.05, 4)) * draw(st.sampled_from([1, -1]))]
        else:
            p = [hx * draw(fl(-4, 4)), hy * draw(fl(-4, 4))]
        ro.append([rnd(p[0]), rnd(p[1]), z])
    c['ro'] = ro
    c['v'] = draw(st.one_of(st.just(1.0), fl(0.01, 50)))
    c['cp'] = draw(st.one_of(st.just(1500.0), fl(300, 6500)))
    T0, T1 = [], []
    for p in ro:
        x, y = abs(p[0]), abs(p[1])
        nx, ny = max(x - hx, 0), max(y - hy, 0)
        near = np.sqrt((nx * nx + ny * ny if fn == 'rect_sir' else max(np.hypot(x, y) - hx, 0) ** 2) + p[2] ** 2)
        far = np.sqrt(((x + hx) ** 2 + (y + hy) ** 2 if fn == 'rect_sir' else (np.hypot(x, y) + hx) ** 2) + p[2] ** 2)
        T0.append(near * 1e3 / c['cp'])
        T1.append(far * 1e3 / c['cp'])
    T0, T1 = np.array(T0), np.array(T1)
    multi = no > 1 and draw(st.booleans())
    n = draw(st.integers(2, 120)) if draw(st.integers(0, 39)) or no > 4 else draw(st.integers(500, 6000))
    tot = (T1 - T0).max() if multi else T1.max() - T0.min()
    c['dt'] = rnd(max(tot / n, 1e-5), draw(st.sampled_from([2, 3, 12])))
    need = int(tot / c['dt']) + 3
    lead = draw(fl(-5, 20)) if draw(st.integers(0, 3)) else float(draw(st.integers(-2, 5)))
    base = T0 if multi else [T0.min()]
    c['delay'] = [rnd(float(t) - lead * c['dt'], 15) for t in base]
    if draw(st.integers(0, 5)) == 0:
        c['delay'] = [0.0 for _ in base]
        need = int(min(T1.max() / c['dt'] + 5, 4000))
    c['nt'] = int(max(1, need + draw(st.integers(-5, 25)) + max(0, int(lead))))
    c['n_int'] = draw(st.one_of(st.integers(1, 12), st.integers(1, 80)))
    c['threads'] = draw(st.sampled_from(sir.THREADS))
    return c


def args_of(c):
    a = [F(np.array(c['ro'], float).reshape(-1, 3)), row(c['geom']), row([c['dt'], c['nt']]), col(c['delay']), row([c['v'], c['cp']])]
    if c['fn'] == 'scirc_sir':
        a.append(float(c['n_int']))
    if 'device' in c:
        a.append(c['device'])
    return a


def call(c, ctx, config='main'):
    o = ctx.oct(config).call(c['fn'], args_of(c), 1, {'DREAM_NUM_THREADS': c['threads']})
    if o.exc or not o.out:
        fail('%s failed: %s', c['fn'], o.exc)
    if o.mutated:
        fail('%s modified its arguments %s', c['fn'], o.mutated)
    h = o.out[0]
    if h.shape != (c['nt'], len(c['ro'])):
        fail('%s returned shape %s', c['fn'], h.shape)
    return h


def times(c, n):
    return (np.arange(c['nt']) * c['dt'] + (c['delay'][n] if len(c['delay']) > 1 else c['delay'][0])) * 1e-6


def check(c, ctx):
    h = call(c, ctx)
    v, cp = c['v'], c['cp']
    top = abs(v) * cp
    if not np.isfinite(h).all():
        k, n = [int(x[0]) for x in np.nonzero(~np.isfinite(h))]
        fail('%s: sample %d of point %d is %s', c['fn'], k, n, h[k, n])
    gpu = c.get('device') == 'gpu'          # OpenCL's native functions have about single precision
    rt = 1e-3 if gpu else 1e-9
    if (h < -rt * top).any() or (h > top * (1 + rt)).any():
        fail('%s: values between %g and %g leave [0, v*cp = %g]', c['fn'], h.min(), h.max(), top)
    rising = 0
    for n, q in enumerate(c['ro']):
        p = np.array(q) * 1e-3
        t = times(c, n)
        g = np.array(c['geom']) * 1e-3
        eps = (1e-7 if gpu else 1e-11) * max(abs(t).max(), p[2] / cp)
        if c['fn'] == 'scirc_sir':
            d = c['dt'] * 1e-6
            t1, t2 = t - d / 2, t + d / 2
            exact = mean_circ(t1, t2, p, g[0], v, cp)
            trap = trap_circ(t1, t2, p, g[0], v, cp, c['n_int'])
            tol = 1.5 * np.abs(trap - exact) + 2e-6 * top + top * eps / d
            rc = np.hypot(p[0], p[1])
            # on the edge (the earliest arrivals from the edge and from the surface coincide in double precision)
            # the first trapezoid starts at an undefined angle
            if abs(rc - g[0]) < 1e-9 * g[0] + 3e-7 * p[2]:
                tol = tol + top / c['n_int']
            lo, hi = exact - tol, exact + tol
        elif c['fn'] == 'circ_sir':
            lo, hi = hull(lambda s: circ(s, p, g[0], v, cp), t, eps, circ_breaks(p, g[0], cp), p[2] / cp, top)
            lo, hi = lo - 1e-6 * top, hi + 1e-6 * top
        else:
            lo, hi = hull(lambda s: rect(s, p, g[0], g[1], v, cp), t, eps, rect_breaks(p, g[0], g[1], cp), p[2] / cp, top)
            w = 1e-3 if gpu else 1e-6
            lo, hi = lo - w * top, hi + w * top
        bad = ~((h[:, n] >= lo) & (h[:, n] <= hi))
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            fail('%s: point %d (%s), sample %d (t = %.9g us): %r, expected %r .. %r (%d samples wrong)', c['fn'], n, q, k, t[k] * 1e6,
                 float(h[k, n]), float(lo[k]), float(hi[k]), int(bad.sum()))
        rising += int(((h[:, n] > 1e-6 * top) & (h[:, n] < top * (1 - 1e-6))).sum() > 1)
    return '%s/%s' % (c['fn'], 'vec' if len(c['delay']) > 1 else 'scalar'), rising > 0
