"""dream_att against the NumPy Green's function and against a tiny rectangular piston."""
import numpy as np
from hypothesis import strategies as st
from vf import ref, sir
from vf.core import Check, Sub, Skip, fail
from vf.sir import F, fl, rnd, row, col


@st.composite
def case(draw):
    no = draw(st.integers(1, 12))
    ro = draw(sir.obs_points(no))
    cp = draw(st.one_of(st.just(1500.0), fl(300, 6500)))
    alpha = draw(st.one_of(fl(0.05, 20.0), fl(0.05, 1.0), st.just(0.0)))
    nt = draw(st.integers(1, 260))
    dt = rnd(draw(fl(1e-3, 0.5)), draw(st.sampled_from([2, 3, 12])))
    r = np.sqrt((np.array(ro) ** 2).sum(1)) * 1e3 / cp
    multi = draw(st.booleans())
    if not multi:                       # one delay: keep the points in the window
        m = r.min()
        for i in range(no):
            if r[i] - m > 0.9 * nt * dt:
                s = (m / r[i])
                ro[i] = [rnd(x * s) for x in ro[i]]
        r = np.sqrt((np.array(ro) ** 2).sum(1)) * 1e3 / cp
        delay = [rnd(r.min() - draw(st.integers(0, max(0, nt // 10))) * dt - draw(fl(-0.45, 0.45)) * dt)]
    else:
        delay = [rnd(t - (draw(st.integers(0, nt - 1)) + draw(fl(-0.49, 0.49))) * dt) for t in r]
    return dict(ro=ro, dt=dt, nt=nt, delay=delay, cp=cp, alpha=alpha, colv=draw(st.booleans()), threads=draw(st.sampled_from(sir.THREADS)))


def setup(c):
    ro = np.array(c['ro'])
    r = np.sqrt((ro ** 2).sum(1))
    d = np.array(c['delay']) if len(c['delay']) > 1 else np.full(len(r), c['delay'][0])
    u = (r * 1e3 / c['cp'] - d) / c['dt']
    if (np.abs(u - np.floor(u) - 0.5) < ref.TIE).any():
        raise Skip('rounding tie')
    it = np.rint(u).astype(int)
    if (it < 0).any() or (it >= c['nt']).any():
        raise Skip('outside the window')
    v = col if c['colv'] else row
    a = [F(ro), v([c['dt'], c['nt']]), v(c['delay']), v([c['cp'], c['alpha']])]
    return r, it, a


def get(c, ctx, a):
    o = ctx.oct().call('dream_att', a, 1, {'DREAM_NUM_THREADS': c['threads']})
    if o.exc or not o.out:
        fail('dream_att failed: %s', o.exc)
    if o.mutated:
        fail('arguments %s modified', o.mutated)
    h = o.out[0]
    if h.shape != (c['nt'], len(c['ro'])):
        fail('dream_att returned shape %s', h.shape)
    return h


def model(c, ctx):
    r, it, a = setup(c)
    h = get(c, ctx, a)
    g = ref.green(r, it, c['nt'], c['dt'], c['alpha'])
    if c['alpha'] == 0:
        g = np.zeros_like(g)
        g[it, np.arange(len(it))] = 1.0
    e = np.abs(h - g).max(0)
    if not (e < 1e-9).all():
        n = int(np.argmax(np.where(np.isfinite(e), e, np.inf)))
        fail('point %d: deviation %g from the absorption law (arrival sample %d; peak at %d, expected %d)', n, e[n], it[n],
             int(np.argmax(h[:, n])), int(np.argmax(g[:, n])))
    if not np.allclose(h.sum(0), 1.0, atol=1e-9):
        fail('samples sum to %s', h.sum(0))
    return ('lossless' if c['alpha'] == 0 else 'even' if c['nt'] % 2 == 0 else 'odd') + ('/vec' if len(c['delay']) > 1 else ''), c['nt'] > 2


def piston(c, ctx):
    """dreamrect with one cell at the origin is v*dx*dy/(2 pi r)/dt times the medium response."""
    r, it, a = setup(c)
    if c['alpha'] == 0:
        raise Skip('lossless')
    h = get(c, ctx, a)
    b = [a[0], row([1.0, 1.0]), row([1.0, 1.0, c['dt'], c['nt']]), a[2], row([1.0, c['cp'], c['alpha']]), 'stop']
    o = ctx.oct().call('dreamrect', b, 1, {'DREAM_NUM_THREADS': c['threads']})
    if o.exc or not o.out:
        fail('dreamrect failed: %s', o.exc)
    s = 1000.0 / (2 * np.pi * r) / c['dt']
    e = np.abs(o.out[0] / s - h).max(0)
    if not (e < 1e-9).all():
        n = int(np.argmax(e))
        fail('point %d: dream_att and a one-cell dreamrect differ by %g', n, e[n])
    return 'piston', c['nt'] > 2


CHECK = Check('C13', 'Points, sampling, delays (scalar or one per point, row or column) and alpha (zero included) are generated so that every arrival lies in the window; '
              'each response is compared with the NumPy absorption law and with a one-cell dreamrect. Non-trivial: window longer than 2 samples, arrival not on a rounding tie.',
              {'main': ['oct_dream_att', 'oct_dreamrect']}, [Sub('model', case(), model, 2000), Sub('piston', case(), piston, 1200)])
