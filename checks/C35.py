"""The Octave helper scripts against independent models."""
import os
import numpy as np
from hypothesis import strategies as st
from vf import build, sir
from vf.core import Check, Sub, fail
from vf.sir import F, fl, rnd

PATH = (os.path.join(build.REPO, 'm_files'),)


def oct(ctx, fn, args):
    r = ctx.oct(key='m', path=PATH).call(fn, args, 1)
    if r.exc or not r.out:
        fail('%s failed: %s', fn, r.exc)
    if r.mutated:
        fail('%s modified its arguments', fn)
    return np.asarray(r.out[0], float), r.text


# ------------------------------------------------------------------ arr_focus_delays
def delays(c):
    x = np.array(c['x'])
    r = np.hypot(c['f'] * np.tan(c['ang'] * np.pi / 180) - x, c['f'])
    d = (r.max() - r) * 1e3 / c['cp']
    return d.max() - d if c['f'] < 0 else d


def focus_run(c, ctx):
    v = np.array(c['x'])
    d, _ = oct(ctx, 'arr_focus_delays', [F(v.reshape(1, -1) if c['rowv'] else v.reshape(-1, 1)), c['cp'], c['f'], c['ang']])
    e = delays(c)
    if d.shape != (len(v), 1):
        fail('arr_focus_delays returned %s for %d elements', d.shape, len(v))
    tol = 1e-12 * (np.abs(v).max() + abs(c['f']) * (1 + abs(np.tan(np.deg2rad(c['ang']))))) * 1e3 / c['cp'] * 8
    if not (np.abs(d.ravel() - e) <= tol).all():
        n = int(np.argmax(np.abs(d.ravel() - e)))
        fail('arr_focus_delays: element %d of %d at %r: %r us, expected %r', n, len(v), v[n], d.ravel()[n], e[n])
    return 'focus%s%s' % ('/virtual' if c['f'] < 0 else '', '/steered' if c['ang'] else ''), len(set(c['x'])) > 1


@st.composite
def focus_case(draw):
    n = draw(st.integers(1, 24))
    k = draw(st.sampled_from(['line', 'sym', 'random']))
    p = rnd(draw(fl(0.01, 5)), 4)
    x = [rnd(draw(fl(-60, 60))) for _ in range(n)] if k == 'random' else [rnd((i - (n - 1) / 2 * (k == 'sym')) * p) for i in range(n)]
    return dict(x=x, f=rnd(draw(fl(0.5, 200))) * draw(st.sampled_from([1, 1, -1])), ang=draw(st.one_of(st.just(0.0), fl(-70, 70))), cp=rnd(draw(fl(300, 6500))),
                rowv=draw(st.booleans()))


def array_run(c, ctx):
    """Given to an array function as its own delays they focus like the option 'x'."""
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    gx = [g[0] for g in c['G']]
    xm = max(abs(g) for g in gx)
    d, _ = oct(ctx, 'arr_focus_delays', [sir.col(gx), c['cp'], c['focal'], 0.0])
    o = sir.call(dict(c, foc='ud', focal=[float(x) for x in d.ravel()]), ctx, c['backend'])
    R = sir.compare(c, o)
    return 'array/' + c['fn'], sir.nontrivial(R) and xm > 0


@st.composite
def array_case(draw):
    c = draw(sir.case(sir.ARR, nobs=(1, 3), cells=5, foc=True, apod=True).filter(lambda c: c['foc'] == 'x'))
    return c


# ------------------------------------------------------------------ h2o_soundspeed
UNIT = {'pa': 1.0197e-5, 'bar': 1.0197, 'at': 1.0, 'atm': 1.0332, 'mmhg': 1.3595e-3, 'psi': 70.307e-3}


def del_grosso(T, P, S):
    """J. Acoust. Soc. Am. 56, 1084 (1974); T in degrees Celsius, P in kg/cm^2, S in ppt"""
    terms = [(1402.392, 0, 0, 0), (5.01109398873, 1, 0, 0), (-0.0550946843172, 2, 0, 0), (0.000221535969240, 3, 0, 0),
             (1.32952290781, 0, 0, 1), (0.000128955756844, 0, 0, 2),
             (0.156059257041, 0, 1, 0), (0.0000244998688441, 0, 2, 0), (-0.00000000883392332513, 0, 3, 0),
             (-0.0127562783426, 1, 0, 1), (0.00635191613389, 1, 1, 0), (0.0000000265484716608, 2, 2, 0), (-0.00000159349479045, 1, 2, 0),
             (0.000000000522116437235, 1, 3, 0), (-0.000000438031096213, 3, 1, 0), (-0.00000000161674495909, 0, 2, 2),
             (0.0000968403156410, 2, 0, 1), (0.00000485639620015, 1, 1, 2), (-0.000340597039004, 1, 1, 1)]
    return sum(k * T ** a * P ** b * S ** s for k, a, b, s in terms)


def water_run(c, ctx):
    T, P, S = [np.array(c[k], float) for k in 'TPS']
    shape = tuple(c['shape'])
    arg = lambda v: F(v.reshape(shape, order='F')) if v.size > 1 else float(v.ravel()[0])
    n = c['n']
    a = [arg(T), arg(P), c['unit'], arg(S)][:n]
    p = P * UNIT[c['unit'].lower()] if n > 2 else (P if n > 1 else np.array([101325.0])) * UNIT['pa']
    s = S if n > 3 else np.zeros(1)
    e = del_grosso(T, p, s)
    v, text = oct(ctx, 'h2o_soundspeed', a)
    if v.shape != (shape if e.size > 1 else (1, 1)):
        fail('h2o_soundspeed returned %s for arguments of size %s', v.shape, shape)
    v = v.ravel(order='F')
    if not (np.abs(v - e) <= 1e-9 * (1402 + 10 * abs(T).max() + abs(p).max() + 2 * s.max())).all():
        i = int(np.argmax(np.abs(v - e)))
        fail('h2o_soundspeed(%s): element %d is %r, expected %r', ', '.join('%r' % (x,) for x in (c['T'], c['P'], c['unit'], c['S'])[:n]), i, v[i], e[i])
    if text.strip():
        fail('h2o_soundspeed printed %r', text[:200])
    return 'water/%d/%s' % (n, 'array' if e.size > 1 else 'scalar'), n > 1


@st.composite
def water_case(draw):
    shape = draw(st.sampled_from([(1, 1), (1, 1), (1, 5), (4, 1), (2, 3), (3, 3)]))
    k = shape[0] * shape[1]
    unit = draw(st.sampled_from(['Pa', 'pa', 'bar', 'at', 'atm', 'mmHg', 'psi', 'ATM', 'PSI', 'Bar']))
    top = 1000 / UNIT[unit.lower()]

    def vals(lo, hi):
        m = draw(st.sampled_from([1, k]))
        return [rnd(draw(fl(lo, hi))) for _ in range(m)]
    n = draw(st.integers(1, 4))
    return dict(T=vals(0, 100), P=vals(0, 1000 / UNIT['pa'] if n == 2 else top), S=vals(0, 43), unit=unit, shape=list(shape), n=n)


CHECK = Check('C35', 'arr_focus_delays: 1-24 element positions (regular, symmetric or arbitrary, as row or column), positive (focus) and negative (virtual source) '
              'depths, angles up to 70 degrees, against the travel-time model; and its result given as user defined delays to the array functions, whose response must '
              "be that of the focusing option 'x'. h2o_soundspeed: one to four arguments, all pressure units in any case, scalars and matrices, 0-100 degrees, up to 1000 "
              'technical atmospheres, 0-43 ppt, against the published polynomial. Non-trivial: different element positions; two samples with contributions; a given pressure.',
              {'main': sir.targets(sir.ARR)}, [Sub('focus', focus_case(), focus_run, 1500), Sub('array', array_case(), array_run, 400), Sub('water', water_case(), water_run, 2000)])
