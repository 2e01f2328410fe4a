"""The OpenCL implementations against the reference models of the CPU ones."""
import numpy as np
from hypothesis import strategies as st
from vf import analytic as an, cl, das, sir
from vf.core import Check, Sub, Skip, fail
from vf.sir import F, fl, rnd


def sir_run(c, ctx):
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    ctx = cl.ClCtx(ctx)
    a = sir.args_of(c) + [c['device']]
    o = sir.call(c, ctx, 'oct', args=a)
    R = sir.compare(c, o)
    if o.mutated:
        fail('inputs %s modified', o.mutated)
    return '%s/%s%s%s' % (c['fn'], c['device'], '/vec' if len(c['delay']) > 1 else '', '/att' if c['alpha'] else ''), sir.nontrivial(R)


def many(c, k):
    """repeat the observation points (with different depths) to more than a work group"""
    n = len(c['ro'])
    if k:
        c = dict(c, ro=[[p[0], p[1], p[2]] for i in range(k) for p in c['ro']][:max(k, n)])
        c['delay'] = [c['delay'][i % n] for i in range(len(c['ro']))] if len(c['delay']) > 1 else c['delay']
    return c


def sirs(fn):
    dev = st.sampled_from(['gpu', 'gpu', 'gpu', 'gpu', 'gpu', 'cpu'])
    k = st.sampled_from([0, 0, 0, 0, 0, 63, 64, 65, 128, 100])
    base = st.one_of(sir.case([fn], err=['ignore']), sir.case([fn], err=['ignore'], mode='any'), sir.case([fn], err=['ignore'], alpha=True))
    return st.tuples(base, dev, k).map(lambda t: dict(many(t[0], t[2] if not t[0]['alpha'] else 0), device=t[1]))


def rect_sir(c, ctx):
    return an.check(c, cl.ClCtx(ctx))


def das_out(c, ctx, w=None):
    a = das.args_of(dict(c, verbose=None), c['lang'])
    env = {'DREAM_NUM_THREADS': c.get('threads')}
    no = len(c['ro']) // 3
    dt = np.float32 if c['f32'] else np.float64
    if c['lang'] == 'py':
        a[9] = c['device']
        o = ctx.py().call('das_f' if c['f32'] else 'das', 'das', a, env)
        im = o.out
    else:
        o = ctx.oct().call('das', a[:9] + [c['device']], 1, env)
        im = o.out[0] if o.out else None
    if o.exc or im is None:
        fail('das (%s) on the %s failed: %s', c['lang'], c['device'], o.exc or (o.text or '')[-300:])
    if o.mutated:
        fail('das modified its arguments %s', o.mutated)
    if im.size != no or im.dtype != dt:
        fail('das returned %s of %s for %d points', im.dtype, im.shape, no)
    return im.ravel().astype(float)


def das_run(c, ctx):
    m = das.model(c)
    im = das_out(c, cl.ClCtx(ctx))
    das.compare(c, m, im, 'das on the ' + c['device'])
    return das.label(c, m) + '/' + c['device'], das.nontrivial(c, m)


def das_cases(**k):
    dev = st.sampled_from(['gpu', 'gpu', 'gpu', 'cpu'])
    base = st.one_of(das.case(**k), das.case(range_='any', **k))

    def f(t):
        c = dict(t[0], err='ignore', device=t[1], nout=1)
        n = len(c['ro']) // 3
        if t[2] and t[2] > n:
            c['ro'] = (c['ro'] * t[2])[:3 * t[2]]
            if len(c['delay']) > 1:
                c['delay'] = (c['delay'] * t[2])[:t[2]]
        return c
    return st.tuples(base, dev, st.sampled_from([0, 0, 0, 0, 0, 0, 63, 64, 65, 128])).map(f)


# ------------------------------------------------------------------ das_uni
def axis(a):
    n = int(np.floor((a[2] - a[0]) / a[1] + 1))
    return [a[0] + i * a[1] for i in range(n)]


def expand(c):
    """the das case with the elements and points of the uniform grids"""
    tx, rx = axis(c['gt']), axis(c['gr']) if c['gr'] else []
    rca = c['method'].startswith('rca')
    gt = [x for t in tx for x in (t, 0.0, 0.0)]
    gr = [x for r in rx for x in ((0.0, r, 0.0) if rca else (r, 0.0, 0.0))]
    X, Y, Z = [axis(a) for a in c['grid']]
    ro = [v for x in X for z in Z for y in Y for v in (x, y, z)]
    return dict(c, gt=gt, gr=gr, ro=ro)


@st.composite
def uni(draw):
    method = draw(st.sampled_from(das.METHODS))
    f32 = draw(st.booleans())
    q = lambda lo, hi: draw(st.integers(lo, hi)) / 8
    line = lambda n: (lambda lo, p: [lo, p, lo + (n - 1) * p + (0 if method.startswith('rca') else draw(st.sampled_from([0, 0, 0.5]))) * p])(q(-24, 24), q(1, 8))
    gt = line(draw(st.integers(1, 6)))
    gr = line(draw(st.integers(1, 6)))
    if method == 'saft':
        gr = draw(st.sampled_from([[], gr]))
    n = draw(st.sampled_from([(1, 1, 1), (2, 3, 4), (4, 4, 4), (1, 5, 3), (8, 1, 8), (3, 3, 1), (5, 4, 7), (64, 1, 2), (2, 2, 2)]))
    grid = [line(k) for k in n]
    grid[2][2] += 3.0 - grid[2][0]
    grid[2][0] = 3.0
    c = dict(device='gpu', method=method, f32=f32, gt=gt, gr=gr, grid=grid, lang='oct', seed=draw(st.integers(0, 10 ** 6)), extra=draw(st.sampled_from([0, 0, 1])),
             cp=draw(st.one_of(st.sampled_from([1500.0, 1000.0]), fl(300, 6500))), nt=draw(st.integers(20, 300)), rowv=draw(st.booleans()))
    e = expand(dict(c, delay=[0.0], dt=1.0))
    t, _ = das.times(e)
    c['dt'] = float(t.max() / c['nt'] / draw(st.sampled_from([0.5, 0.9, 1.4])))
    vec = draw(st.booleans()) and len(e['ro']) > 3
    no = len(e['ro']) // 3
    d = [rnd(draw(fl(-0.3, 0.3)) * c['nt'] * c['dt']) for _ in range(4)]
    c['delay'] = [d[i % 4] for i in range(no)] if vec else [draw(st.sampled_from([0.0, d[0]]))]
    return c


def uni_out(c, ctx):
    e = expand(c)
    t = np.float32 if c['f32'] else np.float64
    Y = das.data(dict(e, _np=das.npairs(e)))
    d = np.asarray(c['delay'], t)
    s = lambda x: np.full((1, 1), x, t)
    a = [F(Y.astype(t)), F(np.array([c['gt']], t)), F(np.array([c['gr']], t)) if c['gr'] else np.zeros((0, 0), t), F(np.array(c['grid'], t)),
         s(c['dt']), F(d.reshape(1, -1) if c['rowv'] else d.reshape(-1, 1)), s(c['cp']), c['method']]
    o = ctx.oct().call('das_uni', a, 1)
    if o.exc or not o.out:
        fail('das_uni failed: %s', o.exc or (o.text or '')[-300:])
    if o.mutated:
        fail('das_uni modified its arguments %s', o.mutated)
    im = o.out[0]
    if im.shape != (len(e['ro']) // 3, 1) or im.dtype != t:
        fail('das_uni returned %s of %s for %d points', im.dtype, im.shape, len(e['ro']) // 3)
    return e, im.ravel().astype(float)


def uni_run(c, ctx):
    e, im = uni_out(c, cl.ClCtx(ctx))
    m = das.model(e)
    das.compare(e, m, im, 'das_uni')
    return 'das_uni/' + das.label(e, m), bool(np.any(m['hi'] != 0)) and not m['amb'].all()


# ------------------------------------------------------------------ histories
def history(c, ctx):
    """Calls one after another in one Octave session, starting with a freshly loaded function."""
    ctx = cl.ClCtx(ctx)
    w = ctx.oct()
    w.call('clear', ['das'], 0)
    w.call('clear', ['das_uni'], 0)
    for i, k in enumerate(c):
        try:
            if 'grid' in k:
                e, im = uni_out(k, ctx)
                das.compare(e, das.model(e), im, 'das_uni')
            else:
                im = das_out(k, ctx)
                das.compare(k, das.model(k), im, 'das on the ' + k['device'])
        except Exception as e:
            if i and not isinstance(e, Skip):
                e.args = ('after %d calls: %s' % (i, e),) + e.args[1:]
            raise
    return 'history', len({(k.get('device'), k['f32'], k['method'], 'grid' in k) for k in c}) > 1


@st.composite
def hist(draw):
    """related calls: each changes one or two things of an earlier one"""
    a = draw(das_cases(langs=('oct',), maxn=3, maxo=4))
    b = draw(das_cases(langs=('oct',), maxn=3, maxo=4))
    u = draw(uni())
    out = []
    for _ in range(draw(st.integers(2, 6))):
        k = dict(draw(st.sampled_from([a, a, a, b, u])))
        if 'grid' not in k:
            k['device'] = draw(st.sampled_from(['gpu', 'gpu', 'cpu']))
            if k['method'].startswith('rca'):
                k['method'] = draw(st.sampled_from(['rca', 'rca_rowtx', 'rca_coltx']))
            elif k['gr']:
                k['method'] = draw(st.sampled_from(['saft', 'tfm']))
        k['f32'] = draw(st.booleans())
        k['seed'] = draw(st.integers(0, 10 ** 6))
        out.append(k)
    return out


CHECK = Check('C34', 'Calls with the device "gpu" (one in six "cpu") of the OpenCL build, on the OpenCL CPU platform: dreamrect and dreamcirc (windows inside and partly outside, '
              'with and without attenuation, one delay or one per point, 1-128 points), rect_sir, das in both languages and precisions with all methods, das_uni on grids '
              'with one to 140 points, and histories of 2-6 das / das_uni calls that change device, precision, method, size or data from one call to the next. Values against the '
              'reference models of the CPU functions (sample positions within 1e-7 of a boundary may round either way). Error reporting is not compared: the OpenCL functions '
              'have none. Non-trivial: two samples with contributions, a rising or falling flank, an image that is not zero, a history of different calls.', cl.TARGETS,
              [Sub('rect', sirs('dreamrect'), sir_run, 700), Sub('circ', sirs('dreamcirc'), sir_run, 700),
               Sub('rect_sir', an.case('rect_sir').map(lambda c: dict(c, device='gpu')), rect_sir, 800),
               Sub('das', das_cases(), das_run, 1200), Sub('uni', uni(), uni_run, 900), Sub('history', hist(), history, 200)])
