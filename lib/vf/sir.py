"""SIR functions: calling conventions, reference responses, and case generators."""
import numpy as np
from hypothesis import strategies as st
from . import ref
from .core import fail, Skip

F = np.asfortranarray
SINGLE = ['dreamline', 'dreamrect', 'dreamcirc', 'dreamsphere', 'dreamcylind']
FOC = ['dreamrect_f', 'dreamcirc_f']
ARR = ['dream_arr_rect', 'dream_arr_circ', 'dream_arr_cylind']
ANNU = 'dream_arr_annu'
ALL = SINGLE + FOC + ARR + [ANNU]
GEOM = {'dreamline': 1, 'dreamrect': 2, 'dreamcirc': 1, 'dreamsphere': 2, 'dreamcylind': 3, 'dreamrect_f': 2,
        'dreamcirc_f': 1, 'dream_arr_rect': 2, 'dream_arr_circ': 1, 'dream_arr_cylind': 3, ANNU: 0}
THREADS = [None, '1', '2', '3', '4', '7', '8', '16']


def targets(fns=ALL, py=True, oct=True):
    return ['%s_%s' % (p, f) for f in fns for p in ((['py'] if py else []) + (['oct'] if oct else []))]


# ------------------------------------------------------------------ calling
def row(x):
    return F(np.asarray(x, float).reshape(1, -1))


def col(x):
    return F(np.asarray(x, float).reshape(-1, 1))


def args_of(c):
    fn = c['fn']
    a = [F(np.array(c['ro'], float).reshape(-1, 3))]
    if fn == ANNU:
        a.append(col(c['G']))
    else:
        a.append(row(c['geom']))
        if fn in ARR:
            a.append(F(np.array(c['G'], float).reshape(-1, 3)))
    a += [row([c['dx'], c['dy'], c['dt'], c['nt']]), col(c['delay']), row([c['v'], c['cp'], c['alpha']])]
    if fn in FOC + ARR + [ANNU]:
        fo = c.get('focal', 1.0)
        a += [c.get('foc', 'off'), col(fo) if isinstance(fo, list) else row([fo])]
    if fn in ARR:
        a += [c.get('steer', 'off'), row([c.get('theta', 0.0), c.get('phi', 0.0)])]
    if fn in ARR + [ANNU]:
        ud = c.get('ud')
        a += [c.get('apod', 'off'), col(ud if ud is not None else [1.0] * nelem(c)), float(c.get('win', 1.0))]
    a.append(c.get('err', 'stop'))
    return a


def nelem(c):
    if c['fn'] == ANNU:
        return (len(c['G']) + 1) // 2
    return len(c['G'])


class Out:
    """Outcome of a call: h (nt x No) or an error; err flag (Octave) ; text printed."""
    h = None
    err = None
    exc = None
    text = ''
    backend = ''
    mutated = ()


def call(c, ctx, backend, args=None, config='main', nout=None):
    env = {'DREAM_NUM_THREADS': c.get('threads')}
    a = args_of(c) if args is None else args
    o = Out()
    o.backend = backend
    if backend == 'py':
        r = ctx.py(config).call(c['fn'], c['fn'], a, env)
        o.exc = r.exc and '%s: %s' % (r.exc, r.msg)
        o.h = r.out
    else:
        if c['fn'] == ANNU:
            a = list(a)
            a[1] = np.asarray(a[1]).reshape(-1, 1)
        r = ctx.oct(config).call(c['fn'], a, 2 if nout is None else nout, env)
        o.exc = r.exc
        if r.out:
            o.h = r.out[0]
            if len(r.out) > 1:
                o.err = float(np.ravel(r.out[1])[0]) if np.size(r.out[1]) else None
    o.text, o.mutated = r.text or '', r.mutated
    if o.h is not None:
        if isinstance(o.h, np.ndarray) and o.h.size == 0 and c['nt'] * len(c['ro']) > 0:
            o.h = None
    return o


# ------------------------------------------------------------------ reference
def elem_grid(c):
    fn, g = c['fn'], c.get('geom')
    dx, dy = c['dx'], c['dy']
    if fn == 'dreamline':
        return ref.grid_line(g[0], dx, dy)
    if fn in ('dreamrect', 'dreamrect_f', 'dream_arr_rect'):
        return ref.grid_rect(g[0], g[1], dx, dy)
    if fn in ('dreamcirc', 'dreamcirc_f', 'dream_arr_circ'):
        return ref.grid_circ(g[0], dx, dy)
    if fn == 'dreamsphere':
        return ref.grid_sphere(g[0], g[1], dx, dy)
    if fn in ('dreamcylind', 'dream_arr_cylind'):
        return ref.grid_cylind(g[0], g[1], g[2], dx, dy)
    raise ValueError(fn)


def elements(c):
    """[(offset xyz, extra delay us, weight)] ; extra is added to the propagation time."""
    if c['fn'] not in ARR:
        return [((0.0, 0.0, 0.0), 0.0, 1.0)]
    G = np.array(c['G'], float).reshape(-1, 3)
    xm, ym = np.abs(G[:, 0]).max(), np.abs(G[:, 1]).max()
    rm = np.hypot(xm, ym)
    foc = c.get('foc', 'off')
    if foc == 'ud':
        fd = np.asarray(c['focal'], float)
    else:
        fd = ref.focus(foc, c.get('focal', 1.0), G[:, 0], G[:, 1], xm, ym, rm, c['cp'])
    sd = ref.steer(c.get('steer', 'off'), c.get('theta', 0.0), c.get('phi', 0.0), G[:, 0], G[:, 1], xm, ym, c['cp'])
    w = ref.apod(c.get('apod', 'off'), np.hypot(G[:, 0], G[:, 1]), rm, c.get('win', 1.0), c.get('ud'))
    return [(tuple(G[i]), float(fd[i] + sd[i]), float(w[i])) for i in range(len(G))]


def single_foc(c, grid):
    X, Y = grid[0], grid[1]
    if c['fn'] == 'dreamrect_f':
        a, b = c['geom']
        return ref.focus(c['foc'], c['focal'], X, Y, a, b, np.hypot(a, b), c['cp'])
    if c['fn'] == 'dreamcirc_f':
        R = c['geom'][0]
        return ref.focus(c['foc'], c['focal'], X, Y, R, R, R, c['cp'])
    return 0.0


def delay_of(c, n):
    d = c['delay']
    return d[n] if len(d) > 1 else d[0]


def response(c, n, grid=None, els=None):
    """Reference for observation point n: Bins or AttResp."""
    ro = c['ro'][n]
    if grid is None:
        grid = elem_grid(c)
    if els is None:
        els = elements(c)
    att = c['alpha'] > np.finfo(float).eps
    B = ref.AttResp(c['nt'], c['dt'], c['alpha']) if att else ref.Bins(c['nt'])
    sf = single_foc(c, grid)
    for off, ex, w in els:
        p = (ro[0] - off[0], ro[1] - off[1], ro[2] - off[2])
        amp, u, r = ref.contributions(grid, p, c['v'], c['cp'], c['dt'], delay_of(c, n), ex + sf, w)
        if att:
            B.add(amp, u, r, grid[3])
        else:
            B.add(amp, u, grid[3])
    return B


# annular -----------------------------------------------------------
def annu_rings(c):
    G = [float(x) for x in np.ravel(c['G'])]
    n = (len(G) + 1) // 2
    rr = [0.0] + [(G[2 * k] + G[2 * k - 1]) / 2 for k in range(1, n)]
    rmax = rr[-1]
    foc, fo = c.get('foc', 'off'), c.get('focal', 1.0)
    if foc == 'ud':
        fd = np.asarray(fo, float)
    elif foc == 'off':
        fd = np.zeros(n)
    else:
        fd = (np.hypot(rmax, fo) - np.hypot(np.array(rr), fo)) * 1e3 / c['cp']
    w = ref.apod(c.get('apod', 'off'), np.array(rr), rmax, c.get('win', 1.0), c.get('ud'))
    return n, fd, w


# ------------------------------------------------------------------ generators
def fl(lo, hi):
    lo, hi = float(lo), float(hi)

    def trim(x):
        x = float('%.7g' % x)
        return 0.0 if abs(x) < 1e-9 and lo <= 0 <= hi else min(max(x, lo), hi)
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(trim)


def rnd(x, k=12):
    """Trim a computed number to k significant digits (keeps cases readable)."""
    return float('%.*g' % (k, x))


@st.composite
def axis_cells(draw, lo=1, hi=14, size=(0.2, 20.0)):
    """(width, d): a width covered by n cells, fractional part away from one half."""
    n = draw(st.integers(lo, hi))
    w = draw(fl(*size))
    f = draw(st.one_of(st.just(0.0), fl(-0.4, 0.4)))
    if n == 1 and f < 0:
        f = -f
    return w, rnd(w / (n + f))


@st.composite
def geometry(draw, fn, cells=14):
    if fn == 'dreamline':
        a, dx = draw(axis_cells(1, cells * 4))
        return [a], dx, draw(fl(0.01, 2.0))
    if fn in ('dreamrect', 'dreamrect_f', 'dream_arr_rect'):
        a, dx = draw(axis_cells(1, cells))
        b, dy = draw(axis_cells(1, cells))
        return [a, b], dx, dy
    if fn in ('dreamcirc', 'dreamcirc_f', 'dream_arr_circ', 'dreamsphere'):
        R = draw(fl(0.2, 15.0))
        dx = rnd(2 * R / (draw(st.integers(2, cells)) + draw(fl(-0.4, 0.4))))
        dy = rnd(2 * R / (draw(st.integers(2, cells)) + draw(fl(-0.4, 0.4))))
        if fn == 'dreamsphere':
            Rc = R * draw(st.one_of(fl(1.02, 4.0), fl(4.0, 200.0))) * draw(st.sampled_from([1, -1]))
            return [R, rnd(Rc)], dx, dy
        return [R], dx, dy
    if fn in ('dreamcylind', 'dream_arr_cylind'):
        a, dx = draw(axis_cells(1, cells))
        b = draw(fl(0.2, 20.0))
        Rc = rnd(b / 2 * draw(st.one_of(fl(1.02, 4.0), fl(4.0, 200.0))))
        n = draw(st.integers(1, cells))
        f = draw(fl(0.0, 0.4)) if n == 1 else draw(fl(-0.4, 0.4))
        ang = 2 * np.arcsin(b / 2 / Rc) / (n + f)
        dy = rnd(Rc * np.sin(min(ang, 1.5)))
        return [a, b, Rc * draw(st.sampled_from([1, -1]))], dx, dy
    raise ValueError(fn)


@st.composite
def obs_points(draw, n, spread=(15.0, 15.0), z=(0.3, 80.0)):
    out = []
    if n > 40:                                          # many points: coordinates from one seed
        r = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        P = np.column_stack([r.uniform(-spread[0], spread[0], n), r.uniform(-spread[1], spread[1], n), r.uniform(z[0], z[1], n)])
        return [[float('%.6g' % x) for x in p] for p in P]
    zb = draw(fl(*z))
    far = draw(st.integers(0, 29))
    neg, plane = far == 0, far == 1
    mode = draw(st.integers(0, 3))
    for i in range(n):
        if mode == 0:                                   # unrelated points
            p = [draw(fl(-spread[0], spread[0])), draw(fl(-spread[1], spread[1])), draw(fl(*z))]
        elif mode == 1:                                 # a line at one depth
            p = [draw(fl(-spread[0], spread[0])), draw(st.sampled_from([0.0, 2.5])), zb]
        elif mode == 2:                                 # on axis
            p = [0.0, 0.0, draw(fl(*z))]
        else:
            p = [draw(fl(-spread[0], spread[0])), draw(fl(-spread[1], spread[1])), zb]
        if neg:
            p[2] = -p[2]
        elif plane:                                     # in the plane of the aperture, mostly beside it
            p[draw(st.integers(0, 1))] += 25.0
            p[2] = 0.0
        out.append([rnd(x) for x in p])
    return out


@st.composite
def array_grid(draw, maxel=8, minel=1, zvar=True):
    L = draw(st.integers(minel, maxel))
    if L > 40:
        r = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        z = draw(st.sampled_from([0.0, 0.0, 3.0])) if zvar else 0.0
        return [[float('%.6g' % x) for x in p] for p in np.column_stack([r.uniform(-10, 10, L), r.uniform(-10, 10, L), z * r.uniform(-1, 1, L)])]
    kind = draw(st.integers(0, 3))
    p = draw(fl(0.3, 5.0))
    if kind == 0:        # linear along x or y, centred
        G = [[(i - (L - 1) / 2) * p, 0.0, 0.0] for i in range(L)]
        if draw(st.booleans()):
            G = [[y, x, z] for x, y, z in G]
    elif kind == 1:      # matrix
        m = draw(st.integers(1, L))
        G = [[(i % m - (m - 1) / 2) * p, (i // m) * p - 1.0, 0.0] for i in range(L)]
    else:
        G = [[draw(fl(-10, 10)), draw(fl(-10, 10)), draw(fl(-3, 3)) if (zvar and kind == 3) else 0.0] for _ in range(L)]
    if max(abs(g[0]) + abs(g[1]) for g in G) < 1e-3:
        G[0] = [1.0, 0.5, G[0][2]]
    return [[rnd(x) for x in g] for g in G]


@st.composite
def material(draw, alpha=False):
    return dict(v=draw(st.one_of(st.just(1.0), fl(0.01, 100.0))), cp=draw(st.one_of(st.just(1500.0), fl(300, 6500))),
                alpha=draw(fl(0.05, 20.0)) if alpha else 0.0)


@st.composite
def window(draw, c, mode='full', span=(2, 90), margin=30, ntmax=6000):
    """Pick dt, nt and delay so that the responses lie in (or straddle) the window."""
    grid = elem_grid(c) if c['fn'] != ANNU else ref.grid_circ(max(c['G']), c['dx'], c['dy'])
    els = elements(c) if c['fn'] != ANNU else [((0, 0, 0), 0.0, 1.0)]
    sf = single_foc(c, grid)
    lo, hi = [], []
    if len(grid[0]) == 0:
        raise_empty = True
        grid = (np.zeros(1),) * 3 + (np.zeros(1, bool), 1.0)
        sf = 0.0
    for ro in c['ro']:
        a, b = [], []
        for off, ex, w in els:
            r = np.sqrt((ro[0] - off[0] - grid[0]) ** 2 + (ro[1] - off[1] - grid[1]) ** 2 + (ro[2] - off[2] - grid[2]) ** 2)
            t = r * 1e3 / c['cp'] + ex + sf
            a.append(t.min())
            b.append(t.max())
            c['_rmin'] = min(c.get('_rmin', 1e9), r.min())
        lo.append(min(a))
        hi.append(max(b))
    rmin = c.pop('_rmin')
    if rmin < 1e-3:                 # an observation point on an aperture node: 1/r is unbounded
        c['bad'] = 1
    lo, hi = np.array(lo), np.array(hi)
    multi = len(lo) > 1 and draw(st.booleans())
    tot = (hi - lo).max() if multi else hi.max() - lo.min()
    n = draw(st.integers(*span))
    dt = tot / n if tot / n > 1e-4 else draw(fl(1e-3, 0.2))
    dt = rnd(max(dt, 1e-4), draw(st.sampled_from([2, 3, 6, 12])))
    need = int(np.ceil(tot / dt)) + 3
    if mode == 'full':
        lead = [draw(st.integers(0, margin)) + draw(fl(0.0, 0.9)) for _ in range(len(lo) if multi else 1)]
        nt = need + int(max(lead)) + 2 + draw(st.integers(0, margin))
    else:
        k = draw(st.integers(0, 3))
        f = draw(fl(0.05, 0.95))
        if k == 0:         # starts late: early part lost
            lead = [-f * need] * (len(lo) if multi else 1)
            nt = need + draw(st.integers(1, margin))
        elif k == 1:       # too short: late part lost
            lead = [draw(st.integers(0, 5))] * (len(lo) if multi else 1)
            nt = max(1, int(f * need))
        elif k == 2:       # entirely outside
            lead = [draw(st.sampled_from([-1, 1])) * (need + draw(st.integers(10, 2000)))] * (len(lo) if multi else 1)
            nt = draw(st.integers(1, 50))
        else:
            lead = [-f * need / 2] * (len(lo) if multi else 1)
            nt = max(1, int(f * need / 2))
        if multi and draw(st.booleans()):     # only some observation points are affected
            keep = draw(st.integers(0, len(lo) - 1))
            nt = max(nt, need + 4)
            lead = [l if i == keep else 1.0 for i, l in enumerate(lead)]
    if mode == 'full' and lo.min() > 0 and hi.max() / dt < ntmax - 50 and draw(st.integers(0, 7)) == 0:
        c['dt'], c['nt'] = dt, int(hi.max() / dt) + draw(st.integers(2, 40))      # window from time zero
        c['delay'] = [0.0] * (len(lo) if multi else 1)
        return c
    c['dt'] = dt
    c['nt'] = int(min(nt, ntmax))
    base = lo if multi else [lo.min()]
    c['delay'] = [rnd(float(t - l * dt)) for t, l in zip(base, lead)]
    return c


@st.composite
def annu_case(draw, nobs=(1, 4), foc=True, apod=True, alpha=False, mode='full', err=None):
    n = draw(st.one_of(st.just(1), st.integers(2, 4), st.integers(2, 6)))
    zero_first = draw(st.integers(0, 9)) == 0
    G, r = [], 0.0
    for k in range(2 * n - 1):
        step = draw(fl(0.3, 3.0))
        if k % 2 == 1 and draw(st.integers(0, 4)) == 0:
            step = 0.0                       # no gap between rings
        r = rnd(r + step)
        G.append(r)
    if zero_first and n > 1:
        G[0] = 0.0
    if max(G) <= 0.2:
        G[-1] = 0.5
    c = dict(fn=ANNU, G=G, ro=draw(obs_points(draw(st.integers(*nobs)))))
    R = max(G)
    c['dx'] = rnd(2 * R / (draw(st.integers(2, 9 if alpha else 22)) + draw(fl(-0.4, 0.4))))
    c['dy'] = rnd(2 * R / (draw(st.integers(2, 9 if alpha else 22)) + draw(fl(-0.4, 0.4))))
    c.update(draw(material(alpha)))
    c['foc'] = draw(st.sampled_from(['off', 'on', 'x', 'y', 'xy', 'x+y', 'ud'])) if foc else 'off'
    c['focal'] = draw(fl(2.0, 150.0))
    c['apod'] = draw(st.sampled_from(['ud', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped', 'off'])) if apod else 'off'
    if n == 1 and c['apod'] not in ('off', 'ud'):
        c['apod'] = 'ud'                     # the other laws divide by the outer ring radius
    c['win'] = draw(fl(0.0, 4.0))
    c['ud'] = [draw(fl(-2.0, 3.0)) for _ in range(n)]
    c['threads'] = draw(st.sampled_from(THREADS))
    c['err'] = err or draw(st.sampled_from(['stop', 'warn', 'ignore']))
    c['backend'] = draw(st.sampled_from(['py', 'oct']))
    c = draw(window(c, mode, (2, 60)))
    if c['foc'] == 'ud':
        k = draw(st.integers(0, 2))
        lim = [0.3, 0.9, 3.0][k] * c['nt'] * c['dt']
        c['focal'] = [rnd(draw(fl(-1, 1)) * lim, 6) for _ in range(n)]
    else:
        _, fd, _ = annu_rings(c)
        if draw(st.integers(0, 3)):          # mostly make room for the focusing delay
            c['nt'] = int(min(c['nt'] + max(0.0, fd.max()) / c['dt'] + 1, 4000))
    return c


ANGLE = st.one_of(fl(-60, 60), fl(-60, 60), fl(-90, 90), st.sampled_from([0.0, 30.0, -30.0, 45.0, 90.0, -90.0, 120.0, 200.0]))


@st.composite
def case(draw, fns, nobs=(1, 6), cells=12, mode='full', alpha=False, foc=False, steer=False, apod=False,
         maxel=8, minel=1, span=(2, 90), err=None, big=True):
    fn = draw(st.sampled_from(fns))
    c = dict(fn=fn)
    ntmax = 6000
    large = draw(st.integers(0, 39)) if big else 1
    no = draw(st.integers(*nobs)) if large != 0 else draw(st.integers(20, 130) | st.integers(130, 400))
    if large == 0:
        cells = 5
    if large == 2:
        span = (600, 3000)
        no = min(no, 2)
    if fn in ARR:
        if large == 3:
            c['G'] = draw(array_grid(70, 20) if draw(st.booleans()) else array_grid(260, 70))
            cells, no = min(cells, 4), min(no, 2)
        else:
            c['G'] = draw(array_grid(maxel, minel))
            cells = min(cells, 7)
    if large == 5:                       # a long response
        span = (3000, 25000)
        no = 1
        ntmax = 30000
    if large == 4:
        cells = cells * 3
        no = 1
    c['geom'], c['dx'], c['dy'] = draw(geometry(fn, cells))
    c['ro'] = draw(obs_points(no))
    c.update(draw(material(alpha)))
    if fn in FOC:
        c['foc'] = draw(st.sampled_from(['off', 'x', 'y', 'xy', 'x+y'] if foc else ['off']))
        c['focal'] = draw(fl(2.0, 150.0))
    if fn in ARR:
        L = len(c['G'])
        c['foc'] = draw(st.sampled_from(['x', 'y', 'xy', 'x+y', 'ud', 'off'])) if foc else 'off'
        c['focal'] = [draw(fl(-2.0, 6.0)) for _ in range(L)] if c['foc'] == 'ud' else draw(fl(2.0, 150.0))
        c['steer'] = draw(st.sampled_from(['x', 'y', 'xy', 'off'])) if steer else 'off'
        c['theta'], c['phi'] = draw(ANGLE), draw(ANGLE)
        c['apod'] = draw(st.sampled_from(['ud', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped', 'off'])) if apod else 'off'
        c['win'] = draw(fl(0.0, 4.0))
        c['ud'] = [draw(fl(-2.0, 3.0)) for _ in range(L)]
    c['threads'] = draw(st.sampled_from(THREADS))
    c['err'] = err or draw(st.sampled_from(['stop', 'warn', 'ignore']))
    c['backend'] = draw(st.sampled_from(['py', 'oct']))
    c = draw(window(c, mode, span, ntmax=ntmax))
    return c


# ------------------------------------------------------------------ oracle
def check_case(c, ctx, expect=None):
    """Full response inside the window (or 'ignore'/'warn'): compare against the reference."""
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    o = call(c, ctx, c['backend'])
    compare(c, o)
    if o.mutated:
        fail('input argument(s) %s were modified', o.mutated)
    return o


def refs(c):
    if c['fn'] == ANNU:
        from . import annu
        return annu.refs(c)
    grid, els = elem_grid(c), elements(c)
    return [response(c, n, grid, els) for n in range(len(c['ro']))]


def compare(c, o, R=None):
    R = refs(c) if R is None else R
    oob = any(b.oob for b in R)
    maybe = any(b.oob_maybe for b in R)
    err = c.get('err', 'stop')
    if o.h is None:
        if err == 'stop' and maybe:
            return R
        fail('%s returned no response (%s) although %s', c['fn'], o.exc,
             'every contribution is inside the window' if not maybe else "the error level is '%s'" % err)
    if err == 'stop' and oob:
        fail("%s returned a response although a contribution is outside the window and the error level is 'stop'", c['fn'])
    if o.h.shape != (c['nt'], len(c['ro'])):
        fail('%s returned shape %s, expected %s', c['fn'], o.h.shape, (c['nt'], len(c['ro'])))
    for n, b in enumerate(R):
        m = b.compare(o.h[:, n])
        if m:
            fail('%s (%s), observation point %d: %s', c['fn'], o.backend, n, m)
    return R


def nontrivial(R):
    """At least two samples of some response receive a contribution."""
    for b in R:
        if isinstance(b, ref.Bins):
            if (b.s > 0).sum() >= 2:
                return True
        elif b.nin >= 2 and not b.amb:
            return True
    return False
