"""Delay-and-sum: a NumPy model with interval arithmetic for the sample index, calls, generators.

A travel time within rounding distance of a sample boundary may fall on either side, so the model
returns the interval of images the property allows; data are small integers, so sums are exact in
both precisions and the interval is a single value unless some index is ambiguous."""
import numpy as np
from hypothesis import strategies as st
from .core import fail, Skip
from .sir import F, fl, rnd

METHODS = ['saft', 'tfm', 'rca', 'rca_coltx', 'rca_rowtx']
TARGETS = {'main': ['py_das', 'py_das_f', 'oct_das']}
THREADS = [None, '1', '2', '3', '5', '8', '32']
ERR = {'none': 0, 'ignore': 1, 'warn': 2}


def cast(c):
    t = np.float32 if c['f32'] else np.float64
    q = lambda x, w: np.asarray(x, t).reshape(-1, w).astype(float)
    return (q(c['gt'], 3), q(c['gr'], 3), q(c['ro'], 3), float(t(c['dt'])), np.asarray(c['delay'], t).astype(float), float(t(c['cp'])))


def times(c):
    """two-way travel times plus delay in samples, No x pairs, in the order of the A-scans, and their uncertainty"""
    gt, gr, ro, dt, delay, cp = cast(c)
    m = c['method']
    if len(gr) == 0 or m == 'saft':
        d = np.sqrt(((ro[:, None, :] - gt[None]) ** 2).sum(2))
        path = 2 * d
    elif m == 'tfm':
        dtx = np.sqrt(((ro[:, None, :] - gt[None]) ** 2).sum(2))
        drx = np.sqrt(((ro[:, None, :] - gr[None]) ** 2).sum(2))
        path = (dtx[:, :, None] + drx[:, None, :]).reshape(len(ro), -1)
    else:                                   # gt: columns (along x), gr: rows (along y)
        ylo, yhi, xlo, xhi = gr[0, 1], gr[-1, 1], gt[0, 0], gt[-1, 0]
        ey = ro[:, 1] - np.clip(ro[:, 1], ylo, yhi)
        ex = ro[:, 0] - np.clip(ro[:, 0], xlo, xhi)
        dc = np.sqrt((ro[:, None, 0] - gt[None, :, 0]) ** 2 + ey[:, None] ** 2 + (ro[:, None, 2] - gt[None, :, 2]) ** 2)
        dr = np.sqrt(ex[:, None] ** 2 + (ro[:, None, 1] - gr[None, :, 1]) ** 2 + (ro[:, None, 2] - gr[None, :, 2]) ** 2)
        if m == 'rca_rowtx':
            path = (dr[:, :, None] + dc[:, None, :]).reshape(len(ro), -1)
        else:
            path = (dc[:, :, None] + dr[:, None, :]).reshape(len(ro), -1)
    dl = delay if len(delay) == len(ro) else np.full(len(ro), delay[0])
    q = path * 1e3 / cp / dt + dl[:, None] / dt
    mx = max([np.abs(x).max() if x.size else 0 for x in (gt, gr, ro)])
    # OpenCL's native functions have about single precision
    eps = 6e-8 if c['f32'] or c.get('device') == 'gpu' else 1.2e-16
    tol = 8 * eps * (np.abs(q) + np.abs(dl[:, None]) / dt + path * 1e3 / cp / dt + mx * 1e3 / cp / dt) + 1e-13
    return q, tol


def data(c):
    """nt x K integers; A-scans beyond the needed ones are NaN and must not be used"""
    q = c['_np']
    r = np.random.default_rng(c['seed'])
    Y = r.integers(-999, 1000, (c['nt'], q)).astype(float)
    Y[Y == 0] = 7.0
    if c['extra']:
        Y = np.hstack([Y, np.full((c['nt'], c['extra']), np.nan)])
    return Y


def npairs(c):
    n = len(c['gt']) // 3
    if c['method'] != 'saft' and len(c['gr']):
        n *= len(c['gr']) // 3
    return n


def model(c, Y=None):
    """lo, hi (No), oob: 'no' | 'yes' | 'maybe'; number of certain out-of-range pairs per point"""
    c = dict(c, _np=npairs(c))
    q, tol = times(c)
    Y = data(c) if Y is None else Y
    nt = c['nt']
    cand = []
    for s in (-1, 0, 1):
        k = np.trunc(q + s * tol)
        ok = (k >= 0) & (k < nt)
        kk = np.where(ok, k, 0).astype(int)
        v = np.where(ok, Y[kk, np.arange(q.shape[1])[None]], 0.0)
        cand.append((v, ok))
    # the truncation of a time in (-1, 0) is the first sample; "before the A-scan" is as defensible
    neg = (q > -1 - tol) & (q < tol)
    v0 = np.where(neg, 0.0, cand[1][0])
    vs = np.stack([cand[0][0], cand[1][0], cand[2][0], v0])
    oks = np.stack([cand[0][1], cand[1][1], cand[2][1], cand[1][1] & ~neg])
    lo, hi = vs.min(0).sum(1), vs.max(0).sum(1)
    out_sure = ~oks.any(0)
    out_may = ~oks.all(0)
    oob = 'yes' if out_sure.any() else 'maybe' if out_may.any() else 'no'
    amb = (vs.min(0) != vs.max(0)).any(1)
    return dict(lo=lo, hi=hi, oob=oob, sure=out_sure, amb=amb, q=q, Y=Y)


def args_of(c, lang, Y=None):
    t = np.float32 if c['f32'] else np.float64
    A = lambda x, w: F(np.asarray(x, t).reshape(-1, w))
    Y = data(dict(c, _np=npairs(c))) if Y is None else Y
    gr = A(c['gr'], 3) if len(c['gr']) else np.zeros((0, 0), t)
    if lang == 'py' and not len(c['gr']):
        gr = F(np.zeros((1, 3), t))
    d = np.asarray(c['delay'], t)
    d = F(d.reshape(1, -1) if c['rowv'] else d.reshape(-1, 1))
    a = [F(Y.astype(t)), A(c['gt'], 3), gr, A(c['ro'], 3)]
    if lang == 'py':
        a += [float(t(c['dt'])), d, float(t(c['cp'])), c['method'], c['err'], 'cpu']
        if c.get('verbose') is not None:
            a.append(c['verbose'])
    else:
        a += [np.full((1, 1), c['dt'], t), d, np.full((1, 1), c['cp'], t), c['method'], c['err']]
        if c.get('verbose') is not None:
            a += ['cpu', c['verbose']]
    return a


class Out:
    def __init__(self, exc, im, err, text):
        self.exc, self.im, self.err, self.text = exc, im, err, text


def call(c, ctx, Y=None, env=None, w=None):
    lang = c['lang']
    env = {'DREAM_NUM_THREADS': c.get('threads')} if env is None else env
    a = args_of(c, lang, Y)
    no = len(c['ro']) // 3
    if lang == 'py':
        o = (w or ctx.py()).call('das_f' if c['f32'] else 'das', 'das', a, env)
        if o.exc:
            return Out(o.msg or o.exc, None, None, o.text)
        if o.mutated:
            fail('das modified its arguments %s', o.mutated)
        im = o.out
        if im.shape != (no,) or im.dtype != (np.float32 if c['f32'] else np.float64):
            fail('das returned %s of %s for %d points', im.dtype, im.shape, no)
        return Out(None, im.astype(float), None, o.text)
    nout = c.get('nout', 2)
    o = (w or ctx.oct()).call('das', a, nout, env)
    if o.exc:
        return Out(o.exc, None, None, o.text)
    if o.mutated:
        fail('das modified its arguments %s', o.mutated)
    if len(o.out) != nout:
        fail('das returned %d of %d values: %s', len(o.out), nout, o.text[-300:])
    im = o.out[0]
    if im.shape != (no, 1) or im.dtype != (np.float32 if c['f32'] else np.float64):
        fail('das returned %s of %s for %d points', im.dtype, im.shape, no)
    return Out(None, im.ravel().astype(float), float(np.ravel(o.out[1])[0]) if nout > 1 else None, o.text)


def compare(c, m, im, what='das'):
    t = 1e-9 + (np.abs(m['lo']) + np.abs(m['hi'])) * (1e-6 if c['f32'] else 1e-12)
    bad = ~((im >= m['lo'] - t) & (im <= m['hi'] + t))
    if bad.any():
        n = int(np.argmax(bad))
        fail('%s %s (%s%s): point %d of %d (%s) is %r, expected %r..%r; sample positions %s', what, c['method'], c['lang'],
             '/single' if c['f32'] else '', n, len(bad), np.asarray(c['ro']).reshape(-1, 3)[n].tolist(), float(im[n]),
             float(m['lo'][n]), float(m['hi'][n]), np.round(m['q'][n][:6], 4).tolist())


# ------------------------------------------------------------------ generators
def coords(draw, n, size, plane):
    r = lambda: rnd(draw(fl(-size, size)))
    out = []
    for _ in range(n):
        out.append([r(), r(), 0.0 if plane else r()])
    return out


@st.composite
def case(draw, methods=METHODS, range_='in', langs=('py', 'oct'), maxn=9, maxo=14, f32=None, vec=None, big=False):
    method = draw(st.sampled_from(methods))
    f32 = draw(st.booleans()) if f32 is None else f32
    nt = draw(st.one_of(st.integers(1, 300), st.integers(20, 300)))
    dt = rnd(draw(fl(0.005, 0.5)), draw(st.sampled_from([2, 3, 12])))
    dt = max(dt, 0.005)
    cp = draw(st.one_of(st.sampled_from([1500.0, 1000.0]), fl(300, 6500)))
    plane = draw(st.booleans())
    kind = draw(st.sampled_from(['random', 'line', 'grid']))
    n_t = draw(st.integers(1, maxn))
    n_r = draw(st.integers(1, maxn))
    rg = None
    if big:                                  # many elements and points, or long A-scans; coordinates from one seed
        rg = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        if draw(st.booleans()):
            n_t, n_r = draw(st.integers(10, 70)), draw(st.integers(1, 40))
            nt = min(nt, 60)
        else:
            nt = draw(st.integers(1000, 60000))
            n_t, n_r = min(n_t, 3), min(n_r, 3)

    def grid(n):
        if kind == 'line':
            p = rnd(draw(fl(0.02, 0.3)), 3)
            x0 = draw(st.sampled_from([-(n - 1) * p / 2, 0.0]))
            ax = draw(st.integers(0, 1))
            g = [[0.0, 0.0, 0.0] for _ in range(n)]
            for i in range(n):
                g[i][ax] = rnd(x0 + i * p)
            return g
        if kind == 'grid':
            return [[rnd(0.25 * (i % 3)), rnd(0.25 * (i // 3)), 0.0] for i in range(n)]
        if rg is not None:
            return [[float('%.6g' % x) for x in p] for p in np.column_stack([rg.uniform(-1, 1, (n, 2)), rg.uniform(-1, 1, n) * (not plane)])]
        return coords(draw, n, 1.0, plane)
    gt = grid(n_t)
    gr = grid(n_r)
    rca = method.startswith('rca')
    if rca:
        for g, ax in ((gt, 0), (gr, 1)):
            if kind == 'line':
                p = rnd(draw(fl(0.02, 0.3)), 3)
                o = draw(st.sampled_from([0.0, -p * (len(g) - 1) / 2]))
                v = [rnd(o + i * p) for i in range(len(g))]
            else:
                v = sorted(p[ax] for p in g)
            for i, p in enumerate(g):
                p[ax] = v[i]
    no = draw(st.integers(1, maxo)) if not big or nt > 999 else draw(st.integers(15, 500))
    zr = draw(st.booleans())
    ro = []
    if rg is not None:
        P = np.column_stack([rg.uniform(-1.6, 1.6, (no, 2)), rg.uniform(0.05, 2, no)])
        ro = [[float('%.6g' % x) for x in p] for p in P]
    for _ in range(no if rg is None else 0):
        w = draw(st.sampled_from([1.0, 1.0, 2.5]))
        ro.append([rnd(draw(fl(-w, w))), rnd(draw(fl(-w, w))), rnd(draw(fl(0.05, 2)) if zr else draw(fl(-1, 2)))])
    if method == 'saft':
        gr = draw(st.sampled_from([[], [[9.0, 9.0, 9.0]]]))
    elif not rca and draw(st.integers(0, 11)) == 0 and langs == ('oct',):
        gr = []
    c = dict(method=method, f32=f32, nt=nt, dt=dt, cp=cp, gt=gt, gr=gr, ro=ro, delay=[0.0], lang=draw(st.sampled_from(langs)),
             rowv=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), extra=draw(st.sampled_from([0, 0, 0, 2])),
             err=draw(st.sampled_from(['ignore', 'warn', 'stop'])), threads=draw(st.sampled_from(THREADS)),
             verbose=draw(st.sampled_from([None, None, '', 'quiet', 'verbose'])), nout=draw(st.sampled_from([1, 2, 2])))
    for k in ('gt', 'gr', 'ro'):
        c[k] = [x for p in c[k] for x in p]
    # scale the whole scene so that the travel times fill the A-scan
    cc = dict(c, dt=1.0, cp=1000.0)
    q, _ = times(cc)
    top = draw(fl(0.15, 0.98)) if range_ == 'in' else draw(fl(0.6, 2.5))
    s = top * nt * dt * cp / 1e3 / max(q.max(), 1e-3)
    for k in ('gt', 'gr', 'ro'):
        c[k] = [rnd(x * s) for x in c[k]]
    q, _ = times(c)                          # samples, without delay
    vec = draw(st.booleans()) if vec is None else vec
    lo, hi = q.min(1), q.max(1)
    if range_ == 'in':
        pick = lambda l, h: rnd((-l + draw(fl(0.001, 0.999)) * max(nt - (h - l) - 1e-3, 0.0)) * dt) if draw(st.booleans()) else \
            rnd(draw(fl(0, 1)) * max(nt - h - 0.01, 0) * dt)
        if vec and rg is not None:
            c['delay'] = [rnd((-l + f * max(nt - (h - l) - 1e-3, 0.0)) * dt) for l, h, f in zip(lo, hi, rg.uniform(0.001, 0.999, no))]
        elif vec:
            c['delay'] = [pick(l, h) for l, h in zip(lo, hi)]
        else:
            c['delay'] = [pick(lo.min(), hi.max())]
    else:
        pick = lambda l, h: rnd(draw(st.one_of(fl(-h - 3, nt - l + 3), fl(-l, max(nt - h, -l + 0.5)), st.just(-h - 2.5), st.just(nt - h + 0.5),
                                               st.just(0.0))) * dt)
        c['delay'] = [pick(l, h) for l, h in zip(lo, hi)] if vec else [pick(lo.min(), hi.max())]
    return c


def label(c, m):
    return '%s/%s%s%s' % (c['method'], c['lang'], '/single' if c['f32'] else '', '/vec' if len(c['delay']) > 1 else '')


def nontrivial(c, m):
    return c['nt'] > 1 and not m['amb'].all()
