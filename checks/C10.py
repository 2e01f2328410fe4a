"""Columns are independent of each other, of the thread count and of earlier calls."""
import numpy as np
from hypothesis import strategies as st
from vf import analytic, das, sir
from vf.core import Check, Sub, fail
from vf.sir import F, row, col


@st.composite
def related(draw, base):
    """A case, two other thread counts, and the points (any selection, order, repetition) of the second call."""
    c = draw(base)
    n = len(c['ro']) if isinstance(c['ro'][0], list) else len(c['ro']) // 3
    k = draw(st.integers(0, 4))
    if k == 0:
        idx = [draw(st.integers(0, n - 1))]
    elif k == 1:
        idx = draw(st.permutations(range(n)))
    elif k == 2:
        a = draw(st.integers(0, n - 1))
        idx = list(range(a, draw(st.integers(a, n - 1)) + 1))
    else:
        idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=40))
    return dict(c=c, idx=list(idx), t2=draw(st.sampled_from(sir.THREADS)), t3=draw(st.sampled_from(sir.THREADS)))


def same(a, b, what, fn):
    if a.shape != b.shape:
        fail('%s: shapes %s and %s (%s)', fn, a.shape, b.shape, what)
    d = ~((a == b) | (np.isnan(a) & np.isnan(b)))
    if d.any():
        k = [int(x[0]) for x in np.nonzero(d)]
        fail('%s: %s: element %s is %r in one call and %r in the other (%d differ)', fn, what, k, float(a[tuple(k)]), float(b[tuple(k)]), int(d.sum()))


def run_with(get, pick):
    def run(p, ctx):
        c, idx = p['c'], p['idx']
        a = get(c, ctx)
        fn = c.get('fn', 'das')
        b = get(dict(c, threads=p['t2']), ctx)
        same(a, b, 'threads %s and %s' % (c['threads'], p['t2']), fn)
        same(a, get(c, ctx), 'repeated call', fn)
        s = get(pick(dict(c, threads=p['t3']), idx), ctx)
        same(a[:, idx], s, 'points %s of %d, threads %s and %s' % (idx, a.shape[1], c['threads'], p['t3']), fn)
        n = a.shape[1]
        return '%s/%s/%s' % (fn, c.get('backend') or c.get('lang') or 'oct', 'one' if len(idx) == 1 else 'many'), \
            n > 1 and bool((a != 0).any()) and (c['threads'] != p['t2'] or len(idx) != n)
    return run


def pick_sir(c, idx):
    if len(c['delay']) > 1:
        c['delay'] = [c['delay'][i] for i in idx]
    c['ro'] = [c['ro'][i] for i in idx]
    return c


def get_sir(c, ctx):
    o = sir.call(dict(c, err='ignore'), ctx, c['backend'])
    if o.h is None:
        fail('%s returned no response: %s', c['fn'], o.exc)
    if o.h.shape != (c['nt'], len(c['ro'])):
        fail('%s returned shape %s', c['fn'], o.h.shape)
    return o.h


def get_ana(c, ctx):
    return analytic.call(c, ctx)


def pick_das(c, idx):
    n = len(c['ro']) // 3
    if len(c['delay']) > 1:
        c['delay'] = [c['delay'][i] for i in idx]
    c['ro'] = [x for i in idx for x in c['ro'][3 * i:3 * i + 3]]
    return c


def get_das(c, ctx):
    o = das.call(dict(c, err='ignore'), ctx)
    if o.exc:
        fail('das failed: %s', o.exc)
    return o.im.reshape(1, -1)


@st.composite
def att_case(draw):
    no = draw(st.integers(1, 12))
    ro = draw(sir.obs_points(no))
    cp = draw(sir.fl(300, 6500))
    nt = draw(st.integers(1, 200))
    dt = draw(sir.fl(1e-2, 0.5))
    r = np.sqrt((np.array(ro) ** 2).sum(1)) * 1e3 / cp
    d = [sir.rnd(t - (draw(st.integers(0, nt - 1)) + 0.3) * dt + 0.3 * dt) for t in r]
    return dict(fn='dream_att', ro=ro, cp=cp, nt=nt, dt=dt, delay=d, alpha=draw(sir.fl(0.05, 20.0)), threads=draw(st.sampled_from(sir.THREADS)))


def get_att(c, ctx):
    o = ctx.oct().call('dream_att', [F(np.array(c['ro'], float)), row([c['dt'], c['nt']]), col(c['delay']), row([c['cp'], c['alpha']])], 1,
                       {'DREAM_NUM_THREADS': c['threads']})
    if o.exc or not o.out:
        fail('dream_att failed: %s', o.exc)
    return o.out[0]


N = dict(nobs=(1, 30), cells=5, maxel=4, big=False)
CASES = {
    'single': st.one_of(sir.case(sir.SINGLE + sir.FOC, foc=True, **N), sir.case(sir.SINGLE + sir.FOC, foc=True, mode='part', **N)),
    'single_att': sir.case(sir.SINGLE + sir.FOC, foc=True, alpha=True, **N),
    'array': st.one_of(sir.case(sir.ARR, foc=True, steer=True, apod=True, **N), sir.case(sir.ARR, foc=True, mode='part', **N)),
    'array_att': sir.case(sir.ARR, foc=True, steer=True, apod=True, alpha=True, **N),
    'annu': st.one_of(sir.annu_case(nobs=(1, 30)), sir.annu_case(nobs=(1, 30), mode='part')),
    'annu_att': sir.annu_case(nobs=(1, 12), alpha=True),
}
subs = [Sub(k, related(v), run_with(get_sir, pick_sir), {'single': 1500, 'array': 900}.get(k, 500)) for k, v in CASES.items()]
for f in ('circ_sir', 'scirc_sir', 'rect_sir'):
    subs.append(Sub(f, related(analytic.case(f)), run_with(get_ana, pick_sir), 250))
subs.append(Sub('dream_att', related(att_case()), run_with(get_att, pick_sir), 250))
subs.append(Sub('das', related(st.one_of(das.case(maxo=30), das.case(range_='out', maxo=30))), run_with(get_das, pick_das), 1200))

CHECK = Check('C10', 'A call with up to 30 points, scalar or per-point delays and windows that hold all or part of the response is repeated, repeated '
              'with another DREAM_NUM_THREADS, and made again for a drawn selection of its points (one, a range, a permutation, any list with '
              'repetitions) with a third thread count; all results must be bit-identical column by column. Non-trivial: more than one point, a '
              'non-zero result, and a different thread count or selection.',
              {'main': sir.targets() + das.TARGETS['main'] + ['oct_circ_sir', 'oct_scirc_sir', 'oct_rect_sir', 'oct_dream_att']}, subs)
