"""Metamorphic laws: two related calls of the same function."""
import numpy as np
from hypothesis import strategies as st
from vf import ref, sir
from vf.core import Check, Sub, fail, Skip

A = dict(foc=True, steer=True, apod=True)


def two(c, d, ctx):
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    a, b = sir.call(c, ctx, c['backend']), sir.call(d, ctx, c['backend'])
    for o in (a, b):
        if o.h is None:
            fail('%s failed: %s %s', c['fn'], o.exc, o.text)
    return a.h, b.h


def masks(c):
    """Samples whose value cannot depend on rounding ties or edge cells."""
    R = sir.refs(c)
    if isinstance(R[0], ref.AttResp):
        return np.array([[not b.amb] * c['nt'] for b in R]).T, max(b.tot for b in R), any(b.nin for b in R)
    tol = max(b.tot for b in R)
    m = np.array([np.abs(b.hi - b.lo) <= 1e-13 * tol for b in R]).T
    return m, tol, sir.nontrivial(R)


def close(c, a, b, m, tot, what, rtol=1e-9):
    bad = m & ~(np.abs(a - b) <= rtol * tot)
    if bad.any():
        k, n = [int(x[0]) for x in np.nonzero(bad)]
        fail('%s: %s: point %d sample %d: %r and %r (%d samples differ)', c['fn'], what, n, k, float(a[k, n]), float(b[k, n]), int(bad.sum()))


def velocity(c, ctx):
    f = c['f']
    a, b = two(c, dict(c, v=c['v'] * f), ctx)
    m, tot, nt = masks(c)
    close(c, a * f, b, np.ones_like(m), tot * abs(f), 'v times %g' % f)
    return c['fn'], nt


def shift(c, ctx):
    k = c['k']
    d = dict(c, delay=[x - k * c['dt'] for x in c['delay']], nt=c['nt'] + max(k, 0), err='ignore')
    c = dict(c, err='ignore')
    a, b = two(c, d, ctx)
    m, tot, nt = masks(c)
    md = masks(d)[0]
    n = c['nt']
    if k >= 0:
        close(c, a, b[k:k + n], m & md[k:k + n], tot, 'start delay advanced %d samples' % k)
        if b[:k][md[:k]].any():
            fail('%s: samples before the response are not zero', c['fn'])
    elif -k < n:
        close(c, a[-k:], b[:n + k], m[-k:] & md[:n + k], tot, 'start delay postponed %d samples' % -k)
    return '%s/%s' % (c['fn'], 'later' if k >= 0 else 'earlier'), nt and abs(k) < n


def window(c, ctx):
    n2 = max(1, int(c['nt'] * c['f']))
    a, b = two(dict(c, err='ignore'), dict(c, nt=n2, err='ignore'), ctx)
    n = min(c['nt'], n2)
    if not np.array_equal(a[:n], b[:n]):
        fail('%s: the first %d samples depend on the window length (%d or %d)', c['fn'], n, c['nt'], n2)
    return c['fn'], bool(np.count_nonzero(a) > 1)


def window_annu(c, ctx):
    # an advanced ring loses what lies before the (shorter) window: see the known finding C09-annu-advance
    return window(dict(c, focal=[abs(x) for x in c['focal']] if isinstance(c['focal'], list) else c['focal']), ctx)


def vecdelay(c, ctx):
    c = dict(c, delay=c['delay'][:1], err='ignore')
    a, b = two(c, dict(c, delay=c['delay'] * len(c['ro'])), ctx)
    if not np.array_equal(a, b):
        fail('%s: a constant delay vector does not give the response of the scalar delay', c['fn'])
    return c['fn'], bool(np.count_nonzero(a) > 1) and len(c['ro']) > 1


def lengths(c, ctx):
    s = 2.0 ** c['e']
    d = dict(c)
    for k in ('dx', 'dy', 'dt'):
        d[k] = c[k] * s
    d['delay'] = [x * s for x in c['delay']]
    d['ro'] = [[x * s for x in p] for p in c['ro']]
    if 'geom' in c:
        d['geom'] = [x * s for x in c['geom']]
    if 'focal' in c:
        d['focal'] = [x * s for x in c['focal']] if isinstance(c['focal'], list) else c['focal'] * s
    if 'G' in c:
        d['G'] = [x * s for x in c['G']] if c['fn'] == sir.ANNU else [[x * s for x in p] for p in c['G']]
    a, b = two(c, d, ctx)
    m, tot, nt = masks(c)
    close(c, a, b, np.ones_like(m) & m, tot, 'all lengths and times multiplied by %g' % s)
    return c['fn'], nt


def even(n, w):
    """Cell size so that n cells cover w exactly up to rounding."""
    return w / n


@st.composite
def sym(draw, fns, axes):
    c = draw(sir.case(fns, foc=True, apod=True, steer=False, big=False, cells=8))
    fn, ax = c['fn'], draw(st.sampled_from(axes))
    n = draw(st.integers(1, 9))
    g = c['geom']
    if ax == 'x':
        c['dx'] = even(n, g[0])
    elif fn in ('dreamcirc', 'dreamsphere', 'dreamcirc_f', 'dream_arr_circ'):
        c['dy'] = even(n, 2 * g[0])
    elif fn in ('dreamrect', 'dreamrect_f', 'dream_arr_rect'):
        c['dy'] = even(n, g[1])
    elif fn in ('dreamcylind', 'dream_arr_cylind'):
        arc = 2 * np.arcsin(g[1] / 2 / abs(g[2]))
        c['dy'] = float(abs(g[2]) * np.sin(arc / (n if arc / n < 1.5 else n + 2)))
    if fn in sir.ARR:
        c['steer'] = draw(st.sampled_from(['off', 'y' if ax == 'x' else 'x']))
    c['axis'] = ax
    c['err'] = 'ignore'
    return draw(sir.window(c, 'full', (2, 60)))


def mirror(c, ctx):
    i = 'xy'.index(c['axis'])
    d = dict(c)
    flip = lambda P: [[-x if j == i else x for j, x in enumerate(p)] for p in P]
    d['ro'] = flip(c['ro'])
    if 'G' in c:
        d['G'] = flip(c['G'])
    # a whole number of cells covers the aperture: the last cell ends (up to rounding) on the
    # edge, half a cell away from the deciding comparison
    a, b = two(c, d, ctx)
    m, tot, nt = masks(c)
    close(c, a, b, m & masks(d)[0], tot, 'mirrored in ' + c['axis'])
    return c['fn'] + '/' + c['axis'], nt and any(p[i] for p in c['ro'])


def transpose(c, ctx):
    d = dict(c)
    sw = lambda P: [[p[1], p[0], p[2]] for p in P]
    d['ro'], d['geom'] = sw(c['ro']), c['geom'][::-1]
    d['dx'], d['dy'] = c['dy'], c['dx']
    x = {'x': 'y', 'y': 'x'}
    if 'foc' in c:
        d['foc'] = x.get(c['foc'], c['foc'])
    if 'G' in c:
        d['G'] = sw(c['G'])
        d['steer'] = x.get(c['steer'], c['steer'])
        d['theta'], d['phi'] = c['phi'], c['theta']
    a, b = two(c, d, ctx)
    m, tot, nt = masks(c)
    close(c, a, b, m & masks(d)[0], tot, 'x and y exchanged')
    return c['fn'], nt


def plus(s, **k):
    return st.tuples(s, st.fixed_dictionaries(k)).map(lambda t: dict(t[0], **t[1]))


def both(n, strat_kw, extra, run, q, annu=True, alpha=None):
    out = [Sub(n, plus(sir.case(sir.ALL[:-1], **dict(A, cells=8, **strat_kw)), **extra), run, q)]
    if annu:
        out.append(Sub(n + '_annu', plus(sir.annu_case(), **extra), run, max(60, q // 5)))
    if alpha:
        out.append(Sub(n + '_att', plus(sir.case(sir.ALL[:-1], alpha=True, **dict(A, cells=4, maxel=3, span=(2, 30), **strat_kw)), **extra), run, max(60, q // 4)))
    return out


RECT = ['dreamrect', 'dreamrect_f', 'dream_arr_rect']
CYL = ['dreamcylind', 'dream_arr_cylind']
CHECK = Check('C09', 'two related calls of one SIR function in one language, generated with all options: velocity times f; start delay advanced by k samples; a longer window; equal delay vector and scalar; mirrored points and grid; exchanged axes; all lengths and times scaled by 2^e. Samples whose value depends on a rounding tie are left out. Non-trivial: the response has at least two non-zero samples (for mirroring also a point off the mirror axis)', {'main': sir.targets()},
              both('velocity', {}, dict(f=sir.fl(-10, 10).filter(lambda x: abs(x) > 0.01)), velocity, 500, alpha=True, annu=False) +
              [Sub('velocity_annu', plus(sir.annu_case(mode='partial', err='ignore'), f=sir.fl(-10, 10).filter(lambda x: abs(x) > 0.01)), velocity, 100)] +
              both('shift', {}, dict(k=st.integers(-20, 60)), shift, 600, annu=False) +
              both('window', dict(mode='partial'), dict(f=sir.fl(0.2, 3.0)), window, 400, annu=False) +
              both('window_full', {}, dict(f=sir.fl(0.2, 3.0)), window, 400, annu=False) +
              [Sub('window_full_annu', plus(sir.annu_case(), f=sir.fl(0.2, 3.0)), window_annu, 100)] +
              both('vecdelay', dict(mode='partial', nobs=(2, 8)), {}, vecdelay, 300, alpha=True, annu=False) +
              [Sub('vecdelay_annu', sir.annu_case(nobs=(2, 6)), vecdelay, 100)] +
              both('lengths', dict(err='stop'), dict(e=st.integers(-6, 6)), lengths, 500, alpha=True, annu=False) +
              [Sub('lengths_annu', plus(sir.annu_case(err='ignore'), e=st.integers(-6, 6)), lengths, 100)] +
              [Sub('mirror_x', sym(['dreamline'] + RECT + CYL, ['x']), mirror, 500),
               Sub('mirror_y', sym(RECT + CYL + ['dreamcirc', 'dreamsphere', 'dreamcirc_f', 'dream_arr_circ'], ['y']), mirror, 500),
               Sub('transpose', sir.case(RECT, err='ignore', **A), transpose, 500)])
CHECK.extra = {'annu_advance': Sub('annu_advance', None, window, 0)}
