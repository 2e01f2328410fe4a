"""Calls of any toolbox function: generator of JSON-able specs, translation to a call, canonical outcome.

spec = dict(f=family, c=case, lang='py'|'oct')"""
import numpy as np
from hypothesis import strategies as st
from . import sir, das, analytic, conv
from .core import fail
from .sir import F, fl, rnd, row, col

PY_CONV = ['fftconv_p']
OCT_CONV = ['conv_p', 'fftconv_p', 'fftconv_ola', 'sum_fftconv', 'dream_apodwin', 'copy_p', 'add_p']


WEIGHT = dict(py=dict(sir=5, das=2), oct=dict(sir=4, conv=3, analytic=2))


def targets(langs=('py', 'oct'), fams=None):
    t = []
    if 'py' in langs:
        t += ['py_' + f for f in sir.ALL] + ['py_das', 'py_das_f', 'py_fftconv_p']
    if 'oct' in langs:
        t += ['oct_' + f for f in sir.ALL] + ['oct_das', 'oct_circ_sir', 'oct_scirc_sir', 'oct_rect_sir', 'oct_dream_att'] + ['oct_' + f for f in OCT_CONV]
    return t


@st.composite
def conv_case(draw, fns):
    fn = draw(st.sampled_from(fns))
    c = dict(fn=fn, threads=draw(st.sampled_from(sir.THREADS)), seed=draw(st.integers(0, 10 ** 6)), kind=draw(st.sampled_from(['int', 'real', 'wide'])),
             m=draw(conv.size(100)), k=draw(conv.size(100)), n=draw(st.integers(1, 12)), b=draw(st.sampled_from(['mat', 'col', 'row'])),
             mode=draw(st.sampled_from([None, None, None, '=', '+=', '-='])), wis=draw(st.sampled_from(['no', 'no', 'ask'])))
    if c['b'] == 'mat' and (c['n'] < 2 or c['k'] < 2):
        c['b'] = 'col'
    if fn == 'fftconv_ola':
        c['len'] = draw(st.integers(1, c['m']))
    if fn == 'sum_fftconv':
        c['l'] = draw(st.integers(2, 5))
        c['mode'] = None
    if fn == 'dream_apodwin':
        c['met'] = draw(st.sampled_from(['off', 'ud', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped']))
    if fn in ('copy_p', 'add_p'):
        c['r'] = sorted([draw(st.integers(1, c['m'])), draw(st.integers(1, c['m']))])
        c['q'] = sorted([draw(st.integers(1, c['n'])), draw(st.integers(1, c['n']))])
    if fn in ('conv_p', 'dream_apodwin', 'copy_p', 'add_p'):
        c['wis'] = 'no'
    return c


@st.composite
def spec(draw, langs=('py', 'oct'), fams=('sir', 'annu', 'das', 'analytic', 'att', 'conv'), small=True, fftconv_py=True, alpha=True):
    lang = draw(st.sampled_from(list(langs)))
    f = draw(st.sampled_from([x for x in fams if lang == 'oct' or x in ('sir', 'annu', 'das', 'conv') for _ in range(WEIGHT[lang].get(x, 1))]))
    if f == 'conv' and lang == 'py' and not fftconv_py:
        f = 'sir'
    mode = draw(st.sampled_from(['full', 'full', 'part']))
    al = alpha and draw(st.integers(0, 3)) == 0
    kw = dict(alpha=al, mode=mode)
    if f == 'sir':
        c = draw(sir.case(sir.ALL[:-1], nobs=(1, 6), cells=6, foc=True, steer=True, apod=True, big=not small, span=(2, 40), **kw))
    elif f == 'annu':
        c = draw(sir.annu_case(nobs=(1, 4), **kw))
    elif f == 'das':
        c = draw(das.case(range_=draw(st.sampled_from(['in', 'out'])), langs=(lang,)))
    elif f == 'analytic':
        c = draw(analytic.case(draw(st.sampled_from(['circ_sir', 'scirc_sir', 'rect_sir']))))
    elif f == 'att':
        c = dict(ro=draw(sir.obs_points(draw(st.integers(1, 6)))), nt=draw(st.integers(1, 130)), dt=draw(fl(0.01, 0.5)), cp=draw(fl(300, 6500)),
                 alpha=draw(st.sampled_from([0.0, 0.5, 5.0])), threads=draw(st.sampled_from(sir.THREADS)))
        c['delay'] = [rnd(np.sqrt(sum(x * x for x in p)) * 1e3 / c['cp'] - draw(fl(-0.1, 1.1)) * c['nt'] * c['dt']) for p in c['ro']]
        if draw(st.booleans()):
            c['delay'] = c['delay'][:1]
    else:
        c = draw(conv_case(PY_CONV if lang == 'py' else OCT_CONV))
    if 'backend' in c:
        c['backend'] = lang
    return dict(f=f, c=c, lang=lang)


@st.composite
def variant(draw, s):
    """the same call with one or two things changed (which may make it succeed or fail where the other did not)"""
    c = dict(s['c'])
    ws = ['err', 'delay', 'threads', 'ro', 'points', 'cp', 'v', 'alpha', 'nt', 'dt', 'foc', 'focal', 'steer', 'theta', 'apod', 'win', 'gt', 'gr', 'f32', 'method',
          'seed', 'm', 'k', 'n', 'mode', 'kind', 'geom', 'dx', 'ud', 'G', 'b', 'len', 'n_int']
    ws = [w for w in ws if (w in c or w == 'points')]
    if 'gr' in c:
        ws = [w for w in ws if w not in ('threads', 'alpha', 'v')] + ['gt', 'gr', 'method', 'err', 'delay', 'swap', 'swap']
    if 'ro' not in c:
        ws.remove('points')
    for w in draw(st.lists(st.sampled_from(ws), min_size=1, max_size=2, unique=True)):
        if w == 'err':
            c['err'] = draw(st.sampled_from(['ignore', 'warn', 'stop']))
        elif w == 'delay':
            k = draw(st.sampled_from([0.3, -0.3, 1.0, -1.0, 5.0, -5.0, 1e4])) * c['nt'] * c['dt']
            c['delay'] = [rnd(d + k) for d in c['delay']]
        elif w == 'threads':
            c['threads'] = draw(st.sampled_from(sir.THREADS))
        elif w == 'ro':
            c['ro'] = (np.array(c['ro'], float) + draw(st.sampled_from([0.25, 2.0, 300.0]))).tolist()
        elif w in ('points', 'gt', 'gr', 'G'):
            w = 'ro' if w == 'points' else w
            a = np.array(c[w], float)
            flat, a = a.ndim == 1 and w != 'G', a if a.ndim == 2 or w == 'G' else a.reshape(-1, 3)
            if not len(a):
                continue
            i = draw(st.lists(st.integers(0, len(a) - 1), min_size=1, max_size=2 * len(a))) if c.get('fn') != sir.ANNU or w == 'ro' else list(range(len(a)))
            if w == 'ro' and len(c['delay']) > 1:
                c['delay'] = [c['delay'][j] for j in i]
            a = a[i]
            c[w] = a.ravel().tolist() if flat else a.tolist()
        elif w == 'swap':
            c['gt'], c['gr'] = c['gr'] or c['gt'], c['gt']
        elif w in ('cp', 'v', 'dx', 'win', 'theta', 'dt'):
            c[w] = rnd(c[w] * draw(st.sampled_from([0.5, 1.25, 2.0])))
        elif w == 'alpha':
            c['alpha'] = draw(st.sampled_from([0.0, 0.5, 5.0]))
        elif w in ('nt', 'm', 'k', 'n', 'len', 'n_int'):
            c[w] = max(1, int(c[w]) + draw(st.sampled_from([-7, -1, 1, 2, 33])))
        elif w == 'focal':
            c[w] = [rnd(x * 1.5) for x in c[w]] if isinstance(c[w], list) else rnd(c[w] * 1.5)
        elif w == 'foc':
            c[w] = draw(st.sampled_from(['off', 'x', 'y', 'xy', 'x+y']))
        elif w == 'steer':
            c[w] = draw(st.sampled_from(['off', 'x', 'y', 'xy']))
        elif w == 'apod':
            c[w] = draw(st.sampled_from(['off', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped']))
        elif w == 'f32':
            c[w] = not c[w]
        elif w == 'method':
            c[w] = draw(st.sampled_from(['saft', 'tfm', 'rca_coltx', 'rca_rowtx']))
        elif w == 'seed':
            c[w] = c[w] + 1
        elif w == 'mode':
            c[w] = draw(st.sampled_from([None, '=', '+=', '-=']))
        elif w == 'kind':
            c[w] = draw(st.sampled_from(['int', 'real', 'wide']))
        elif w == 'geom':
            c[w] = [rnd(x * 1.25) for x in c[w]]
        elif w == 'ud':
            c[w] = [rnd(x + 0.5) for x in c[w]] if c[w] is not None else None
        elif w == 'b':
            c[w] = draw(st.sampled_from(['mat', 'col', 'row']))
    return dict(s, c=c)


def call_of(s):
    """(module, fn, args, nout, env)"""
    c, f, lang = s['c'], s['f'], s['lang']
    env = {'DREAM_NUM_THREADS': c.get('threads')}
    if f in ('sir', 'annu'):
        return c['fn'], c['fn'], sir.args_of(c), 2, env
    if f == 'das':
        return 'das_f' if c['f32'] and lang == 'py' else 'das', 'das', das.args_of(c, lang), c.get('nout', 2), env
    if f == 'analytic':
        return c['fn'], c['fn'], analytic.args_of(c), 1, env
    if f == 'att':
        return 'dream_att', 'dream_att', [F(np.array(c['ro'])), row([c['dt'], c['nt']]), col(c['delay']), row([c['cp'], c['alpha']])], 1, env
    fn = c['fn']
    r = np.random.default_rng(c['seed'])
    if fn == 'dream_apodwin':
        w = F(r.standard_normal((c['n'], 1))) if c['met'] == 'ud' else float(c['n'])
        return fn, fn, [c['met'], w, 1.5], 1, env
    if fn in ('copy_p', 'add_p'):
        A = F(conv.values(c['kind'], r, (max(c['m'], 2), c['n'])))
        B = F(conv.values(c['kind'], r, (c['r'][1] - c['r'][0] + 1, c['q'][1] - c['q'][0] + 1)))
        return fn, fn, ['@Y', row(c['r']), row(c['q']), B], A, env
    nout = 2 if c['wis'] == 'ask' else 1
    if fn == 'sum_fftconv':
        a = [F(conv.values(c['kind'], r, (c['m'], c['n'], c['l']))), F(conv.values(c['kind'], r, (c['k'], c['l'])))]
        return fn, fn, a, nout, env
    A, B = conv.mats(c)
    a = [A, B] + ([float(c['len'])] if fn == 'fftconv_ola' else [])
    L = A.shape[0] + B.size - 1 if 1 in B.shape else A.shape[0] + B.shape[0] - 1
    if c['mode'] and L * A.shape[1] > 1 and lang == 'oct':
        return fn, fn, a + ['@Y', c['mode']], F(conv.values(c['kind'], r, (L, A.shape[1]))), env
    return fn, fn, a, nout if lang == 'oct' else 1, env


class Outcome:
    """arrays: list of arrays returned (or the matrix after an in-place call); exc: error or ''"""

    def __init__(self, arrays, exc, text, mutated=()):
        self.arrays, self.exc, self.text, self.mutated = arrays, exc, text, mutated


def call(s, ctx, config='main', w=None, fork=False):
    mod, fn, args, nout, env = call_of(s)
    if s['lang'] == 'py':
        w = w or ctx.py(config)
        o = w.call(mod, fn, args, env, fork=fork)
        return outcome_py(o)
    w = w or ctx.oct(config)
    if isinstance(nout, np.ndarray):
        ops = np.empty((1, 1), dtype=object)
        a = np.empty((1, len(args)), dtype=object)
        for j, x in enumerate(args):
            a[0, j] = x
        ops[0, 0] = dict(fn=fn, args=a, thr=env['DREAM_NUM_THREADS'] or '', wis=0.0)
        o = w.call('vf_hist', [nout, ops], 3, fork=fork)
        if o.exc:
            fail('vf_hist: %s', o.exc)
        e = o.out[1][0, 0]
        return Outcome([o.out[0][0, 0]], str(e) if np.size(e) else '', o.text, () if np.all(o.out[2] == 1) else ('other',))
    o = w.call(fn, args, nout, env, fork=fork)
    return Outcome([x for x in (o.out or []) if not isinstance(x, str)], o.exc or '', o.text, o.mutated or ())


def outcome_py(o):
    out = o.out
    out = list(out) if isinstance(out, tuple) else [out] if out is not None else []
    out = [x for x in out if not isinstance(x, str)]
    return Outcome(out, '%s: %s' % (o.exc, o.msg) if o.exc else '', o.text, o.mutated or ())


def uses_fft(s):
    c = s['c']
    return s['f'] == 'att' or s['f'] == 'conv' and 'fft' in c['fn'] or c.get('alpha', 0) > 0


def name(s):
    return s['c'].get('fn') or {'das': 'das', 'att': 'dream_att'}[s['f']]


def same(s, a, b, tol=1e-12):
    """'' or what differs between two outcomes of the same call"""
    if bool(a.exc) != bool(b.exc):
        return 'one failed: %r / %r' % (a.exc, b.exc)
    if len(a.arrays) != len(b.arrays):
        return '%d and %d results' % (len(a.arrays), len(b.arrays))
    for i, (x, y) in enumerate(zip(a.arrays, b.arrays)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype:
            return 'result %d is %s %s / %s %s' % (i, x.dtype, x.shape, y.dtype, y.shape)
        if x.tobytes() == y.tobytes() or np.array_equal(x, y, equal_nan=True):
            continue
        if uses_fft(s) and x.size:
            ref = np.abs(y).max(0) if y.ndim > 1 else np.abs(y).max()
            if (np.abs(x - y) <= tol * ref * max(16, np.log2(x.size + 1)) + scale(s)).all():
                continue
        k = np.unravel_index(int(np.argmax(~(x == y))), x.shape)
        return 'result %d differs in %d of %d values, first at %s: %r / %r' % (i, int((~(x == y)).sum()), x.size, tuple(int(q) for q in k), x[k].item(), y[k].item())
    return ''


def scale(s):
    """absolute accuracy of FFT results whose columns may cancel"""
    if s['f'] == 'conv':
        return {'int': 1e4, 'real': 10.0, 'wide': 1e7}[s['c']['kind']] * 200 * 1e-15
    return 0.0
