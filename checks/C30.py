"""Valid calls with one argument made malformed: an error, no result, and a working process."""
import numpy as np
from hypothesis import strategies as st
from vf import anycall, sir, das
from vf.core import Check, Sub, fail
from vf.sir import F, row, col

UNKNOWN = ['', 'OFF', 'xx', 'stopp', 'x ', 'ignore,', 'fooooooooooooooooooooo', 'Ud', 'x-y', 'tfm2']


def positions(s):
    """[(argument index, kind, ...)] of the argument list of a valid call"""
    c, f = s['c'], s['f']
    n = len(c['ro']) if f != 'das' and 'ro' in c else len(c.get('ro', [])) // 3
    P = []
    if f in ('sir', 'annu'):
        fn = c['fn']
        names = ['ro', 'G1'] if f == 'annu' else ['ro', 'geom'] + (['G'] if fn in sir.ARR else [])
        names += ['s_par', 'delay', 'm_par']
        if fn in sir.FOC + sir.ARR + [sir.ANNU]:
            names += ['foc', 'focal']
        if fn in sir.ARR:
            names += ['steer', 'steer_par']
        if fn in sir.ARR + [sir.ANNU]:
            names += ['apod', 'ud', 'win']
        names += ['err']
    elif f == 'das':
        names = ['Y', 'gt', 'gr', 'ro', 'dt', 'delay', 'cp', 'method', 'err']
        if s['lang'] == 'py' or c.get('verbose') is not None:
            names.append('device' if s['lang'] == 'py' else 'dev')      # Octave takes any name but gpu for the CPU
    elif f == 'analytic':
        names = ['ro', 'geom', 'sa', 'delay', 'ma'] + (['n_int'] if c['fn'] == 'scirc_sir' else [])
    elif f == 'att':
        names = ['ro', 'sa', 'delay', 'ma']
    else:
        names = {'conv_p': ['A', 'B'], 'fftconv_p': ['A', 'B'], 'fftconv_ola': ['A', 'B', 'len'], 'sum_fftconv': ['H', 'U'],
                 'dream_apodwin': ['apod', 'n', 'win']}.get(c['fn'], [])
    for i, k in enumerate(names):
        P.append((i, k))
    return P, n


STR = ('foc', 'steer', 'apod', 'err', 'method', 'device')
VEC = {'s_par': 4, 'm_par': 3, 'sa': 2, 'ma': 2, 'steer_par': 2}


def muts(s):
    """names of the malformations that apply"""
    P, n = positions(s)
    c, f, py = s['c'], s['f'], s['lang'] == 'py'
    out = [(-1, 'drop')]
    if f != 'conv':
        out.append((-1, 'extra'))
    for i, k in P:
        if k in STR:
            out += [(i, 'unknown')]
            if k != 'device':
                out += [(i, 'number')]
        elif k in VEC:
            out += [(i, 'longer'), (i, 'shorter'), (i, 'empty'), (i, 'square')]
        elif k == 'geom':
            out += [(i, 'longer'), (i, 'empty')] + ([(i, 'shorter')] if len(np.ravel(c['geom'])) > 1 else [])
        elif k in ('ro', 'G', 'gt', 'gr'):
            if not (f == 'das' and k == 'gr' and (c['method'] == 'saft' or not len(c['gr']))):      # not used
                out += [(i, 'cols2'), (i, 'cols4'), (i, 'cols1')]
        elif k == 'G1':
            out += [(i, 'even')] + ([(i, 'wide')] if len(c['G']) > 2 else [])
        elif k == 'delay':
            out += [(i, 'wrong'), (i, 'empty')] + ([(i, 'few')] if n > 2 else [])
        elif k == 'focal':
            ud = c.get('foc') == 'ud'
            out += [(i, 'longer'), (i, 'empty')] + ([(i, 'shorter')] if ud and len(np.ravel(c['focal'])) > 2 else [])
        elif k == 'ud':
            if c.get('apod') == 'ud':
                out += [(i, 'longer'), (i, 'empty')] + ([(i, 'shorter')] if len(c['ud']) > 1 else [])
        elif k == 'win':
            if not py:
                out += [(i, 'longer'), (i, 'empty')]
        elif k in ('dt', 'cp'):
            if py:
                out += [(i, 'string')]
            else:
                out += [(i, 'longer'), (i, 'empty')]
        elif k == 'Y':
            out += [(i, 'fewcols')]
        elif k == 'B' and c['n'] > 1:
            out += [(i, 'bcols')]
        elif k == 'U':
            out += [(i, 'ucols')]
        elif k == 'len':
            out += [(i, 'zero'), (i, 'minus'), (i, 'long')]
    return out


@st.composite
def case(draw, lang):
    s = draw(anycall.spec((lang,)))
    while s['f'] == 'conv' and (s['c']['fn'] in ('copy_p', 'add_p') or s['c'].get('mode')):      # these are in C26 and C27
        s = draw(anycall.spec((lang,)))
    return dict(s=s, mut=list(draw(st.sampled_from(muts(s)))), q=draw(st.integers(0, 99)), nout=draw(st.sampled_from([None, None, 0])))


def mutate(s, mut, q):
    mod, fn, args, nout, env = anycall.call_of(s)
    a = list(args)
    i, m = mut
    if m == 'drop':
        a = a[:-1]
        if s['lang'] == 'oct' and s['f'] in ('sir', 'annu'):      # the last argument is optional
            a = a[:-1]
        if s['f'] == 'das':
            a = a[:8 if s['lang'] == 'py' else 7]
        if s['f'] == 'analytic' and len(a) == 5:
            a = a[:4]
        if fn == 'fftconv_ola':
            a = a[:2]
        if fn in ('conv_p', 'fftconv_p', 'sum_fftconv'):
            a = a[:1]
        return mod, fn, a, nout, env
    if m == 'extra':
        return mod, fn, a + [1.0] * 4, nout, env
    x = a[i]
    t = x.dtype if isinstance(x, np.ndarray) else float
    v = np.ravel(x, order='F') if isinstance(x, np.ndarray) else np.atleast_1d(x) if not isinstance(x, str) else None
    mk = lambda w: F(np.asarray(w, t).reshape(-1, 1) if q % 2 else np.asarray(w, t).reshape(1, -1))
    if m == 'unknown':
        bad = UNKNOWN[q % len(UNKNOWN)]
        a[i] = bad
    elif m == 'number':
        a[i] = 3.0
    elif m == 'string':
        a[i] = 'abc'
    elif m == 'longer':
        a[i] = mk(np.append(v, v[-1:] + 0.5))
    elif m == 'shorter':
        a[i] = mk(v[:-1])
    elif m == 'empty':
        a[i] = F(np.zeros((0, 0), t))
    elif m == 'square':
        a[i] = F(np.full((2, 2), 1.0)) if len(v) != 4 else F(np.resize(v, (2, 2)))
    elif m == 'cols2':
        a[i] = F(x[:, :2])
    elif m == 'cols1':
        a[i] = F(x[:, :1])
    elif m == 'cols4':
        a[i] = F(np.hstack([x, x[:, :1]]))
    elif m == 'even':
        a[i] = mk(np.append(v, v[-1] + 0.5))
    elif m == 'wide':
        a[i] = F(np.hstack([v.reshape(-1, 1)] * 3))
    elif m == 'wrong':
        n = positions(s)[1]
        a[i] = mk(np.resize(v, max(n, 1) + 1 + q % 3))
    elif m == 'few':
        n = positions(s)[1]
        a[i] = mk(np.resize(v, n - 1))
    elif m == 'fewcols':
        k = das.npairs(s['c'])
        a[i] = F(x[:, :k - 1])
    elif m == 'bcols':
        k = x.shape[0] if x.shape[0] > 1 else 3
        a[i] = F(np.ones((k, s['c']['n'] + 1)))
    elif m == 'ucols':
        a[i] = F(np.ones((max(x.shape[0], 2), x.shape[1] + 1)))
    elif m == 'zero':
        a[i] = 0.0
    elif m == 'minus':
        a[i] = -2.0
    elif m == 'long':
        a[i] = float(s['c']['m'] + 1)
    return mod, fn, a, nout, env


def name_of(s, mut):
    P, _ = positions(s)
    return dict(P).get(mut[0], 'args') + ':' + mut[1]


def run(c, ctx):
    s = c['s']
    mod, fn, a, nout, env = mutate(s, c['mut'], c['q'])
    what = '%s (%s), %s' % (fn, s['lang'], name_of(s, c['mut']))
    if s['lang'] == 'py':
        o = anycall.outcome_py(ctx.py().call(mod, fn, a, env))
    else:
        # with no output expected, Octave does not complain about a missing result, so the function itself must say something
        r = ctx.oct().call(fn, a, nout if c['nout'] is None else 0, env)
        if c['nout'] == 0 and r.text.strip() and not any(np.size(x) for x in r.out or []):
            r.exc = r.exc or 'printed'
        o = anycall.Outcome([x for x in (r.out or [])], r.exc or '', r.text, r.mutated or ())
    if not o.exc:
        fail('%s: no error was reported; returned %s; printed %r', what, [np.shape(x) for x in o.arrays], o.text[:200])
    if o.mutated:
        fail('%s: the rejected call modified argument %s', what, o.mutated)
    # the next correct call works, as in a fresh process
    o = anycall.call(s, ctx)
    f = anycall.call(s, ctx, w=ctx.py(key='fresh') if s['lang'] == 'py' else ctx.oct(key='fresh'), fork=True)
    d = anycall.same(s, o, f)
    if d:
        fail('%s: the correct call after the rejected one differs from that call in a fresh process: %s', what, d)
    return '%s/%s/%s' % (s['lang'], s['f'], name_of(s, c['mut'])), True


CHECK = Check('C30', 'A valid call of any function of either language with one malformation: arguments missing or left over, wrong shapes and lengths (observation points, '
              'grids, geometry, sampling, material, delay, focus, weight and steering vectors, data), empty or non-numeric values, unknown method, error level and device '
              'names, block lengths and annular radii out of range. It must raise and return nothing, and the correct call made next must give what a fresh process '
              'gives. Every case is non-trivial.', {'main': anycall.targets()}, [Sub('python', case('py'), run, 4000), Sub('octave', case('oct'), run, 4000)])
