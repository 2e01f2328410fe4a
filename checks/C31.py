"""Generated calls, valid and malformed, on an AddressSanitizer and UndefinedBehaviorSanitizer build."""
import numpy as np
from hypothesis import strategies as st
from vf import anycall, san
from vf.core import Check, Sub, fail
from checks import C26, C27, C30


def run_valid(c, ctx):
    """freshly allocated memory is filled with 0xff.. (NaN) in one process and with 0x01.. in the other: uninitialised values show as a difference"""
    a = anycall.call(c, san.SanCtx(ctx, env=san.asan_env(0xff)))
    b = anycall.call(c, san.SanCtx(ctx, env=san.asan_env(0x01), key='b'))
    d = anycall.same(c, a, b)
    if d:
        fail('%s (%s): the result depends on what new memory happens to hold: %s', anycall.name(c), c['lang'], d)
    return '%s/%s%s' % (c['lang'], anycall.name(c), '/error' if a.exc else ''), True


def run_malformed(c, ctx):
    s = san.SanCtx(ctx, env=san.asan_env(0xff))
    mod, fn, args, nout, env = C30.mutate(c['s'], c['mut'], c['q'])
    if c['s']['lang'] == 'py':
        s.py().call(mod, fn, args, env)
    else:
        s.oct().call(fn, args, nout if c['nout'] is None else 0, env)
    anycall.call(c['s'], s)
    return '%s/%s/%s' % (c['s']['lang'], anycall.name(c['s']), C30.name_of(c['s'], c['mut'])), True


SMALL = [0.0, -1.0, 1e-12, -1e-3, float('nan')]
ANY = SMALL + [1e9, -1e9, 1e18, 1e300, float('inf'), -float('inf')]
ODD = dict(delay=ANY, v=ANY, cp=ANY, alpha=[0.0, 1e-9, 30.0, -0.5, float('nan')], dt=ANY, nt=[0.0, -1.0, 1.7, float('nan'), 1.0], focal=ANY, theta=ANY, phi=ANY, win=ANY,
           ro=ANY, G=ANY, gt=ANY, gr=ANY, ud=ANY, geom=SMALL)


@st.composite
def odd(draw, lang):
    s = draw(anycall.spec((lang,), fams=('sir', 'annu', 'das', 'analytic', 'att'), alpha=draw(st.booleans())))
    c = s['c']
    ks = []
    for k in sorted(ODD):
        if k in c and not (s['f'] == 'annu' and k == 'G') and not (k == 'nt' and s['f'] == 'das') and np.size(c[k]) and not isinstance(c[k], str):
            ks.append(k)
    k = draw(st.sampled_from(ks))
    v = draw(st.sampled_from(ODD[k]))
    s['odd'] = [k, v, draw(st.integers(0, 999))]
    return s


def run_odd(s, ctx):
    c = s['c']
    k, v, i = s['odd']
    if isinstance(c[k], list):
        x = np.array(c[k], float)
        x.flat[i % x.size] = v
        c = dict(c, **{k: x.tolist()})
    else:
        c = dict(c, **{k: v})
    with np.errstate(all='ignore'):
        anycall.call(dict(s, c=c), san.SanCtx(ctx, env=san.asan_env(0xff)))
    return '%s/%s/%s=%s' % (s['lang'], anycall.name(s), k, v), True


def hist(run):
    f = san.crashes_only(run)
    return lambda c, ctx: f(c, san.SanCtx(ctx, env=san.asan_env(0xff)))


CHECK = Check('C31', 'Calls of all functions of both languages on a build with AddressSanitizer and UndefinedBehaviorSanitizer (process dies at the first report): valid '
              'calls (each also with new memory filled differently, results must be the same bits), calls with one malformed argument followed by a valid one, calls with one odd number (zero, negative, tiny, huge, infinite, NaN) in an argument, and histories '
              'of in-place convolutions and sub-matrix operations. Every executed call is non-trivial.', {'asan': anycall.targets()},
              [Sub('python', anycall.spec(('py',), small=False), run_valid, 2800), Sub('octave', anycall.spec(('oct',), small=False), run_valid, 2800),
               Sub('malformed_py', C30.case('py'), run_malformed, 2000), Sub('malformed_oct', C30.case('oct'), run_malformed, 2000),
               Sub('odd_py', odd('py'), run_odd, 2800), Sub('odd_oct', odd('oct'), run_odd, 2800),
               Sub('inplace', C26.CHECK.subs[0].strategy, hist(C26.CHECK.subs[0].run), 480), Sub('submatrix', C27.CHECK.subs[0].strategy, hist(C27.CHECK.subs[0].run), 480)])
