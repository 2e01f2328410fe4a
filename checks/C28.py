"""dream_apodwin against a NumPy model, and against the weights the array functions apply."""
import numpy as np
from hypothesis import strategies as st
from vf import ref
from vf.core import Check, Sub, fail
from vf.sir import F

METS = ['off', 'ud', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped']


@st.composite
def case(draw):
    c = dict(met=draw(st.sampled_from(METS)), n=draw(st.integers(1, 6) | st.integers(1, 400)), par=draw(st.sampled_from([0.0, 1.0, 0.5, 10.0, 100.0]) | st.floats(-3, 20)),
             seed=draw(st.integers(0, 10 ** 6)), row=draw(st.booleans()), first=draw(st.sampled_from([None, 0.0, -2.0, 3.0, 1e9])))
    return c


def call(c, ctx):
    w = None
    if c['met'] == 'ud':
        w = np.random.default_rng(c['seed']).standard_normal(c['n'])
        if c['first'] is not None:
            w[0] = c['first']
    a = float(c['n']) if w is None else F(w.reshape(1, -1) if c['row'] else w.reshape(-1, 1))
    o = ctx.oct().call('dream_apodwin', [c['met'], a, c['par']], 1)
    if o.exc or not o.out:
        fail('dream_apodwin(%s, n=%d) failed: %s %s', c['met'], c['n'], o.exc, o.text[:200])
    if o.mutated:
        fail('arguments modified')
    y = o.out[0]
    if np.shape(y) != (c['n'], 1):
        fail('shape %s, expected (%d, 1)', np.shape(y), c['n'])
    return y[:, 0], w


def model(c, ctx):
    y, w = call(c, ctx)
    n = np.arange(c['n'])
    Y = ref.apod(c['met'], np.abs(1 - 2 * n / c['n']), 1.0, c['par'], w)
    t = 0 if c['met'] in ('off', 'ud') else 1e-12 * (1 + abs(c['par']) + np.abs(Y))
    bad = ~(np.abs(y - Y) <= t)
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        fail('dream_apodwin(%s, n=%d, par=%r): sample %d is %r, expected %r', c['met'], c['n'], c['par'], i, y[i], Y[i])
    if c['met'] != 'ud' and not np.allclose(y[1:], y[:0:-1], rtol=1e-10, atol=1e-12):
        fail('dream_apodwin(%s) is not symmetric', c['met'])
    return c['met'], c['n'] > 2


@st.composite
def acase(draw):
    c = draw(case())
    c['n'] = draw(st.integers(2, 24))
    return c


def array(c, ctx):
    """a line of small elements, each seen alone: the array applies the weights of the window"""
    if c['met'] == 'ud' and c['first'] == 1e9:
        c = dict(c, first=2.0)
    y, w = call(c, ctx)
    n = c['n']
    # the window samples run from x = 1 to -1 + 2/n; a grid over [-1, 1] needs the missing end point
    x = 10.0 * (1 - 2 * np.arange(n + 1) / n)
    G = F(np.column_stack([x, 0 * x, 0 * x]))
    wv = F(np.append(w, 0.0)) if w is not None else F(np.ones(1))
    # element n is nearest to its observation point at z = 0.5: its arrival is alone in the first microsecond part
    sep = 20.0 / n
    z = sep / 4
    Ro = F(np.column_stack([x[:n], 0 * x[:n], 0 * x[:n] + z]))
    nt, cp = 64, 1000.0
    dt = (sep / 2) / nt                    # us per sample at 1 mm/us
    out = []
    for met in (c['met'], 'off'):
        o = ctx.oct().call('dream_arr_rect', [Ro, F([sep / 50, sep / 50]), G, F([sep / 100, sep / 100, dt, nt]), 0.0, F([1.0, cp, 0.0]), 'off', 1.0, 'off', F([0.0, 0.0]),
                                              met, wv, c['par'], 'ignore'], 1)
        if o.exc or not o.out:
            fail('dream_arr_rect failed: %s %s', o.exc, o.text[:200])
        out.append(o.out[0].sum(0))
    got = out[0] / out[1]
    t = 1e-9 * (1 + abs(c['par']) + np.abs(y))
    bad = ~(np.abs(got - y) <= t)
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        fail('%s: element %d of %d has weight %r in dream_arr_rect but %r in dream_apodwin', c['met'], i, n, float(got[i]), float(y[i]))
    return 'array/' + c['met'], True


CHECK = Check('C28', 'Every method with lengths 1..400 and window parameters -3..100; for ud random weights of either orientation, some starting with a value that is not '
              "their count. The samples must equal the window at 1 - 2n/N; in the sub-check 'array' they must equal the weights observed in front of each element of a line "
              'array. Non-trivial: more than two samples.', {'main': ['oct_dream_apodwin', 'oct_dream_arr_rect']},
              [Sub('model', case(), model, 3000), Sub('array', acase(), array, 1500)])
