"""sum_fftconv against sums of NumPy convolutions."""
import numpy as np
from hypothesis import strategies as st
from vf import conv, sir
from vf.core import Check, Sub, fail
from vf.sir import F


@st.composite
def case(draw):
    m = draw(conv.size(200))
    k = draw(conv.size(200))
    n = draw(st.integers(1, 12)) if draw(st.integers(0, 9)) else draw(st.integers(13, 40))
    return dict(m=m, k=k, n=n, l=draw(st.integers(2, 9)), kind=draw(st.sampled_from(['int', 'real', 'spike', 'wide'])),
                seed=draw(st.integers(0, 10 ** 6)), threads=draw(st.sampled_from(sir.THREADS)),
                wis=draw(st.sampled_from(['no', 'no', 'ask', 'use'])))


def setup(c):
    r = np.random.default_rng(c['seed'])
    H = conv.values(c['kind'], r, (c['m'], c['n'], c['l']))
    U = conv.values(c['kind'], r, (c['k'], c['l']))
    L = c['m'] + c['k'] - 1
    Y, S = np.zeros((L, c['n'])), np.zeros(c['n'])
    for j in range(c['n']):
        for l in range(c['l']):
            Y[:, j] += np.convolve(H[:, j, l], U[:, l])
            S[j] += np.sqrt((H[:, j, l] ** 2).sum() * (U[:, l] ** 2).sum())
    return F(H), F(U), Y / L, S / L


def wisdom(c, ctx, H, U):
    w = ctx.oct().call('fftconv_p', [H[:, :1, 0], U[:, :1]], 2, {'DREAM_NUM_THREADS': c['threads']})
    if w.exc or len(w.out) != 2:
        fail('fftconv_p did not return wisdom: %s', w.exc)
    return w.out[1]


def model(c, ctx):
    H, U, Y, S = setup(c)
    args, nout = [H, U], 1
    if c['wis'] == 'use':
        args.append(wisdom(c, ctx, H, U))
    elif c['wis'] == 'ask':
        nout = 2
    o = ctx.oct().call('sum_fftconv', args, nout, {'DREAM_NUM_THREADS': c['threads']})
    if o.exc or len(o.out) != nout:
        fail('sum_fftconv failed: %s', o.exc)
    if o.mutated:
        fail('sum_fftconv modified its arguments %s', o.mutated)
    conv.compare('sum_fftconv', o.out[0], Y, S)
    return '%s/%s' % ('short' if c['k'] == 1 else 'long', c['wis']), c['m'] > 1 and c['k'] > 1


def inplace(c, ctx):
    H, U, Y, S = setup(c)
    r = np.random.default_rng(c['seed'] + 1)
    Y0 = F(conv.values(c['kind'], r, Y.shape)) / Y.shape[0]
    if Y0.size < 2:
        return 'scalar', False
    ops = np.empty((1, 2), dtype=object)
    for i in range(2):
        a = np.empty((1, 4 if c['wis'] == 'use' else 3), dtype=object)
        a[0, 0], a[0, 1], a[0, 2] = H, U, '@Y'
        if c['wis'] == 'use':
            a[0, 3] = '@W'
        ops[0, i] = dict(fn='sum_fftconv', args=a, thr=c['threads'] or '', wis=7.0)
    o = ctx.oct().call('vf_hist', [Y0, ops], 3)
    if o.exc:
        fail('history failed: %s', o.exc)
    for i in range(2):
        s = o.out[1][0, i]
        if np.size(s):
            fail('in-place sum_fftconv failed: %s', s)
        conv.compare('in-place sum_fftconv, call %d' % (i + 1), o.out[0][0, i], Y0 + (i + 1) * Y, S * (i + 1) + np.abs(Y0).max(0))
    if not np.all(o.out[2] == 1):
        fail('sum_fftconv modified an input argument')
    return 'in-place/%s' % c['wis'], c['m'] > 1 and c['k'] > 1


CHECK = Check('C25', 'H of 1..200 rows, 1..40 columns and 2..9 pages and the matching U, integer, real, sparse or widely scaled; plain, with wisdom asked for or '
              'supplied, and twice in place on one matrix. Results within 1e-12 of the sum of the column norm products. Non-trivial: H and U '
              'have more than one row.', {'main': ['oct_sum_fftconv', 'oct_fftconv_p']}, [Sub('model', case(), model, 1800), Sub('inplace', case(), inplace, 1200)])
