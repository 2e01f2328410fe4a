"""conv_p against NumPy convolution."""
import numpy as np
from vf import conv
from vf.core import Check, Sub, fail
from vf.sir import F


def get(c, ctx, A, B):
    o = ctx.oct().call('conv_p', [A, B], 1, {'DREAM_NUM_THREADS': c['threads']})
    if o.exc or not o.out:
        fail('conv_p of %s and %s failed: %s', A.shape, B.shape, o.exc)
    if o.mutated:
        fail('conv_p modified its arguments %s', o.mutated)
    return o.out[0]


def model(c, ctx):
    A, B = conv.mats(c)
    Y, S = conv.ref(A, B)
    conv.compare('conv_p', get(c, ctx, A, B), Y, S, c['kind'] == 'int')
    return conv.label(c), conv.nontrivial(c)


def laws(c, ctx):
    """commutes (equal column counts), is bilinear, and delta is its unit"""
    c = dict(c, kind='int')
    A, B = conv.mats(c)
    y = get(c, ctx, A, B)
    y2 = get(c, ctx, F(2 * A), F(-3 * B))
    if not np.array_equal(-6 * y, y2):
        fail('conv_p is not bilinear')
    if 1 not in B.shape or c['n'] == 1:
        b = B.reshape(-1, 1) if c['n'] == 1 else B
        if c['m'] > 1 or c['n'] == 1:
            if not np.array_equal(get(c, ctx, F(b), A), y):
                fail('conv_p(A,B) differs from conv_p(B,A)')
    d = np.zeros((c['k'], 1))
    s = c['seed'] % c['k']
    d[s] = 1.0
    e = np.zeros((c['m'] + c['k'] - 1, c['n']))
    e[s:s + c['m']] = A
    if not np.array_equal(get(c, ctx, A, F(d)), e):
        fail('conv_p with a unit impulse at %d does not shift by %d', s, s)
    return conv.label(c), conv.nontrivial(c)


CHECK = Check('C22', 'Matrices of drawn sizes (1..400 rows, 1..70 columns; B a matrix, a column or a row) with integer, real, sparse or widely scaled '
              'contents; integer results must be exact, others within 1e-12 of the product of the column norms. Non-trivial: both have more than one row.',
              {'main': ['oct_conv_p']}, [Sub('model', conv.case(), model, 2400), Sub('laws', conv.case(hi=100), laws, 900), Sub('big', conv.big(), model, 150)])
