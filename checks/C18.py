"""TFM images against the delay-and-sum model; reciprocity."""
import numpy as np
from vf import das
from vf.core import Check, Sub, Skip, fail
from checks.C17 import subs, im, model

METHODS = ['tfm']


def swap(c, ctx):
    """Exchanging transmitters and receivers with the data transposed leaves the image unchanged."""
    m = das.model(c)
    if m['oob'] != 'no':
        raise Skip('out of range')
    c = dict(c, extra=0)
    n, k = len(c['gt']) // 3, len(c['gr']) // 3
    Y = das.data(dict(c, _np=n * k))
    Y2 = Y.reshape(c['nt'], n, k).transpose(0, 2, 1).reshape(c['nt'], n * k)
    c2 = dict(c, gt=c['gr'], gr=c['gt'])
    a, b = im(c, ctx, Y), im(c2, ctx, Y2)
    ok = ~m['amb']
    if not np.array_equal(a[ok], b[ok]):
        i = int(np.argmax((a != b) & ok))
        fail('tfm image changes when transmitters and receivers are exchanged: point %d: %r and %r', i, a[i], b[i])
    return das.label(c, m), n != k


CHECK = Check('C18', 'As C17, with two independent element grids of unequal size; every A-scan of the n_t x n_r data set has its own '
              'integers, so a wrong pair order, array or sample changes the image. Non-trivial as in C17 (swap: unequal array sizes).',
              das.TARGETS, subs(METHODS, 2400) + [Sub('swap', das.case(METHODS), swap, 500)])
