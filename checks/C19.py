"""Row-column images against the model with the nearest point of each stripe."""
import numpy as np
from vf import das
from vf.core import Check, Sub, Skip, fail
from checks.C17 import subs, im

METHODS = ['rca', 'rca_coltx', 'rca_rowtx']


def directions(c, ctx):
    """Transmitting with rows on the reordered data gives the image of transmitting with columns."""
    m = das.model(c)
    if m['oob'] != 'no':
        raise Skip('out of range')
    c = dict(c, extra=0)
    n, k = len(c['gt']) // 3, len(c['gr']) // 3
    c1, c2 = dict(c, method='rca_coltx'), dict(c, method='rca_rowtx')
    Y = das.data(dict(c, _np=n * k))
    Y2 = Y.reshape(c['nt'], n, k).transpose(0, 2, 1).reshape(c['nt'], n * k)
    a, b = im(c1, ctx, Y), im(c2, ctx, Y2)
    m = das.model(c1, Y)
    ok = ~m['amb']
    if not np.array_equal(a[ok], b[ok]):
        i = int(np.argmax((a != b) & ok))
        fail('rca_coltx and rca_rowtx on the same data differ at point %d: %r and %r', i, a[i], b[i])
    return das.label(c, m), n != k


CHECK = Check('C19', 'As C17, with columns at ascending x and rows at ascending y, in unequal numbers from one up, the other coordinates '
              'arbitrary, and points above, beside and beyond the corners of the array. Non-trivial as in C17 (directions: unequal '
              'numbers of rows and columns).',
              das.TARGETS, subs(METHODS, 3000) + [Sub('directions', das.case(METHODS), directions, 500)])
