"""SAFT images against the delay-and-sum model."""
import numpy as np
from hypothesis import strategies as st
from vf import das
from vf.core import Check, Sub, Skip, fail

METHODS = ['saft']


def model(c, ctx):
    m = das.model(c)
    if m['oob'] != 'no':
        raise Skip('out of range')
    o = das.call(c, ctx)
    if o.exc:
        fail('das %s failed: %s %s', c['method'], o.exc, (o.text or '')[-200:])
    if o.err:
        fail('das %s: error flag %s although all samples are in range', c['method'], o.err)
    if 'out-of-bounds' in (o.text or '') or 'ut of bounds' in (o.text or ''):
        fail('das %s reports: %s', c['method'], o.text[-200:])
    das.compare(c, m, o.im)
    return das.label(c, m), das.nontrivial(c, m)


def im(c, ctx, Y=None):
    o = das.call(c, ctx, Y)
    if o.exc:
        fail('das %s failed: %s %s', c['method'], o.exc, (o.text or '')[-200:])
    return o.im


def linear(c, ctx):
    """image(a*Y1 + b*Y2) = a*image(Y1) + b*image(Y2), exactly, for integers and powers of two"""
    m = das.model(c)
    if m['oob'] != 'no':
        raise Skip('out of range')
    Y1 = das.data(dict(c, _np=das.npairs(c), extra=0))
    Y2 = das.data(dict(c, _np=das.npairs(c), extra=0, seed=c['seed'] + 1))
    c = dict(c, extra=0)
    a, b = 2.0, -0.5
    i1, i2, i3 = im(c, ctx, Y1), im(c, ctx, Y2), im(c, ctx, a * Y1 + b * Y2)
    if not np.array_equal(i3, a * i1 + b * i2):
        n = int(np.argmax(i3 != a * i1 + b * i2))
        fail('das %s is not linear in the data: point %d: %r != 2*%r - %r/2', c['method'], n, i3[n], i1[n], i2[n])
    return das.label(c, m)


def permute(c, ctx):
    """Reordering the elements and their A-scans leaves the image unchanged."""
    m = das.model(c)
    if m['oob'] != 'no':
        raise Skip('out of range')
    c = dict(c, extra=0)
    Y = das.data(dict(c, _np=das.npairs(c)))
    n = len(c['gt']) // 3
    r = np.random.default_rng(c['seed'])
    p = r.permutation(n)
    if c['method'] == 'saft':
        Y2 = Y[:, p]
        c2 = dict(c, gt=np.reshape(c['gt'], (-1, 3))[p].ravel().tolist())
    else:
        k = len(c['gr']) // 3
        p2 = r.permutation(k)
        Y2 = Y.reshape(c['nt'], n, k)[:, p][:, :, p2].reshape(c['nt'], n * k)
        c2 = dict(c, gt=np.reshape(c['gt'], (-1, 3))[p].ravel().tolist(), gr=np.reshape(c['gr'], (-1, 3))[p2].ravel().tolist())
    a, b = im(c, ctx, Y), im(c2, ctx, Y2)
    if not np.array_equal(a, b):
        i = int(np.argmax(a != b))
        fail('das %s depends on the order of the elements: point %d: %r and %r', c['method'], i, a[i], b[i])
    return das.label(c, m), n > 1


def subs(methods, n):
    return [Sub('model', das.case(methods), model, n), Sub('linear', das.case(methods), linear, n // 4), Sub('big', das.case(methods, big=True, vec=False), model, n // 12),
            Sub('big_vec', das.case(methods, maxo=40, big=True), model, n // 24),
            ] + ([Sub('permute', das.case(methods), permute, n // 4)] if 'saft' in methods or 'tfm' in methods else [])


def diagonal(c, ctx):
    """SAFT equals TFM on data whose transmit-receive pairs other than n,n are silent."""
    m = das.model(c)
    if m['oob'] != 'no':
        raise Skip('out of range')
    n = len(c['gt']) // 3
    c1 = dict(c, extra=0)
    Y = das.data(dict(c1, _np=n))
    c2 = dict(c1, method='tfm', gr=c1['gt'], err='ignore')
    Y2 = np.zeros((c['nt'], n * n))
    Y2[:, ::n + 1] = Y
    a, b = im(c1, ctx, Y), im(c2, ctx, Y2)
    m2 = das.model(c2, Y2)
    ok = ~(m['amb'] | m2['amb'])
    if not np.array_equal(a[ok], b[ok]):
        i = int(np.argmax((a != b) & ok))
        fail('saft and the diagonal of tfm differ at point %d: %r and %r', i, a[i], b[i])
    return das.label(c, m), bool(ok.any())


CHECK = Check('C17', 'Scenes (element positions random, on lines or grids; points around them), sampling, sound speed and a scalar or '
              'per-point delay are drawn and scaled so that every two-way time lies inside the A-scan; data are seeded non-zero integers, '
              'so a wrong sample changes the sum. A case is non-trivial if the A-scans have more than one sample and at least one image '
              'point has no sample within rounding distance of an index boundary (such points are compared with an interval).',
              das.TARGETS, subs(METHODS, 2400) + [Sub('diagonal', das.case(METHODS), diagonal, 500)])
