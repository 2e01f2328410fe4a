"""Attenuated responses against the NumPy absorption law."""
import numpy as np
from vf import sir
from vf.core import Check, Sub, fail, Skip
from . import C01


def run(c, ctx):
    lab, nt = C01.run(c, ctx)
    return lab + ('/even' if c['nt'] % 2 == 0 else '/odd'), nt


def dc(c, ctx):
    """The zero-frequency content is the lossless one."""
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    o = sir.call(c, ctx, c['backend'])
    l = sir.call(dict(c, alpha=0.0), ctx, c['backend'])
    if (o.h is None) != (l.h is None):
        fail('%s: the attenuated call %s and the lossless one %s', c['fn'], o.exc or 'succeeds', l.exc or 'succeeds')
    if o.h is None:
        return 'error', False
    if (o.err or 0) != (l.err or 0):
        fail('%s: error output %s with and %s without attenuation', c['fn'], o.err, l.err)
    a, b = o.h.sum(0), l.h.sum(0)
    s = np.abs(l.h).sum(0).max() + 1e-300
    # annular: rings are shifted whole samples and truncated, which keeps the sum only without a shift
    if not (np.abs(a - b) <= 1e-8 * max(s, np.abs(o.h).sum(0).max())).all():
        n = int(np.argmax(np.abs(a - b)))
        fail('%s: point %d: zero-frequency content %r, lossless %r', c['fn'], n, float(a[n]), float(b[n]))
    return c['fn'], s > 1e-200


K = dict(alpha=True, cells=5, span=(2, 40), nobs=(1, 3), maxel=4, foc=True, steer=True, apod=True)
CHECK = Check('C12', 'calls with absorption 0.05..20 dB/(cm MHz) compared sample by sample with the spectrum of the manual summed over all cells (even and odd window lengths), and the zero-frequency content with the lossless call. Non-trivial: at least two contributions in the window and none on a rounding tie (dc: a non-zero response)', {'main': sir.targets()},
              [Sub('single', sir.case(sir.SINGLE, **K), run, 900),
               Sub('focused', sir.case(sir.FOC, **K), run, 400),
               Sub('array', sir.case(sir.ARR, **K), run, 800),
               Sub('partial', sir.case(sir.SINGLE + sir.FOC + sir.ARR, mode='partial', **K), run, 400),
               Sub('annular', sir.annu_case(alpha=True), run, 300),
               Sub('dc', sir.case(sir.SINGLE + sir.FOC + sir.ARR, **K), dc, 500),
               Sub('dc_annu', sir.annu_case(alpha=True, foc=False), dc, 100),
               ])
