"""The annular array against the model, its single disc against dreamcirc, linearity in the weights."""
from hypothesis import strategies as st
from vf import sir
from vf.core import Check, Sub, fail
from .C01 import run, agree, RULE
from .C04 import get
import numpy as np


def run_disc(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    d = dict(c, fn=sir.ANNU, G=[c['geom'][0]], foc='off', focal=1.0, apod='off', win=1.0, ud=[1.0])
    a, b = sir.call(d, ctx, c['backend']), sir.call(c, ctx, c['backend'])
    R = sir.refs(c)
    if (a.h is None) != (b.h is None):
        fail('one disc: %s, dreamcirc: %s', a.exc or 'computed', b.exc or 'computed')
    if a.h is not None:
        agree(c, a.h, b.h, R, 'the annular array of one disc and dreamcirc')
    return 'disc', sir.nontrivial(R)


def run_lin(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    c = dict(c, err='ignore', apod='ud')
    w = np.array(c['ud'])
    n = len(w)
    R = sir.refs(dict(c, ud=[1.0] * n))
    s = 0
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        s = s + w[k] * get(dict(c, ud=list(e)), ctx)
    R = sir.refs(dict(c, ud=list(np.abs(w) + 1e-3)))
    agree(c, s, get(c, ctx), R, 'the weighted sum of the rings and the array')
    return 'linear', sir.nontrivial(R)


CHECK = Check('C08', RULE, {'main': sir.targets([sir.ANNU, 'dreamcirc'])}, [
  Sub('plain', sir.annu_case(foc=False, apod=False), run, 1200),
  Sub('foc', sir.annu_case(apod=False), run, 1500),
  Sub('apod', sir.annu_case(foc=False), run, 1200),
  Sub('both', sir.annu_case(), run, 1500),
  Sub('disc', sir.case(['dreamcirc'], nobs=(1, 3)), run_disc, 300),
  Sub('linear', sir.annu_case(nobs=(1, 2)), run_lin, 300),
  Sub('att', sir.annu_case(nobs=(1, 3), alpha=True), run, 400),
  Sub('partial', sir.annu_case(mode='partial'), run, 400),
  ])
