"""Array steering against the model, alone and with focusing and apodization; zero angles."""
from hypothesis import strategies as st
from vf import sir
from vf.core import Check, Sub, fail
from .C01 import run, agree, RULE, more
from .C04 import get


def run_zero(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    c = dict(c, err='ignore')
    if c['steer'] == 'off':
        c['steer'] = 'xy'
    off = dict(c, steer='off')
    R = sir.refs(off)
    h = get(off, ctx)
    z = dict(c, theta=0.0 if 'x' in c['steer'] else c['theta'], phi=0.0 if 'y' in c['steer'] else c['phi'])
    agree(c, get(z, ctx), h, R, 'steering %s by zero degrees and no steering' % c['steer'])
    if c['steer'] == 'xy':
        for a, k in (('x', 'phi'), ('y', 'theta')):
            one = dict(c, steer=a)
            R = sir.refs(one)
            agree(c, get(dict(c, **{k: 0.0}), ctx), get(one, ctx), R, 'steering xy with one zero angle and steering ' + a)
    return c['fn'] + '/' + c['steer'], sir.nontrivial(R)


CHECK = Check('C06', RULE, {'main': sir.targets(sir.ARR)},
              [Sub(f[10:], sir.case([f], steer=True, minel=2), run, 1200) for f in sir.ARR] +
              [Sub('combined', sir.case(sir.ARR, foc=True, steer=True, apod=True, minel=2), run, 1200),
               Sub('zero', sir.case(sir.ARR, foc=True, steer=True, minel=2, nobs=(1, 3)), run_zero, 400)] + more(sir.ARR, steer=True, minel=2))
