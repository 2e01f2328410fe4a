"""Apodization against the model, alone and with everything else; linearity in user weights."""
from hypothesis import strategies as st
from vf import sir
from vf.core import Check, Sub, fail
from .C01 import run, agree, RULE, more
from .C04 import get
import numpy as np


@st.composite
def linear(draw):
    c = draw(sir.case(sir.ARR, foc=True, steer=True, apod=True, minel=1, nobs=(1, 3)))
    c['w2'] = [draw(sir.fl(-2, 2)) for _ in c['G']]
    c['a'], c['b'] = draw(sir.fl(-3, 3)), draw(sir.fl(-3, 3))
    return c


def run_lin(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    c = dict(c, err='ignore', apod='ud')
    w1, w2 = np.array(c['ud']), np.array(c['w2'])
    h = get(c, ctx)
    g = get(dict(c, ud=c['w2']), ctx)
    m = dict(c, ud=list(c['a'] * w1 + c['b'] * w2))
    R = sir.refs(dict(c, ud=list(abs(c['a'] * w1) + abs(c['b'] * w2))))
    agree(c, get(m, ctx), c['a'] * h + c['b'] * g, R, 'weights a*w1+b*w2 and a*h1+b*h2')
    one = dict(c, ud=[1.0] * len(w1))
    agree(c, get(dict(c, apod='off'), ctx), get(one, ctx), sir.refs(one), 'apodization off and unit weights')
    return c['fn'], sir.nontrivial(R)


CHECK = Check('C07', RULE, {'main': sir.targets(sir.ARR)},
              [Sub(f[10:], sir.case([f], apod=True, minel=2), run, 1500) for f in sir.ARR] +
              [Sub('combined', sir.case(sir.ARR, foc=True, steer=True, apod=True, minel=1), run, 1000),
               Sub('linear', linear(), run_lin, 400)] + more(sir.ARR, apod=True, minel=2))
