"""Array focusing against the model; user delays that equal a method's; swapped axes."""
from hypothesis import strategies as st
from vf import ref, sir
from vf.core import Check, Sub, fail
from .C01 import run, agree, RULE, more
from .C04 import get
import numpy as np


def run_ud(c, ctx):
    """the documented delays given as user delays give the same response as the method"""
    if c.get('bad') or c['foc'] in ('ud', 'off'):
        raise sir.Skip('no method')
    c = dict(c, err='ignore')
    d = [e[1] for e in sir.elements(dict(c, steer='off'))]
    h = get(c, ctx)
    R = sir.refs(c)
    agree(c, get(dict(c, foc='ud', focal=d), ctx), h, R, 'user delays equal to those of method %s and the method' % c['foc'])
    return c['fn'] + '/' + c['foc'], sir.nontrivial(R)


def run_swap(c, ctx):
    """exchanging x and y of everything exchanges methods x and y"""
    if c.get('bad') or c['foc'] == 'ud':
        raise sir.Skip('no method')
    sw = lambda P: [[p[1], p[0], p[2]] for p in P]
    t = {'x': 'y', 'y': 'x'}
    c = dict(c, err='ignore')
    g = c['geom'][::-1] if c['fn'] == 'dream_arr_rect' else c['geom']
    d = dict(c, G=sw(c['G']), ro=sw(c['ro']), geom=g, dx=c['dy'], dy=c['dx'], foc=t.get(c['foc'], c['foc']))
    if c['fn'] == 'dream_arr_circ':          # the rows of cells run along x
        R = sir.refs(d)
        o = sir.call(d, ctx, d['backend'])
        sir.compare(d, o, R)
    else:
        R = sir.refs(c)
        agree(c, get(d, ctx), get(c, ctx), R, 'exchanged axes and the original')
    return c['fn'] + '/' + c['foc'], sir.nontrivial(R)


CHECK = Check('C05', RULE, {'main': sir.targets(sir.ARR)},
              [Sub(f[10:], sir.case([f], foc=True, minel=2), run, 1500) for f in sir.ARR] +
              [Sub('ud', sir.case(sir.ARR, foc=True, steer=True, apod=True, minel=2, nobs=(1, 3)), run_ud, 500),
               Sub('swap', sir.case(['dream_arr_rect', 'dream_arr_circ'], foc=True, minel=2, nobs=(1, 3)), run_swap, 400)] + more(sir.ARR, foc=True, minel=2))
