"""Arrays with everything off: the model, single elements moved to the grid points,
permuted grids and split grids."""
import numpy as np
from hypothesis import strategies as st
from vf import sir
from vf.core import Check, Sub, fail
from .C01 import run, agree, RULE, more

ONE = {'dream_arr_rect': 'dreamrect', 'dream_arr_circ': 'dreamcirc', 'dream_arr_cylind': 'dreamcylind'}


@st.composite
def related(draw):
    c = draw(sir.case(sir.ARR, nobs=(1, 3), minel=2, err='ignore', mode=draw(st.sampled_from(['full', 'full', 'partial']))))
    c['perm'] = draw(st.permutations(range(len(c['G']))))
    c['cut'] = draw(st.integers(1, len(c['G']) - 1))
    return c


def get(c, ctx):
    o = sir.call(c, ctx, c['backend'])
    if o.h is None:
        fail('%s returned no response: %s', c['fn'], o.exc)
    return o.h


def run_rel(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    h, G = get(c, ctx), c['G']
    R = sir.refs(c)
    agree(c, get(dict(c, G=[G[i] for i in c['perm']]), ctx), h, R, 'permuted and original grid')
    k = c['cut']
    agree(c, get(dict(c, G=G[:k]), ctx) + get(dict(c, G=G[k:]), ctx), h, R, 'the sum over a split grid and the whole')
    s = 0
    for g in G[:12]:
        s = s + get(dict(c, fn=ONE[c['fn']], ro=[[float(a - b) for a, b in zip(p, g)] for p in c['ro']]), ctx)
    if len(G) <= 12:
        agree(c, s, h, R, 'the sum of the moved single elements and the array')
    return c['fn'], sir.nontrivial(R)


CHECK = Check('C04', RULE, {'main': sir.targets(sir.ARR + list(ONE.values()))},
              [Sub(f[10:], sir.case([f]), run, 1500) for f in sir.ARR] + [Sub('relations', related(), run_rel, 400)] + more(sir.ARR))
