"""Curved apertures against the discrete-representation sum, and their flat limit."""
from hypothesis import strategies as st
from vf import ref, sir
from vf.core import Check, Sub, fail
from .C01 import run, RULE, more

FNS = ['dreamsphere', 'dreamcylind']
FLAT = {'dreamsphere': 'dreamcirc', 'dreamcylind': 'dreamrect'}


@st.composite
def flat(draw):
    c = draw(sir.case([draw(st.sampled_from(list(FLAT.values())))], nobs=(1, 3), big=False, span=(2, 40)))
    size = c['geom'][-1]
    c['rc'] = sir.rnd(size * draw(sir.fl(2e5, 2e6))) * draw(st.sampled_from([1, -1]))
    return c


def run_flat(c, ctx):
    if c.get('bad'):
        raise sir.Skip('observation point on the aperture')
    fn = 'dreamsphere' if c['fn'] == 'dreamcirc' else 'dreamcylind'
    o = sir.call(dict(c, fn=fn, geom=c['geom'] + [c['rc']], err='ignore'), ctx, c['backend'])
    sag = max(c['geom']) ** 2 / abs(c['rc'])
    old = ref.TIE
    ref.TIE = 2 * sag * 1e3 / c['cp'] / c['dt'] + 1e-7
    try:
        R = sir.refs(c)
    finally:
        ref.TIE = old
    if o.h is None:
        fail('%s returned no response: %s', fn, o.exc)
    for n, b in enumerate(R):
        m = b.compare(o.h[:, n], 1e-4)
        if m:
            fail('%s with radius of curvature %g, observation point %d, is not the flat response: %s', fn, c['rc'], n, m)
    return fn, sir.nontrivial(R)


CHECK = Check('C02', RULE, {'main': sir.targets(FNS)}, [Sub(f[5:], sir.case([f]), run, 2400) for f in FNS] +
              [Sub('flat', flat(), run_flat, 1000)] + more(FNS))
