"""Out-of-window contributions and the error levels."""
import numpy as np
from vf import sir
from vf.core import Check, Sub, fail, Skip


def expected(c, o, R):
    """Check the error output, the printed text and the reported error of one call."""
    oob, maybe = any(b.oob for b in R), any(b.oob_maybe for b in R)
    if o.mutated:
        fail('%s: input arguments %s modified', c['fn'], o.mutated)
    lev = c['err']
    if o.h is None:
        if 'bounds' not in (o.exc or '') + o.text:
            fail("%s: 'stop' reported %r / %r, which does not say that the response is out of bounds", c['fn'], o.exc, o.text)
        return
    if o.exc:
        fail('%s: both a response and an error (%s)', c['fn'], o.exc)
    if not maybe:
        if o.err not in (None, 0.0):
            fail("%s ('%s'): error output %s although every contribution is inside the window", c['fn'], lev, o.err)
        if o.text.strip():
            fail("%s ('%s'): printed %r although every contribution is inside the window", c['fn'], lev, o.text)
        if o.backend == 'oct' and o.err is None:
            fail('%s: no error output', c['fn'])
    elif oob:
        if o.backend == 'oct' and not o.err:
            fail("%s ('%s'): error output %s although a contribution is outside the window", c['fn'], lev, o.err)
        if lev == 'ignore' and o.text.strip():
            fail("%s ('ignore'): printed %r", c['fn'], o.text)
        if lev == 'warn' and not o.text.strip():
            fail("%s ('warn'): no warning printed although a contribution is outside the window", c['fn'])


def run(c, ctx):
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    o = sir.call(c, ctx, c['backend'])
    R = sir.compare(c, o)
    expected(c, o, R)
    oob, maybe = any(b.oob for b in R), any(b.oob_maybe for b in R)
    k = 'all' if all(b.nin == 0 for b in R) else 'some' if oob else 'maybe' if maybe else 'none'
    return '%s/%s/%s-outside' % (c['fn'], c['err'], k), True


def levels(c, ctx):
    """The three levels of one call: same response wherever one is returned; same verdict."""
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    R = sir.refs(c)
    if any(b.oob_maybe and not b.oob for b in R):
        raise Skip('undecided contribution')
    o = {}
    for l in ('ignore', 'warn', 'stop'):
        d = dict(c, err=l)
        o[l] = sir.call(d, ctx, c['backend'])
        expected(d, o[l], R)
    oob = any(b.oob for b in R)
    if o['ignore'].h is None or o['warn'].h is None:
        fail("%s: no response under 'ignore' or 'warn': %s %s", c['fn'], o['ignore'].exc, o['warn'].exc)
    if not np.array_equal(o['ignore'].h, o['warn'].h, equal_nan=True):
        fail("%s: 'ignore' and 'warn' give different responses", c['fn'])
    if oob != (o['stop'].h is None):
        fail("%s: 'stop' %s a response although %s contribution is outside", c['fn'], 'gives no' if o['stop'].h is None else 'gives', 'a' if oob else 'no')
    if not oob and not np.array_equal(o['stop'].h, o['ignore'].h, equal_nan=True):
        fail("%s: 'stop' and 'ignore' give different responses", c['fn'])
    # the default level is 'stop'
    return '%s/%s' % (c['fn'], 'outside' if oob else 'inside'), True


def threads(c, ctx):
    """One affected observation point anywhere among many, any thread count: same verdict."""
    if c.get('bad'):
        raise Skip('observation point on the aperture')
    R = sir.refs(c)
    for t in ('1', '2', '3', '8', None):
        d = dict(c, threads=t)
        o = sir.call(d, ctx, c['backend'])
        sir.compare(d, o, R)
        expected(d, o, R)
    return '%s/%s' % (c['fn'], 'outside' if any(b.oob for b in R) else 'inside'), True


def annu_shift(c, ctx):
    """A ring delay moves part of the response out of the window."""
    o = sir.call(c, ctx, 'oct')
    if o.h is None or o.err:
        return 'reported', True
    l = sir.call(dict(c, foc='off', focal=1.0), ctx, 'oct')
    if np.abs(o.h).sum() < 0.5 * np.abs(l.h).sum():
        fail('samples moved out of the window by the ring delay are dropped without an error output')
    return 'inside', True


from hypothesis import strategies as st


@st.composite
def one_bad(draw):
    """Many observation points of which exactly one gets a delay that puts it outside."""
    c = draw(sir.case(sir.SINGLE + sir.FOC + sir.ARR, nobs=(2, 20), cells=5, maxel=4, foc=True, steer=True, apod=True))
    n = len(c['ro'])
    d = list(c['delay']) if len(c['delay']) > 1 else c['delay'] * n
    k = draw(st.integers(0, n - 1))
    s = draw(st.sampled_from([-1, 1])) * c['nt'] * c['dt'] * draw(sir.fl(0.2, 3.0))
    d[k] = sir.rnd(d[k] + s)
    c['delay'] = d
    return c


@st.composite
def one_bad_element(draw):
    """One element of an array lies so far away that only its response is outside."""
    c = draw(sir.case(sir.ARR, nobs=(1, 4), cells=4, maxel=5, minel=2, span=(2, 40)))
    k = draw(st.integers(0, len(c['G']) - 1))
    far = 3.0 * c['nt'] * c['dt'] * c['cp'] * 1e-3 + 100.0
    c['G'][k] = [c['G'][k][0], c['G'][k][1], sir.rnd(far * draw(st.sampled_from([-1, 1])), 4)]
    return c


A = dict(foc=True, steer=True, apod=True)
CHECK = Check('C11', 'calls whose window holds all, a part or nothing of the responses, at each error level, of all SIR functions, with 1..16 threads; response, error output, printed text and reported error are compared with the model, the three levels with each other, and calls with exactly one offending point or element over all thread counts. Every case is non-trivial: each determines an outcome (inside, outside, boundary)', {'main': sir.targets()}, [
    Sub('single', sir.case(sir.SINGLE + sir.FOC, mode='partial', foc=True), run, 1600),
    Sub('array', sir.case(sir.ARR, mode='partial', **A), run, 800),
    Sub('annular', sir.annu_case(mode='partial'), run, 400),
    Sub('inside', sir.case(sir.ALL[:-1], **A), run, 600),
    Sub('levels', sir.case(sir.ALL[:-1], mode='partial', cells=5, **A), levels, 500),
    Sub('levels_inside', sir.case(sir.ALL[:-1], cells=5, **A), levels, 200),
    Sub('levels_annu', sir.annu_case(mode='partial', foc=False), levels, 150),
    Sub('attenuated', sir.case(sir.SINGLE + sir.FOC + sir.ARR, mode='partial', alpha=True, cells=4, maxel=3, span=(2, 30), nobs=(1, 4)), run, 500),
    Sub('one_point', one_bad(), threads, 400),
    Sub('one_element', one_bad_element(), threads, 300),
])
CHECK.extra = {'annu_shift': Sub('annu_shift', None, annu_shift, 0)}
