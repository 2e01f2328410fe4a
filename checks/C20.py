"""Delay-and-sum with samples beyond the A-scans: error levels, per-point delays, thread counts."""
import numpy as np
from hypothesis import strategies as st
from vf import das
from vf.core import Check, Sub, Skip, fail

E = 'out-of-bounds'


def judge(c, m, o):
    oob, t = m['oob'], o.text or ''
    if c['err'] == 'stop':
        if oob == 'yes' and not o.exc:
            fail("das %s (%s): 'stop' did not fail although a sample is out of range (positions %s of %d)", c['method'], c['lang'],
                 np.round(m['q'][m['sure']][:4], 2).tolist(), c['nt'])
        if oob == 'no' and o.exc:
            fail("das %s (%s): 'stop' fails although every sample is in range: %s", c['method'], c['lang'], o.exc)
        if o.exc:
            if E not in o.exc:
                fail("das %s (%s): 'stop' raised %r", c['method'], c['lang'], o.exc)
            return
    elif o.exc:
        fail("das %s (%s): %r failed: %s", c['method'], c['lang'], c['err'], o.exc)
    want = {'ignore': 1.0, 'warn': 2.0}.get(c['err'], 0.0)
    if oob == 'yes' and c['err'] == 'warn' and E not in t:
        fail("das %s (%s): 'warn' printed nothing about the samples out of range: %r", c['method'], c['lang'], t[-200:])
    if (oob == 'no' or c['err'] == 'ignore') and E in t:
        fail("das %s (%s): %r printed %r", c['method'], c['lang'], c['err'], t[-200:])
    if o.err is not None and oob != 'maybe' and o.err != (want if oob == 'yes' else 0.0):
        fail("das %s (%s): error flag %g with %r, out of range: %s", c['method'], c['lang'], o.err, c['err'], oob)
    das.compare(c, m, o.im)


def levels(c, ctx):
    m = das.model(c)
    judge(c, m, das.call(c, ctx))
    k = int(m['sure'].sum())
    return '%s/%s/%s' % (c['err'], m['oob'], c['lang']), m['oob'] == 'yes' and (k < m['sure'].size or c['err'] != 'ignore')


@st.composite
def single(draw):
    """in range but for one point and element"""
    c = draw(das.case())
    q, tol = das.times(c)
    c['err'] = draw(st.sampled_from(['stop', 'stop', 'warn', 'ignore']))
    n = draw(st.integers(0, len(c['ro']) // 3 - 1))
    d = c['delay'] if len(c['delay']) > 1 else c['delay'] * (len(c['ro']) // 3)
    d = list(d)
    s = q[n]
    # shift the point's delay until its largest (smallest) position just leaves the A-scan
    if draw(st.booleans()):
        sh = c['nt'] - s.max() + draw(st.sampled_from([0.01, 0.5, 1.0, 3.0]))
    else:
        sh = -s.min() - 1.0 - draw(st.sampled_from([0.01, 0.5, 3.0]))
    d[n] = d[n] + sh * c['dt']
    c['delay'] = [float(x) for x in d]
    return c


def constant(c, ctx):
    """A constant delay vector is the scalar."""
    m = das.model(c)
    no = len(c['ro']) // 3
    if c['err'] == 'stop':
        c = dict(c, err='ignore')
    a = das.call(c, ctx)
    b = das.call(dict(c, delay=c['delay'] * no), ctx)
    if a.exc or b.exc:
        fail('das failed: %s / %s', a.exc, b.exc)
    if not np.array_equal(a.im, b.im) or a.err != b.err:
        n = int(np.argmax(a.im != b.im))
        fail('das %s: a constant delay vector and the scalar differ at point %d: %r, %r (flags %s, %s)', c['method'], n, b.im[n], a.im[n],
             b.err, a.err)
    return das.label(c, m), no > 1


def threads(c, ctx):
    """The outcome is the same for every number of threads."""
    outs = []
    m = das.model(c)
    for t in ('1', '2', '3', '8', None):
        o = das.call(dict(c, threads=t), ctx)
        outs.append((t, o))
    a = outs[0][1]
    for t, o in outs[1:]:
        if (o.exc is None) != (a.exc is None):
            fail('das %s (%s): outcome with 1 thread %s, with %s threads %s', c['method'], c['lang'], a.exc or 'image', t, o.exc or 'image')
        if o.exc is None and (not np.array_equal(o.im, a.im) or o.err != a.err):
            fail('das %s (%s): image or flag differs between 1 and %s threads (flags %s, %s; max %g)', c['method'], c['lang'], t, a.err,
                 o.err, np.abs(o.im - a.im).max())
    return '%s/%s/%s' % (c['method'], c['err'], m['oob']), len(c['ro']) > 3


CHECK = Check('C20', 'Scenes as in C17-C19, but the delays and travel times reach beyond both ends of the A-scan (levels), or exactly one '
              'point is pushed just outside (single); all error levels, thread counts 1 to 32, both precisions and languages. '
              'Non-trivial: some but not necessarily all samples certainly out of range; more than one point for constant and threads.',
              das.TARGETS, [Sub('levels', das.case(range_='out'), levels, 2400), Sub('single', single(), levels, 1200),
                            Sub('big', das.case(range_='out', big=True), levels, 150),
                            Sub('constant', das.case(range_='out', vec=False), constant, 500),
                            Sub('threads', das.case(range_='out'), threads, 300)])
