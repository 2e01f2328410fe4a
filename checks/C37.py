"""SIGINT is sent to the process at a generated time during a long call."""
import time
import numpy as np
from hypothesis import strategies as st
from vf import anycall, das, sir, workers
from vf.core import Check, Skip, Sub, fail

GOAL = 4.0                      # s, the length of an uninterrupted call
POINT = 0.04                    # s, the longest computation of one observation point


@st.composite
def case(draw, lang):
    fam = draw(st.sampled_from(['sir'] * 6 + ['annu'] + (['das'] * 2 if lang == 'py' else [])))
    if fam == 'sir':
        c = draw(sir.case(sir.ALL[:-1], nobs=(1, 3), cells=draw(st.sampled_from([8, 40])), foc=True, steer=True, apod=True, alpha=draw(st.integers(0, 2)) == 0, err='ignore', big=False, span=(2, 16)))
    elif fam == 'annu':
        c = dict(draw(sir.annu_case(nobs=(1, 3))), err='ignore')
    else:
        c = dict(draw(das.case(range_='out', langs=('py',))), err='ignore')
    if 'backend' in c:
        c['backend'] = lang
    c['threads'] = draw(st.sampled_from(['1', '2', '3', '8']))
    return dict(s=dict(f=fam, c=c, lang=lang), at=draw(sir.fl(0.02, 0.8)))


def spawn(c, ctx, tile, delay):
    mod, fn, args, nout, env = anycall.call_of(c['s'])
    if c['s']['lang'] == 'py':
        return ctx.py(key='intr').interrupt(mod, fn, args, env, tile, delay)
    a = np.empty((1, len(args)), dtype=object)
    for j, x in enumerate(args):
        a[0, j] = x.reshape(-1, 1) if isinstance(x, np.ndarray) and x.ndim == 1 else x
    o = ctx.oct(key='intr').call('vf_intr', [fn, a, np.array([[float(i + 1), float(k)] for i, k in tile]), -1.0 if delay is None else delay], 3, env)
    if o.exc:
        fail('vf_intr: %s', o.exc)
    return workers.Reply(done=bool(o.out[0].ravel()[0]), t=float(o.out[1].ravel()[0]), exc=str(o.out[2]) if np.size(o.out[2]) else '', own=True, text=o.text)


def run(c, ctx):
    s = c['s']
    w = ctx.py(key='intr') if s['lang'] == 'py' else ctx.oct(key='intr')
    before = anycall.call(s, ctx, w=w)
    mod, fn, args, nout, env = anycall.call_of(s)
    iro = 3 if s['f'] == 'das' else 0
    n = args[iro].shape[0]
    idl = {'das': 5, 'annu': 3}.get(s['f'], next(i for i, x in enumerate(args) if i > 1 and isinstance(x, np.ndarray) and x.shape[1] == 1) if s['f'] == 'sir' else 0)
    multi = args[idl].size > 1

    def tile(k):
        return [(iro, k)] + ([(idl, k)] if multi else [])
    k = max(1, 64 // n)
    while True:                                    # how many points take GOAL seconds
        r = spawn(c, ctx, tile(k), None)
        if not r.done:
            fail('%s: the call failed: %s', name(s), r.exc)
        if r.t > 0.3 or k * n > 2e5:
            break
        k *= 4
    thr = min(int(s['c']['threads']), n * k)
    if r.t / (n * k) * thr > POINT:
        raise Skip('one point takes too long')
    nt = 1 if s['f'] == 'das' else int(s['c']['nt'])
    full = min(max(k, int(k * GOAL / r.t)), int(6e7 / nt / n))
    est = r.t * full / k
    if est < 1.5:
        raise Skip('the call is too short')
    at = c['at']
    for retry in range(3):
        t0 = time.time()
        try:
            t = spawn(c, ctx, tile(full), at)
        except workers.Hang:
            raise
        except workers.Crash as e:
            if s['lang'] != 'oct' or '(exit status 1)' not in str(e):
                raise
            if time.time() - t0 > at + 2.0 + 0.8 * est:
                fail('%s: SIGINT after %.2f s did not stop the call, only Octave itself after %.2f s', name(s), at, time.time() - t0)
            raise Skip('SIGINT reached Octave before or after the call')
        if t.done and t.t < at + 0.2:
            raise Skip('the call was faster than estimated')
        if not t.done:
            break                                  # else the signal may have come before the call had started
    if t.own is False:
        fail('%s: after the call the process no longer reacts to SIGINT itself', name(s))
    if t.done:
        fail('%s: SIGINT after %.2f s was ignored, the call computed for %.2f s', name(s), at, t.t)
    if not t.kbd and 'CTRL-C' not in (t.exc or '') + (t.text or ''):
        fail('%s: the error of an interrupted call is %r', name(s), t.exc)
    if not t.kbd and t.t > at + 1.0 + 0.6 * est:
        fail('%s: SIGINT after %.2f s stopped the call only after %.2f s (uninterrupted it takes about %.1f s)', name(s), at, t.t, est)
    after = anycall.call(s, ctx, w=w)
    d = anycall.same(s, before, after)
    if d:
        fail('%s: the call after an interrupted one differs: %s', name(s), d)
    return '%s/%s/%d threads%s' % (s['lang'], name(s), thr, '/early' if t.kbd else ''), not t.kbd


@st.composite
def hcase(draw):
    return dict(ops=[draw(anycall.spec(('py',), small=True)) for _ in range(draw(st.integers(1, 3)))])


def run_own(c, ctx):
    """any history of calls leaves the interpreter's own interrupt handling as it was"""
    w = ctx.py(key='own')
    for s in c['ops']:
        mod, fn, args, nout, env = anycall.call_of(s)
        t = w.interrupt(mod, fn, args, env, [], None)
        if not t.own:
            fail('%s: after the call the interpreter no longer raises KeyboardInterrupt on SIGINT', name(s))
    return 'own/' + '+'.join(sorted(set(name(s) for s in c['ops']))), True


def name(s):
    return anycall.name(s)


CHECK = Check('C37', 'Calls of the SIR functions of both languages and das in Python whose observation points are repeated until a call takes about 4 s get SIGINT 20 to 800 ms after their '
              'start, on 1..8 threads; the call must end early with an error and without a result, and the next call must give the bits of the call before. Second part: after any '
              'history of calls SIGINT still raises KeyboardInterrupt in Python. Non-trivial: the interrupt arrived while the toolbox computed.', {'main': anycall.targets()},
              [Sub('python', case('py'), run, 150, 1000), Sub('octave', case('oct'), run, 80, 700), Sub('own', hcase(), run_own, 300, 1500)], shards=3)
