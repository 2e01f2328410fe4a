"""The same generated call through the Python and the Octave bindings."""
import numpy as np
from hypothesis import strategies as st
from vf import anycall, conv, sir, das
from vf.core import Check, Sub, fail
from checks import C30

ORDER = ['f', 'c', 'strided', 'reversed']
TURN = ['row', 'col', 'flat']
OCT_TURN = ['row', 'col']


@st.composite
def case(draw):
    s = draw(anycall.spec(('py',), small=False))
    s['c'].pop('verbose', None)
    if s['f'] == 'conv':
        s['c']['mode'] = None
    return dict(s=s, order=draw(st.sampled_from(ORDER)), turn=draw(st.sampled_from(TURN)), oturn=draw(st.sampled_from(OCT_TURN)), q=draw(st.integers(0, 2 ** 16)))


def vectors(s):
    """indices of arguments that are parameter vectors"""
    f, fn = s['f'], s['c'].get('fn')
    if f == 'annu':
        return [1, 2, 3, 4, 6, 8]
    if f == 'sir':
        return ([1, 2, 3, 4] + ([6] if fn in sir.FOC else []) if fn not in sir.ARR else [1, 3, 4, 5, 7, 9, 11])
    if f == 'das':
        return [5]
    return []


def lay(x, how, dtype=None):
    """the same array in another memory layout"""
    if how == 'f':
        return np.asfortranarray(x)
    if how == 'c':
        return np.ascontiguousarray(x)
    if how == 'strided':
        b = np.zeros([2 * k for k in x.shape], x.dtype)
        v = b[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    b = np.ascontiguousarray(x[::-1])
    return b[::-1]


def turned(a, idx, how, q, oct_=False):
    a = list(a)
    for j in idx:
        if isinstance(a[j], np.ndarray) and q >> j & 1:
            v = np.ravel(a[j], order='F')
            a[j] = v.reshape(1, -1) if how == 'row' else v.reshape(-1, 1) if how == 'col' or oct_ else v
    return a


def run(c, ctx):
    s = c['s']
    mod, fn, args, nout, env = anycall.call_of(s)
    idx = vectors(s)
    pa = turned(args, idx, c['turn'], c['q'])
    pa = [lay(x, c['order']) if isinstance(x, np.ndarray) and c['q'] >> (j + 3) & 1 else x for j, x in enumerate(pa)]
    what = '%s, arrays %s, vectors %s / %s' % (fn, c['order'], c['turn'], c['oturn'])
    r = ctx.py().call(mod, fn, pa, env)
    p = anycall.outcome_py(r)
    so = dict(s, lang='oct', c=dict(s['c'], lang='oct', nout=1))
    _, ofn, oa, _, oenv = anycall.call_of(so)
    oa = turned(oa, idx, c['oturn'], c['q'], True)
    ro = ctx.oct().call(ofn, oa, 1, oenv)
    o = anycall.Outcome([x for x in (ro.out or []) if not isinstance(x, str)], ro.exc or '', ro.text)
    if p.mutated or ro.mutated:
        fail('%s: arguments were modified: %s / %s', what, p.mutated, ro.mutated)
    if bool(p.exc) != bool(o.exc):
        fail('%s: Python %s, Octave %s', what, p.exc or 'succeeded', o.exc or 'succeeded')
    if s['f'] == 'conv' and not p.exc:      # 1-D results of vectors
        p.arrays = [np.asarray(x).reshape(np.asarray(y).shape) for x, y in zip(p.arrays[:1], o.arrays)]
    if s['f'] == 'das' and not p.exc:
        p.arrays = [np.asarray(x).reshape(np.asarray(y).shape, order='F') for x, y in zip(p.arrays[:1], o.arrays)]
    d = anycall.same(s, anycall.Outcome(p.arrays[:1], p.exc, p.text), anycall.Outcome(o.arrays[:1], o.exc, o.text))
    if d:
        fail('%s: Python / Octave: %s', what, d)
    warn = lambda t: bool(t.strip())
    if s['f'] != 'conv' and not p.exc and warn(p.text) != warn(o.text):
        fail('%s: Python printed %r, Octave %r', what, p.text[:200], o.text[:200])
    nz = any(np.any(x) for x in p.arrays)
    return '%s/%s/%s%s' % (anycall.name(s), c['order'], c['turn'], '/error' if p.exc else ''), nz or bool(p.exc)


@st.composite
def bad(draw):
    c = draw(C30.case('py'))
    while c['s']['f'] not in ('sir', 'annu', 'das') or c['mut'][1] in ('drop', 'extra', 'string') or tuple(c['mut']) not in C30.muts(dict(c['s'], lang='oct')):
        c = draw(C30.case('py'))
    return c


def run_bad(c, ctx):
    s = c['s']
    mod, fn, args, nout, env = C30.mutate(s, c['mut'], c['q'])
    p = anycall.outcome_py(ctx.py().call(mod, fn, args, env))
    _, fn, args, _, _ = C30.mutate(dict(s, lang='oct', c=dict(s['c'], lang='oct')), c['mut'], c['q'])
    r = ctx.oct().call(fn, args, 1, env)
    if bool(p.exc) != bool(r.exc):
        fail('%s with %s: Python %s, Octave %s', fn, C30.name_of(s, c['mut']), p.exc or 'accepts it', r.exc or 'accepts it')
    return '%s/%s' % (anycall.name(s), C30.name_of(s, c['mut'])), True


CHECK = Check('C33', 'Calls of every function both languages have (eleven SIR functions, delay-and-sum in double and single precision, fftconv_p), with all options, error levels and '
              'thread counts. In Python the arrays come column-major, row-major, strided or reversed in memory and the parameter vectors as rows, columns or one-dimensional; '
              'in Octave as rows or columns. Values must agree bit by bit (FFT results within 1e-12), as must success and warnings. A second part sends the same malformed '
              'call to both. Non-trivial: a response with a non-zero sample, or an error.', {'main': sir.targets() + ['py_das', 'py_das_f', 'oct_das', 'py_fftconv_p', 'oct_fftconv_p']},
              [Sub('calls', case(), run, 3000), Sub('malformed', bad(), run_bad, 1000)])
