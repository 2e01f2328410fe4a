"""fftconv_p (Octave and Python) against NumPy convolution, with wisdom in every role."""
import numpy as np
from hypothesis import strategies as st
from vf import conv
from vf.core import Check, Sub, fail
from vf.sir import F


@st.composite
def octcase(draw, src=conv.case(hi=300)):
    c = draw(src)
    c['wis'] = draw(st.sampled_from(['no', 'no', 'no', 'ask', 'use', 'other']))
    return c


@st.composite
def pycase(draw, src=conv.case(hi=300)):
    c = draw(src)
    c['flat'] = draw(st.integers(0, 3))      # bit 0: B one-dimensional when a vector; bit 1: A too when one column
    c['order'] = draw(st.sampled_from(['F', 'C']))
    return c


def octave(c, ctx):
    A, B = conv.mats(c)
    Y, S = conv.ref(A, B)
    env = {'DREAM_NUM_THREADS': c['threads']}
    args, nout = [A, B], 1
    if c['wis'] in ('use', 'other'):
        q = [A[:, :1], B] if c['wis'] == 'use' and 1 in B.shape else [np.ones((c['m'] + 3, 1)), np.ones((c['k'], 1))]
        w = ctx.oct().call('fftconv_p', q, 2, env)
        if w.exc or len(w.out) != 2 or not isinstance(w.out[1], str):
            fail('fftconv_p did not return wisdom: %s', w.exc)
        args.append(w.out[1])
        if c['seed'] % 2:
            nout = 2
    elif c['wis'] == 'ask':
        nout = 2
    o = ctx.oct().call('fftconv_p', args, nout, env)
    if o.exc or len(o.out) != nout:
        fail('fftconv_p (wisdom: %s) failed: %s', c['wis'], o.exc)
    if o.mutated:
        fail('fftconv_p modified its arguments %s', o.mutated)
    conv.compare('fftconv_p (wisdom: %s)' % c['wis'], o.out[0], Y, S)
    if nout == 2 and not (isinstance(o.out[1], str) and 'fftw_wisdom' in o.out[1]):
        fail('fftconv_p returned %r as wisdom', str(o.out[1])[:80])
    return conv.label(c, '/' + c['wis']), conv.nontrivial(c)


def python(c, ctx):
    A, B = conv.mats(c)
    Y, S = conv.ref(A, B)
    A, B = np.array(A, order=c['order']), np.array(B, order=c['order'])
    if c['flat'] & 1 and 1 in B.shape:
        B = B.ravel()
    if c['flat'] & 2 and c['n'] == 1:
        A = A.ravel()
    o = ctx.py().call('fftconv_p', 'fftconv_p', [A, B], {'DREAM_NUM_THREADS': c['threads']})
    if o.exc:
        fail('fftconv_p failed: %s %s', o.exc, o.msg)
    if o.mutated:
        fail('fftconv_p modified its arguments %s', o.mutated)
    conv.compare('fftconv_p (Python, %s, %s)' % (A.shape, B.shape), o.out, Y, S)
    return conv.label(c, '/py'), conv.nontrivial(c)


CHECK = Check('C23', 'Matrices as in C22 (transform lengths up to 600, primes included), without wisdom, asking for it, or supplying the wisdom of the same '
              'or of another length; in Python also one-dimensional and row-major arrays. Results within 1e-12 of the product of the column '
              'norms. Non-trivial: both have more than one row.',
              {'main': ['oct_fftconv_p', 'py_fftconv_p']}, [Sub('octave', octcase(), octave, 2400), Sub('python', pycase(), python, 900),
               Sub('big', octcase(conv.big()), octave, 150), Sub('big_py', pycase(conv.big()), python, 80)])
