"""fftconv_ola against NumPy convolution for every block length."""
from hypothesis import strategies as st
from vf import conv
from vf.core import Check, Sub, fail


@st.composite
def case(draw, src=conv.case(hi=300)):
    c = draw(src)
    m = c['m']
    k = draw(st.integers(0, 5))
    div = [d for d in range(1, m + 1) if m % d == 0]
    c['len'] = draw(st.sampled_from(div)) if k < 2 else min(m, c['k']) if k == 2 else draw(st.integers(1, m))
    c['wis'] = draw(st.sampled_from(['no', 'no', 'no', 'ask', 'use']))
    return c


def run(c, ctx):
    A, B = conv.mats(c)
    Y, S = conv.ref(A, B)
    env = {'DREAM_NUM_THREADS': c['threads']}
    args, nout = [A, B, float(c['len'])], 1
    if c['wis'] == 'use':
        w = ctx.oct().call('fftconv_ola', args, 2, env)
        if w.exc or len(w.out) != 2:
            fail('fftconv_ola did not return wisdom: %s', w.exc)
        args.append(w.out[1])
    elif c['wis'] == 'ask':
        nout = 2
    o = ctx.oct().call('fftconv_ola', args, nout, env)
    if o.exc or len(o.out) != nout:
        fail('fftconv_ola (block length %d, wisdom: %s) failed: %s', c['len'], c['wis'], o.exc)
    if o.mutated:
        fail('fftconv_ola modified its arguments %s', o.mutated)
    # every output sample is a sum over blocks, each with its own rounding error
    conv.compare('fftconv_ola, block length %d of %d' % (c['len'], c['m']), o.out[0], Y, 3 * S)
    nb = -(-c['m'] // c['len'])
    return conv.label(c, '/%s/%s' % ('blocks' if nb > 1 else 'one', 'even' if c['m'] % c['len'] == 0 else 'rest')), conv.nontrivial(c) and nb > 1


CHECK = Check('C24', 'Matrices as in C22 and a block length drawn among the divisors of the length, its neighbours, the length of B and all others; with and '
              'without wisdom. Non-trivial: more than one block and more than one row in both.', {'main': ['oct_fftconv_ola']}, [Sub('model', case(), run, 3400), Sub('big', case(conv.big()), run, 150)])
