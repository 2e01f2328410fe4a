"""Histories of in-place convolutions on one output matrix against a NumPy matrix."""
import numpy as np
from hypothesis import strategies as st
from vf import conv, sir
from vf.core import Check, Sub, fail
from vf.sir import F

MODES = [None, '=', '+=', '-=']
KINDS = ['int', 'real', 'spike', 'wide']


@st.composite
def op(draw, M, n):
    """one call that fits an output of M rows and n columns, or one that must be refused"""
    fn = draw(st.sampled_from(['conv_p', 'fftconv_p', 'fftconv_ola']))
    k = draw(st.integers(1, M))
    o = dict(fn=fn, k=k, m=M - k + 1, b=draw(st.sampled_from(['mat', 'col', 'row'])), mode=draw(st.sampled_from(MODES)),
             kind=draw(st.sampled_from(KINDS)), seed=draw(st.integers(0, 10 ** 6)), thr=draw(st.sampled_from(sir.THREADS)),
             wis=draw(st.sampled_from([0, 0, 1])) if fn != 'conv_p' else 0, bad=None)
    if o['b'] == 'mat' and (n < 2 or k < 2):
        o['b'] = 'col'
    if fn == 'fftconv_ola':
        o['len'] = draw(st.integers(1, o['m']))
    if draw(st.integers(0, 5)) == 0:
        o['bad'] = draw(st.sampled_from(['rows', 'cols', 'mode', 'bcols'] + (['block'] if fn == 'fftconv_ola' else [])))
        if o['bad'] == 'mode' and not o['mode']:
            o['mode'] = '='
    return o


@st.composite
def case(draw):
    M, n = draw(conv.size(120)), draw(st.integers(1, 8)) if draw(st.integers(0, 9)) else draw(st.integers(9, 40))
    if M * n < 2:
        n = 2
    ops = draw(st.lists(op(M, n), min_size=2, max_size=7))
    return dict(M=M, n=n, kind=draw(st.sampled_from(KINDS)), seed=draw(st.integers(0, 10 ** 6)), ops=ops)


def operands(o, n):
    r = np.random.default_rng(o['seed'])
    m, k, nb, na = o['m'], o['k'], n if o['b'] == 'mat' else 1, n
    if o['bad'] == 'rows':
        m += 1
    elif o['bad'] == 'cols':
        na += 1
        nb += nb > 1
    A = F(conv.values(o['kind'], r, (m, na)))
    if o['bad'] == 'bcols':
        return A, F(conv.values(o['kind'], r, (k + 1, na + 2)))
    B = F(conv.values(o['kind'], r, (k, nb)))
    return A, F(B.reshape(1, -1)) if o['b'] == 'row' else B


def run(c, ctx):
    r = np.random.default_rng(c['seed'])
    Y0 = F(conv.values(c['kind'], r, (c['M'], c['n'])))
    ops = np.empty((1, len(c['ops'])), dtype=object)
    model, err = Y0.copy(), np.zeros(c['n'])
    want = []
    for i, o in enumerate(c['ops']):
        A, B = operands(o, c['n'])
        a = [A, B]
        if o['fn'] == 'fftconv_ola':
            a.append(float(o['len']) if o['bad'] != 'block' else [0.0, -3.0, float(A.shape[0] + 1)][o['seed'] % 3])
        a.append('@Y')
        if o['mode']:
            a.append(o['mode'] if o['bad'] != 'mode' else ['*=', '', '==', 'fftw', '+= '][o['seed'] % 5])
        if o['wis']:
            a.append('@W')
        arr = np.empty((1, len(a)), dtype=object)
        arr[0, :] = [None] * len(a)
        for j, x in enumerate(a):
            arr[0, j] = x
        ops[0, i] = dict(fn=o['fn'], args=arr, thr=o['thr'] or '', wis=7.0 if o['wis'] else 0.0)
        if not o['bad']:
            Y, S = conv.ref(A, B)
            # an overlap-add output sums the rounding errors of overlapping blocks
            S = 4 * S + 1e-3 * np.abs(model).max(0)
            if o['mode'] == '+=':
                model, err = model + Y, err + S
            elif o['mode'] == '-=':
                model, err = model - Y, err + S
            else:
                model, err = Y.copy(), S
        want.append((model.copy(), err.copy()))
    out = ctx.oct().call('vf_hist', [Y0, ops], 3)
    if out.exc:
        fail('history failed: %s', out.exc)
    states, status, same = out.out
    for i, o in enumerate(c['ops']):
        what = 'after call %d (%s, mode %s, wisdom %d, threads %s%s)' % (i + 1, o['fn'], o['mode'], o['wis'], o['thr'], ', malformed: ' + o['bad'] if o['bad'] else '')
        s = status[0, i] if status.size else ''
        s = '' if np.size(s) == 0 else str(s)
        # conv_p prints some of its errors instead of raising them
        if bool(s) != bool(o['bad']) and not (o['bad'] and o['fn'] == 'conv_p' and out.text.strip()):
            fail('%s: expected %s, got %s', what, 'an error' if o['bad'] else 'no error', s or 'no error')
        Y, S = want[i]
        conv.compare(what, states[0, i], Y, S)
        if o['bad'] and not np.array_equal(states[0, i], states[0, i - 1] if i else Y0):
            fail('%s: the rejected call changed the matrix', what)
        if not np.ravel(same)[i]:
            fail('%s: another argument was modified', what)
    good = [o for o in c['ops'] if not o['bad']]
    lab = 'mixed' if len({o['fn'] for o in good}) > 1 else good[0]['fn'] if good else 'rejected'
    return '%s/%s%s' % (lab, 'acc' if any(o['mode'] in ('+=', '-=') for o in good) else 'set', '/bad' if len(good) < len(c['ops']) else ''), len(good) >= 2


CHECK = Check('C26', 'Histories of 2..7 in-place calls of conv_p, fftconv_p and fftconv_ola on one matrix of 1..120 rows and 1..40 columns: modes, wisdom, thread '
              'counts, operand sizes and orientations drawn per call, one call in six malformed (wrong size, mode or block length: must be reported and leave the matrix alone). '
              'The matrix is compared after every call with a NumPy model. Non-trivial: at least two valid calls.',
              {'main': ['oct_conv_p', 'oct_fftconv_p', 'oct_fftconv_ola']}, [Sub('history', case(), run, 3600)])
