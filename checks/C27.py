"""Histories of copy_p and add_p on one destination matrix against a NumPy matrix."""
import numpy as np
from hypothesis import strategies as st
from vf import conv, sir
from vf.core import Check, Sub, fail
from vf.sir import F

KINDS = ['int', 'real', 'spike', 'wide']


@st.composite
def rng(draw, n):
    a = draw(st.integers(1, n))
    b = draw(st.integers(a, n)) if draw(st.integers(0, 3)) else draw(st.sampled_from([a, n]))
    return [a, b]


@st.composite
def op(draw, M, N):
    o = dict(fn=draw(st.sampled_from(['copy_p', 'add_p'])), r=draw(rng(M)), k=draw(rng(N)), kind=draw(st.sampled_from(KINDS)),
             seed=draw(st.integers(0, 10 ** 6)), thr=draw(st.sampled_from(sir.THREADS)), extra=0, bad=None, col=draw(st.booleans()))
    q = draw(st.integers(0, 9))
    if q == 0:                              # only the first rows of a longer source are used
        o['extra'] = draw(st.integers(1, 5))
    elif q < 3:
        o['bad'] = b = draw(st.sampled_from(['r-low', 'r-high', 'r-order', 'k-low', 'k-high', 'k-order', 'r-far', 'k-far', 'rows', 'cols-', 'cols+', 'r-len', 'k-len', 'nargs']))
        if b == 'r-low':
            o['r'] = [draw(st.integers(-3, 0)), o['r'][1]]
        elif b == 'k-low':
            o['k'] = [draw(st.integers(-3, 0)), o['k'][1]]
        elif b == 'r-high':
            o['r'] = [o['r'][0], M + draw(st.integers(1, 4))]
        elif b == 'k-high':
            o['k'] = [o['k'][0], N + draw(st.integers(1, 4))]
        elif b == 'r-far':
            o['r'] = [M + 1, M + 1 + draw(st.integers(0, 3))]
        elif b == 'k-far':
            o['k'] = [N + 1, N + 1 + draw(st.integers(0, 3))]
        elif b == 'r-order':
            o['r'] = [draw(st.integers(2, M)), 1] if M > 1 else [2, 1]
        elif b == 'k-order':
            o['k'] = [draw(st.integers(2, N)), 1] if N > 1 else [2, 1]
    return o


@st.composite
def case(draw):
    M, N = draw(conv.size(150)), draw(conv.size(60))
    if M * N < 2:
        N = 2
    return dict(M=M, N=N, kind=draw(st.sampled_from(KINDS)), seed=draw(st.integers(0, 10 ** 6)),
                ops=draw(st.lists(op(M, N), min_size=2, max_size=8)))


def run(c, ctx):
    Y0 = F(conv.values(c['kind'], np.random.default_rng(c['seed']), (c['M'], c['N'])))
    ops = np.empty((1, len(c['ops'])), dtype=object)
    model, want = Y0.copy(), []
    for i, o in enumerate(c['ops']):
        (r1, r2), (k1, k2), b = o['r'], o['k'], o['bad']
        m, n = max(1, r2 - r1 + 1) + o['extra'], max(1, k2 - k1 + 1)
        if b == 'rows':
            m -= 1
        elif b == 'cols-':
            n -= 1
        elif b == 'cols+':
            n += 1
        B = F(conv.values(o['kind'], np.random.default_rng(o['seed']), (m, n)))
        r, k = [float(r1), float(r2)], [float(k1), float(k2)]
        if b == 'r-len':
            r = r[:1] if o['seed'] % 2 else r + [1.0]
        elif b == 'k-len':
            k = k[:1] if o['seed'] % 2 else k + [1.0]
        vec = (lambda v: F(np.reshape(v, (-1, 1)))) if o['col'] else (lambda v: F(np.reshape(v, (1, -1))))
        a = ['@Y', vec(r), vec(k), B]
        if b == 'nargs':
            a = a[:3] if o['seed'] % 2 else a + [1.0]
        arr = np.empty((1, len(a)), dtype=object)
        for j, x in enumerate(a):
            arr[0, j] = x
        ops[0, i] = dict(fn=o['fn'], args=arr, thr=o['thr'] or '', wis=0.0)
        if not b:
            s = np.s_[r1 - 1:r2, k1 - 1:k2]
            if o['fn'] == 'copy_p':
                model[s] = B[:r2 - r1 + 1]
            else:
                model[s] += B[:r2 - r1 + 1]
        want.append(model.copy())
    out = ctx.oct().call('vf_hist', [Y0, ops], 3)
    if out.exc:
        fail('history failed: %s', out.exc)
    states, status, same = out.out
    for i, o in enumerate(c['ops']):
        what = 'after call %d (%s, rows %s, columns %s, threads %s%s)' % (i + 1, o['fn'], o['r'], o['k'], o['thr'], ', malformed: ' + o['bad'] if o['bad'] else '')
        s = status[0, i] if status.size else ''
        s = '' if np.size(s) == 0 else str(s)
        if bool(s) != bool(o['bad']):
            fail('%s: expected %s, got %s', what, 'an error' if o['bad'] else 'no error', s or 'no error')
        conv.compare(what, states[0, i], want[i], np.zeros(c['N']), exact=True)
        if not np.ravel(same)[i]:
            fail('%s: the source or a range was modified', what)
    good = [o for o in c['ops'] if not o['bad']]
    part = [o for o in good if o['r'] != [1, c['M']] or o['k'] != [1, c['N']]]
    return '%s%s' % ('part' if part else 'whole' if good else 'rejected', '/bad' if len(good) < len(c['ops']) else ''), bool(part)


CHECK = Check('C27', 'Histories of 2..8 calls of copy_p and add_p on one matrix of 1..150 rows and 1..60 columns: ranges, contents, thread counts and range vector '
              'orientations drawn per call; one source in ten has more rows than the range (its first rows are used), one call in five is malformed (range outside '
              'the matrix, reversed, wrong length; source too small or of another width; argument count) and must raise and change nothing. '
              'The matrix is compared bit by bit after every call. Non-trivial: a valid call addresses a proper sub-matrix.',
              {'main': ['oct_copy_p', 'oct_add_p']}, [Sub('history', case(), run, 4800)])
