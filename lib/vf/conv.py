"""Convolution functions: NumPy reference and generators."""
import numpy as np
from hypothesis import strategies as st
from . import sir
from .core import fail
from .sir import F


@st.composite
def size(draw, hi=400):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(st.integers(1, 2))
    if k < 8:
        return draw(st.integers(1, 40))
    return draw(st.integers(1, hi))


@st.composite
def case(draw, hi=400, ncols=(1, 12)):
    n = draw(st.integers(*ncols))
    if draw(st.integers(0, 19)) == 0:
        n = draw(st.integers(13, 70))
    m, k = draw(size(hi)), draw(size(hi))
    if n > 20:
        m, k = min(m, 40), min(k, 40)
    b = draw(st.sampled_from(['mat', 'mat', 'col', 'row']))
    if b == 'mat' and (n < 2 or k < 2):
        b = 'col'
    return dict(m=m, k=k, n=n, b=b, kind=draw(st.sampled_from(['int', 'int', 'real', 'spike', 'wide'])), seed=draw(st.integers(0, 10 ** 6)),
                threads=draw(st.sampled_from(sir.THREADS)))


@st.composite
def big(draw):
    """long columns, or many of them"""
    if draw(st.booleans()):
        n, m, k = draw(st.integers(1, 3)), draw(st.integers(400, 9000)), draw(st.integers(1, 6000) | st.integers(1, 60))
        if draw(st.booleans()):
            m, k = k, m
    else:
        n, m, k = draw(st.integers(64, 300)), draw(st.integers(1, 24)), draw(st.integers(1, 24))
    b = draw(st.sampled_from(['mat', 'col', 'row']))
    if b == 'mat' and (n < 2 or k < 2):
        b = 'col'
    return dict(m=m, k=k, n=n, b=b, kind=draw(st.sampled_from(['int', 'real', 'spike', 'wide'])), seed=draw(st.integers(0, 10 ** 6)),
                threads=draw(st.sampled_from(sir.THREADS)))


def values(kind, r, shape):
    if kind == 'int':
        return r.integers(-99, 100, shape).astype(float)
    x = r.standard_normal(shape)
    if kind == 'spike':                     # mostly zero, so a misplaced sample shows
        x = np.where(r.random(shape) < 0.85, 0.0, x)
    if kind == 'wide':
        x = x * 10.0 ** r.integers(-3, 4, shape)
    return x


def mats(c):
    r = np.random.default_rng(c['seed'])
    A = values(c['kind'], r, (c['m'], c['n']))
    B = values(c['kind'], r, (c['k'], c['n'] if c['b'] == 'mat' else 1))
    return F(A), F(B.reshape(1, -1) if c['b'] == 'row' else B)


def ref(A, B):
    """column-wise linear convolution and the scale of its rounding errors"""
    v = B.ravel()[:, None] if 1 in B.shape else B
    k = v.shape[0]
    Y = np.zeros((A.shape[0] + k - 1, A.shape[1]))
    S = np.zeros(A.shape[1])
    for j in range(A.shape[1]):
        b = v[:, j] if v.shape[1] > 1 else v[:, 0]
        Y[:, j] = np.convolve(A[:, j], b)
        S[j] = np.sqrt((A[:, j] ** 2).sum() * (b ** 2).sum())
    return Y, S


def compare(what, y, Y, S, exact=False):
    if y is None or y.shape != Y.shape:
        fail('%s returned shape %s, expected %s', what, None if y is None else y.shape, Y.shape)
    tol = 0.0 if exact else 1e-12 * np.maximum(S, 1e-300)[None, :]
    bad = ~(np.abs(y - Y) <= tol)
    if bad.any():
        i, j = [int(q[0]) for q in np.nonzero(bad)]
        fail('%s: sample %d of column %d is %r, expected %r (%d of %d wrong)', what, i, j, float(y[i, j]), float(Y[i, j]), int(bad.sum()), bad.size)


def label(c, extra=''):
    return '%s/%s%s' % (c['b'], 'one' if c['n'] == 1 else 'many', extra)


def nontrivial(c):
    return c['m'] > 1 and c['k'] > 1
