"""Reference for the annular array: rings are differences of discs, weighted and delayed
by whole samples."""
import numpy as np
from . import ref, sir
from .core import Skip


def refs(c):
    G = [float(x) for x in np.ravel(c['G'])]
    n, fd, w = sir.annu_rings(c)
    att = c['alpha'] > np.finfo(float).eps
    nt, dt = c['nt'], c['dt']
    sh = fd / dt
    if (np.abs(sh - np.floor(sh) - 0.5) < ref.TIE).any():
        raise Skip('focus delay on a rounding tie')
    sh = np.rint(sh).astype(int)
    grids = [ref.grid_circ(g, c['dx'], c['dy']) if not (k == 0 and g <= np.finfo(float).eps) else None for k, g in enumerate(G)]
    out = []
    for i, ro in enumerate(c['ro']):
        discs = []
        for g in grids:
            B = ref.AttResp(nt, dt, c['alpha']) if att else ref.Bins(nt)
            if g is not None and len(g[0]):
                amp, u, r = ref.contributions(g, ro, c['v'], c['cp'], dt, sir.delay_of(c, i))
                if att:
                    B.add(amp, u, r, g[3])
                else:
                    B.add(amp, u, g[3])
            discs.append(B)
        T = ref.AttResp(nt, dt, c['alpha']) if att else ref.Bins(nt)
        for B in discs:
            T.oob |= B.oob
            T.oob_maybe |= B.oob_maybe
            T.nin += B.nin
            T.ntie += B.ntie
        for k in range(n):
            if att:
                T.amb |= any(B.amb for B in discs)
                ring = discs[0].h if k == 0 else discs[2 * k].h - discs[2 * k - 1].h
                T.h += w[k] * shift(ring, sh[k])
                T.tot += abs(w[k]) * sum(B.tot for B in discs)
                if sh[k]:
                    T.oob_maybe = True
            else:
                R = discs[0] if k == 0 else discs[2 * k].sub(discs[2 * k - 1])
                lo, hi = shift(R.lo, sh[k]) * w[k], shift(R.hi, sh[k]) * w[k]
                T.lo += np.minimum(lo, hi)
                T.hi += np.maximum(lo, hi)
                T.s += shift(R.s, sh[k]) * abs(w[k])
                T.tot += R.tot * abs(w[k])
                if (shift(shift(R.s, sh[k]), -sh[k]) != R.s).any():
                    T.oob_maybe = True          # samples pushed outside by the ring delay
        out.append(T)
    return out


def shift(x, k):
    y = np.zeros_like(x)
    n = len(x)
    if k >= 0:
        if k < n:
            y[k:] = x[:n - k]
    elif -k < n:
        y[:n + k] = x[-k:]
    return y
