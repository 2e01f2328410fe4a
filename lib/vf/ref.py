"""Reference models written from the DREAM manual, independent of the C++ code.

A spatial impulse response is a list of contributions (amplitude, u) where u is
the real-valued sample position; a contribution belongs to sample rint(u).  A
contribution whose u lies within TIE of a half-sample may legitimately round to
either neighbour (it depends on the last bits of the arithmetic), so the model
yields a lower and an upper bound per sample; so do aperture cells that lie
exactly on the aperture edge."""
import numpy as np

TIE = 1e-7
EDGE = 1e-7
pi = np.pi


# --------------------------------------------------------------- aperture grids
def axis(width, d):
    """Midpoint cells covering [-width/2, width/2]; returns coords, optional flags."""
    x = width / d - 0.5
    n = int(np.floor(x + EDGE)) + 1          # including cells on the edge
    n = max(n, 0)
    c = -width / 2 + d / 2 + d * np.arange(n)
    opt = np.zeros(n, bool)
    if n and abs(x - np.rint(x)) < EDGE:
        opt[-1] = True
    return c, opt


def grid_rect(a, b, dx, dy):
    xs, ox = axis(a, dx)
    ys, oy = axis(b, dy)
    Y, X = np.meshgrid(ys, xs, indexing='ij')
    O = oy[:, None] | ox[None, :]
    return X.ravel(), Y.ravel(), np.zeros(X.size), O.ravel(), dx * dy


def grid_line(a, dx, dy):
    xs, ox = axis(a, dx)
    return xs, np.zeros(len(xs)), np.zeros(len(xs)), ox, dx * dy


def grid_circ(R, dx, dy):
    ys, oy = axis(2 * R, dy)
    X, Y, O = [], [], []
    for y, o in zip(ys, oy):
        w = np.sqrt(max(R * R - y * y, 0.0))
        xs, ox = axis(2 * w, dx)
        X.append(xs)
        Y.append(np.full(len(xs), y))
        O.append(ox | o)
    if not X:
        return np.zeros(0), np.zeros(0), np.zeros(0), np.zeros(0, bool), dx * dy
    X, Y, O = map(np.concatenate, (X, Y, O))
    return X, Y, np.zeros(len(X)), O, dx * dy


def grid_sphere(R, Rc, dx, dy):
    X, Y, Z, O, ds = grid_circ(R, dx, dy)
    z = abs(Rc) - np.sqrt(Rc * Rc - X * X - Y * Y)
    return X, Y, (z if Rc >= 0 else -z), O, ds


def grid_cylind(a, b, Rc, dx, dy):
    A = abs(Rc)
    dphi = np.arcsin(dy / A)
    half = np.arcsin(min(1.0, b / 2 / A))
    ph, oy = axis(2 * half, dphi)
    xs, ox = axis(a, dx)
    P, X = np.meshgrid(ph, xs, indexing='ij')
    Y = A * np.sin(P)
    z = A - np.sqrt(np.maximum(A * A - Y * Y, 0))
    O = oy[:, None] | ox[None, :]
    return X.ravel(), Y.ravel(), (z if Rc >= 0 else -z).ravel(), O.ravel(), A * dx * dphi


# --------------------------------------------------------------- delay and weight laws
def focus(met, f, x, y, xm, ym, rm, cp):
    if met == 'off':
        return np.zeros(np.shape(x))
    if met == 'x':
        d = np.hypot(xm, f) - np.sqrt(x * x + f * f)
    elif met == 'y':
        d = np.hypot(ym, f) - np.sqrt(y * y + f * f)
    elif met == 'xy':
        d = np.hypot(rm, f) - np.sqrt(x * x + y * y + f * f)
    elif met == 'x+y':
        d = np.hypot(rm, f) - (np.sqrt(x * x + f * f) + np.sqrt(y * y + f * f))
    else:
        raise ValueError(met)
    return d * 1e3 / cp


def steer(met, th, ph, gx, gy, xm, ym, cp):
    dx = (xm + gx) * np.sin(np.deg2rad(th)) * 1e3 / cp
    dy = (ym + gy) * np.sin(np.deg2rad(ph)) * 1e3 / cp
    return {'off': 0 * dx, 'x': dx, 'y': dy, 'xy': dx + dy}[met]


def apod(met, r, rm, p, ud=None):
    q = r / rm if rm else r * np.nan
    if met == 'off':
        return np.ones(np.shape(r))
    if met == 'ud':
        return np.asarray(ud, float)
    if met == 'triangle':
        return 1 - q
    if met == 'gauss':
        return np.exp(-p * q * q)
    if met == 'raised':
        return p + np.cos(pi * q)
    if met == 'hann':
        return 0.5 * (1 - np.cos((q + 1) * pi))
    if met == 'hamming':
        return 25. / 46 - (1 - 25. / 46) * np.cos((q + 1) * pi)
    if met == 'simply':
        return 1 - q * q
    if met == 'clamped':
        return (1 - q * q) ** 2
    raise ValueError(met)


# --------------------------------------------------------------- binning
class Bins:
    """Bounds on a length-nt response."""

    def __init__(self, nt):
        self.nt = nt
        self.lo = np.zeros(nt)
        self.hi = np.zeros(nt)
        self.s = np.zeros(nt)        # sum of magnitudes per sample
        self.oob = False             # some contribution certainly outside
        self.oob_maybe = False
        self.nin = 0
        self.ntie = 0
        self.tot = 0.0

    def _add(self, k, amp, lo=True, hi=True):
        ok = (k >= 0) & (k < self.nt)
        k2 = k[ok].astype(int)
        a = amp[ok]
        np.add.at(self.s, k2, np.abs(a))
        if lo:
            np.add.at(self.lo, k2, a)
        if hi:
            np.add.at(self.hi, k2, a)
        return ok

    def add(self, amp, u, opt=None):
        amp = np.broadcast_to(np.asarray(amp, float), u.shape)
        if opt is None:
            opt = np.zeros(u.shape, bool)
        fr = u - np.floor(u)
        tie = np.abs(fr - 0.5) < TIE
        clear = ~tie & ~opt
        self.tot += np.abs(amp).sum()
        self.ntie += int((~clear).sum())
        ok = self._add(np.rint(u[clear]), amp[clear])
        self.nin += int(ok.sum())
        if not ok.all():
            self.oob = True
        for j in np.nonzero(~clear)[0]:
            ks = {np.floor(u[j]), np.floor(u[j]) + 1} if tie[j] else {np.rint(u[j])}
            ins = [0 <= k < self.nt for k in ks]
            if not all(ins):
                self.oob_maybe = True
                if not any(ins) and not opt[j]:
                    self.oob = True
            for k in ks:
                if 0 <= k < self.nt:
                    k = int(k)
                    self.s[k] += abs(amp[j])
                    self.lo[k] += min(0.0, amp[j])
                    self.hi[k] += max(0.0, amp[j])
        if self.oob:
            self.oob_maybe = True

    def sub(self, o):
        """self - o (for ring responses)"""
        r = Bins(self.nt)
        r.lo = self.lo - o.hi
        r.hi = self.hi - o.lo
        r.s = self.s + o.s
        r.oob = self.oob or o.oob
        r.oob_maybe = self.oob_maybe or o.oob_maybe
        r.nin, r.ntie, r.tot = self.nin + o.nin, self.ntie + o.ntie, self.tot + o.tot
        return r

    def compare(self, h, rtol=1e-8):
        """None if h lies within the bounds, else a message."""
        h = np.asarray(h, float)
        if h.shape != (self.nt,):
            return 'shape %s, expected (%d,)' % (h.shape, self.nt)
        tol = rtol * self.s + 1e-13 * self.tot + 1e-300
        bad = ~((h >= self.lo - tol) & (h <= self.hi + tol))
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            return 'sample %d is %r, expected %r%s (%d of %d samples wrong; total %g, expected %g)' % (
                k, float(h[k]), float(self.lo[k]), '' if self.lo[k] == self.hi[k] else '..%r' % float(self.hi[k]),
                int(bad.sum()), self.nt, float(h.sum()), float((self.lo + self.hi).sum() / 2))
        return None


def contributions(grid, ro, v, cp, dt, delay, extra=0.0, weight=1.0):
    """amplitude, sample position, distance for every aperture cell."""
    X, Y, Z, O, ds = grid
    r = np.sqrt((ro[0] - X) ** 2 + (ro[1] - Y) ** 2 + (ro[2] - Z) ** 2)
    amp = weight * v * ds / (2 * pi * r) / dt * 1000.0
    u = (r * 1000.0 / cp - delay + extra) / dt
    return amp, u, r


def green(r_mm, it, nt, dt_us, alpha):
    """Columns: attenuated unit impulse at sample it after distance r (see manual)."""
    r = np.asarray(r_mm, float)[None, :] * 1e-3
    it = np.asarray(it, float)[None, :]
    dt = dt_us * 1e-6
    al = alpha / (8.686 * 1e4)
    k = np.arange(1, nt // 2 + 1)[:, None]
    w = 2 * pi * k / nt / dt
    ph = -w * r * al / pi ** 2 * np.log(pi / (0.95 * dt * w)) - it * dt * w
    X = np.ones((nt // 2 + 1, r.shape[1]), complex)
    X[1:] = np.exp(-r * al * w / (2 * pi)) * np.exp(1j * ph)
    return np.fft.irfft(X, nt, axis=0)


class AttResp:
    """Attenuated response: exact value unless some contribution is on a tie/edge."""

    def __init__(self, nt, dt, alpha):
        self.nt, self.dt, self.alpha = nt, dt, alpha
        self.h = np.zeros(nt)
        self.tot = 0.0
        self.amb = False
        self.oob = self.oob_maybe = False
        self.nin = 0
        self.ntie = 0

    def add(self, amp, u, r, opt):
        fr = u - np.floor(u)
        t = (np.abs(fr - 0.5) < TIE) | opt
        if t.any():
            self.amb = True
            self.ntie += int(t.sum())
        it = np.rint(u)
        ok = (it >= 0) & (it < self.nt)
        self.nin += int(ok.sum())
        if not ok.all():
            self.oob = self.oob_maybe = True
        if t.any():
            self.oob_maybe = True
        if ok.any():
            for i in range(0, int(ok.sum()), 256):
                sl = np.nonzero(ok)[0][i:i + 256]
                self.h += green(r[sl], it[sl], self.nt, self.dt, self.alpha) @ np.broadcast_to(amp, u.shape)[sl]
        self.tot += np.abs(amp[ok] if np.ndim(amp) else amp * ok).sum()

    def compare(self, h, rtol=1e-8):
        h = np.asarray(h, float)
        if h.shape != (self.nt,):
            return 'shape %s, expected (%d,)' % (h.shape, self.nt)
        if self.amb:
            return None
        tol = rtol * self.tot + 1e-300
        bad = ~(np.abs(h - self.h) <= tol)
        if bad.any():
            k = int(np.argmax(np.where(np.isfinite(h), np.abs(h - self.h), np.inf)))
            return 'sample %d is %r, expected %r (%d of %d samples wrong)' % (k, float(h[k]), float(self.h[k]), int(bad.sum()), self.nt)
        return None
