"""Reference models, float64 numpy, written from the mathematics and not from the code under test."""
import numpy as np

EPS = 1.2e-7


def unfold(X, n):
    return np.reshape(np.moveaxis(X, n, 0), (X.shape[n], -1))


def others_khatri(A, n):
    """Khatri-Rao of all factors but n, in the column order of unfold(., n)."""
    R = A[0].shape[1]
    K = np.ones((1, R))
    for i, a in enumerate(A):
        if i != n:
            K = (K[:, None, :] * a[None, :, :]).reshape(-1, R)
    return K


def gram(A, n):
    R = A[0].shape[1]
    V = np.ones((R, R))
    for i, a in enumerate(A):
        if i != n:
            V = V * (a.T @ a)
    return V


def mode_mul(X, M, n):
    """X x_n M, M of shape (new, X.shape[n])."""
    return np.moveaxis(np.tensordot(M, X, axes=(1, n)), 0, n)


def ttm(X, mats, skip=None, transpose=False):
    for n, M in enumerate(mats):
        if n != skip:
            X = mode_mul(X, M.T if transpose else M, n)
    return X


def cp_full(A, lam=None):
    R = A[0].shape[1]
    lam = np.ones(R) if lam is None else np.asarray(lam, dtype=np.float64).reshape(-1)
    out = 0
    for r in range(R):
        t = np.array(lam[r])
        for a in A:
            t = np.multiply.outer(t, a[:, r])
        out = out + t
    return out


def rmse_nz(X, F):
    nz = (X != 0)
    return float(np.sqrt((((X - F) * nz) ** 2).sum() / nz.sum()))


def rel_res(X, F):
    return float(np.linalg.norm(F - X) / np.linalg.norm(X))


def f64(x):
    return [np.asarray(v, dtype=np.float64) for v in x]


# -- one comparison helper -----------------------------------------------------------------------------------


def close(got, want, tol):
    """tol: absolute elementwise bound (scalar or array).  Returns None or a description."""
    got = np.asarray(got, dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        return 'shape %s, expected %s' % (got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if got.ndim else ()
        return 'entry %s is %.8g, expected %.8g' % (i, got[i], want[i])
    return None


class Skip(Exception):
    """The step is too ill-conditioned in float32 to be judged."""


# -- CP-ALS ----------------------------------------------------------------------------------------------------


def cp_step(X, prev, new, lam):
    """prev, new: observed factors before / after one sweep.  Yields (what, problem or None) per mode."""
    N = X.ndim
    cur = f64(prev)
    new = f64(new)
    for n in range(N):
        V = gram(cur, n)
        c = np.linalg.cond(V)
        if not np.isfinite(c) or c > 3e3:
            raise Skip()
        M = unfold(X, n) @ others_khatri(cur, n) @ np.linalg.inv(V)
        top = M.max(axis=0)
        # float32 error of the unnormalised solution, per column
        err = (2e-5 + 40 * EPS * c) * (np.abs(M).max() + 1e-30)
        none = (top == 0) & ((M == 0) | (M < -200 * err)).all(axis=0)      # no positive entry: left as it is
        top = np.where(none, 1.0, top)
        if (np.abs(top) < 200 * err).any() and not (none & (np.abs(top) < 200 * err) == (np.abs(top) < 200 * err)).all():
            raise Skip()
        tol = err * (1 + np.abs(M / top)) / np.abs(top) + 1e-6
        p = close(new[n], M / top, tol)
        yield 'mode-%d factor' % n, p
        if n == N - 1:
            yield 'weights', close(np.asarray(lam).reshape(-1), top, 2 * err + 1e-6 * np.abs(top))
        cur[n] = new[n]


# -- BCU bookkeeping shared by the two non-negative models -------------------------------------------------------


def sv_max(M):
    return float(np.linalg.svd(M, compute_uv=False)[0])


class NCP(object):
    def __init__(self, X, draws):
        self.X = X
        nx = np.linalg.norm(X)
        N = X.ndim
        self.A = [d / np.linalg.norm(d) * nx ** (1.0 / N) for d in f64(draws)]
        self.Am = [a.copy() for a in self.A]
        self.A0 = [a.copy() for a in self.A]
        self.L = [1.0] * N
        self.L0 = [1.0] * N
        self.t0 = self.t = 1.0

    def clone(self):
        o = NCP.__new__(NCP)
        o.X = self.X
        for k in ('A', 'Am', 'A0'):
            setattr(o, k, [v.copy() for v in getattr(self, k)])
        o.L, o.L0, o.t0, o.t = list(self.L), list(self.L0), self.t0, self.t
        return o

    def step(self, new):
        """Yields (what, problem) per mode against the observed new factors; then carries on from them."""
        new = f64(new)
        for n in range(self.X.ndim):
            V = gram(self.A, n)
            XA = unfold(self.X, n) @ others_khatri(self.A, n)
            L = sv_max(V)
            if L < 1e-6 or not np.isfinite(L):
                raise Skip()
            self.L0[n], self.L[n] = self.L[n], L
            G = self.Am[n] @ V - XA
            want = np.maximum(0, self.Am[n] - G / L)
            mag = np.abs(self.Am[n]).max() + (np.abs(self.Am[n]) @ np.abs(V) + np.abs(XA)).max() / L
            yield 'mode-%d factor' % n, close(new[n], want, 3e-5 * mag + 1e-7)
            self.A[n] = new[n]
        self.t = (1 + np.sqrt(1 + 4 * self.t0 ** 2)) / 2

    def accept(self):
        w = (self.t0 - 1) / self.t
        for n in range(self.X.ndim):
            wa = min(w, np.sqrt(self.L0[n] / self.L[n]))
            self.Am[n] = self.A[n] + wa * (self.A[n] - self.A0[n])
            self.A0[n] = self.A[n]
        self.t0 = self.t

    def reject(self):
        self.Am = [a.copy() for a in self.A0]


class NTucker(object):
    def __init__(self, X, draws, core):
        self.X = X
        N = X.ndim
        s = np.linalg.norm(X) ** (1.0 / (N + 1))
        self.A = [d / np.linalg.norm(d) * s for d in f64(draws)]
        core = np.asarray(core, dtype=np.float64)
        self.g = core / np.linalg.norm(core) * s
        self.Am = [a.copy() for a in self.A]
        self.A0 = [a.copy() for a in self.A]
        self.gm, self.g0 = self.g.copy(), self.g.copy()
        self.L = [1.0] * (N + 1)
        self.L0 = [1.0] * (N + 1)
        self.t0 = self.t = 1.0

    def clone(self):
        o = NTucker.__new__(NTucker)
        o.X = self.X
        for k in ('A', 'Am', 'A0'):
            setattr(o, k, [v.copy() for v in getattr(self, k)])
        o.g, o.gm, o.g0 = self.g.copy(), self.gm.copy(), self.g0.copy()
        o.L, o.L0, o.t0, o.t = list(self.L), list(self.L0), self.t0, self.t
        return o

    def step(self, new, core):
        X, N = self.X, self.X.ndim
        new = f64(new)
        core = np.asarray(core, dtype=np.float64)
        AtA = [a.T @ a for a in self.A]
        L = float(np.prod([sv_max(m) for m in AtA]))
        if L < 1e-6 or not np.isfinite(L):
            raise Skip()
        self.L0[N], self.L[N] = self.L[N], L
        B = ttm(self.gm, AtA)
        XA = ttm(X, self.A, transpose=True)
        want = np.maximum(0, self.gm - (B - XA) / L)
        mag = np.abs(self.gm).max() + (np.abs(ttm(np.abs(self.gm), [np.abs(m) for m in AtA])).max() + np.abs(XA).max()) / L
        yield 'core', close(core, want, 5e-5 * mag + 1e-7)
        self.g = core
        for n in range(N):
            Bm = unfold(ttm(self.g, self.A, skip=n), n)
            S = Bm @ Bm.T
            L = sv_max(S)
            if L < 1e-6 * max(1e-3, np.abs(X).max()) or not np.isfinite(L):
                raise Skip()
            XB = unfold(X, n) @ Bm.T
            self.L0[n], self.L[n] = self.L[n], L
            want = np.maximum(0, self.Am[n] - (self.Am[n] @ S - XB) / L)
            mag = np.abs(self.Am[n]).max() + (np.abs(self.Am[n]) @ np.abs(S) + np.abs(XB)).max() / L
            yield 'mode-%d factor' % n, close(new[n], want, 5e-5 * mag + 1e-7)
            self.A[n] = new[n]
        self.t = (1 + np.sqrt(1 + 4 * self.t0 ** 2)) / 2

    def accept(self):
        w = (self.t0 - 1) / self.t
        N = self.X.ndim
        for n in range(N):
            wa = min(w, np.sqrt(self.L0[n] / self.L[n]))
            self.Am[n] = self.A[n] + wa * (self.A[n] - self.A0[n])
            self.A0[n] = self.A[n]
        wg = min(w, np.sqrt(self.L0[N] / self.L[N]))
        self.gm = self.g + wg * (self.g - self.g0)
        self.g0 = self.g
        self.t0 = self.t

    def reject(self):
        self.Am = [a.copy() for a in self.A0]
        self.gm = self.g0.copy()


# -- Tucker ------------------------------------------------------------------------------------------------------


def orthonormal(U):
    U = np.asarray(U, dtype=np.float64)
    return close(U.T @ U, np.eye(U.shape[1]), 5e-5)


def leading(M, U):
    """Are U's columns, in order, leading left singular vectors of M?  Judged by the gain of each column and of
    the span, which needs no gap between singular values."""
    U = np.asarray(U, dtype=np.float64)
    s = np.linalg.svd(M, compute_uv=False)
    s = np.concatenate([s, np.zeros(max(0, U.shape[1] - len(s)))])[:U.shape[1]]
    gain = np.linalg.norm(U.T @ M, axis=1)
    scale = max(float(np.linalg.norm(M)), 1e-30)
    p = close(gain, s, 1e-4 * scale)
    return p


def leading_span(M, U):
    U = np.asarray(U, dtype=np.float64)
    s = np.linalg.svd(M, compute_uv=False)[:U.shape[1]]
    scale = max(float(np.linalg.norm(M)), 1e-30)
    return close(np.linalg.norm(U.T @ M), np.sqrt((s ** 2).sum()), 1e-4 * scale)


# -- stopping rule -------------------------------------------------------------------------------------------------


def stops(hist_rel, normX, tol, updates, steps, want_ambiguous=False):
    """Iterations executed under the stopping rule for a history of relative residuals; with a flag telling
    whether some comparison was too close to call in float32."""
    obj0 = None
    nstall = 0
    fuzzy = False
    for k, rr in enumerate(hist_rel, 1):
        obj = 0.5 * (rr * normX) ** 2
        if k == 1:
            obj0 = obj + 1
        e1 = abs(obj - obj0) / (obj0 + 1)
        slack = 5e-6 * (obj + obj0) / (obj0 + 1) + 1e-9
        if abs(e1 - tol) <= slack or abs(rr - tol) <= 1e-5 * max(rr, tol):
            fuzzy = True
        nstall = nstall + 1 if e1 < tol else 0
        if nstall >= 3 or rr < tol:
            return k, fuzzy
        if k == steps:
            return k, fuzzy
        if updates:
            if abs(obj - obj0) <= 1e-5 * max(obj, obj0):
                fuzzy = True
            if obj < obj0:
                obj0 = obj
    return len(hist_rel), fuzzy
