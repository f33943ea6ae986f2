"""Dense joint Gaussian reference computations."""
import numpy as np

L2PI = float(np.log(2 * np.pi))


def logpdf(err, S):
    """textbook log-density in extended precision (own Cholesky)"""
    e = np.asarray(err, dtype=np.longdouble).ravel()
    S = np.asarray(S, dtype=np.longdouble).reshape(len(e), len(e))
    n = len(e)
    L = np.zeros((n, n), dtype=np.longdouble)
    for i in range(n):
        for j in range(i + 1):
            s = S[i, j] - np.sum(L[i, :j] * L[j, :j])
            if i == j:
                L[i, i] = np.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    z = np.zeros(n, dtype=np.longdouble)
    for i in range(n):
        z[i] = (e[i] - np.sum(L[i, :i] * z[:i])) / L[i, i]
    return float(-0.5 * (n * np.log(2 * np.longdouble(np.pi)) + 2 * np.sum(np.log(np.diag(L))) + np.sum(z * z)))


def whole(X, top=None):
    """whole numbers, stored as integers, or one is exactly zero"""
    X = np.rint(X).astype(int)
    return X if top is None else np.clip(X, -top, top)


def whole_trans(rng, A, steps):
    """whole transition matrix which keeps a system of that many steps in a
    range where the reference is precise"""
    A = whole(A, 1)
    while True:
        big = np.abs(A).sum(1).max() > 1 if steps > 6 else np.abs(np.linalg.eigvals(A)).max() > 1.7
        if not big:
            return A
        i = int(np.argmax(np.abs(A).sum(1)))
        A[i, rng.choice(np.flatnonzero(A[i]))] = 0


def whole_cov(rng, n):
    return np.diag(rng.randint(1, 4, size=n))


class Fed(object):
    """measurements may be given to the library in raw form, to be
    preprocessed by the hook which returns the measurement equation"""
    prep = False
    col = False     # the library's own hook is used, which takes columns

    def raw(self, y):
        if self.col and y is not None:
            y = np.asarray(y).reshape(-1, 1)
        return y if y is None or not self.prep else 2.0 * np.asarray(y, dtype=float) + 1.0

    def round_y(self, rng):
        """now and then measurements are whole numbers, stored as integers, or one is exactly zero"""
        if rng.rand() < 0.2:
            k = rng.randint(len(self.y))
            self.y[k] = None if self.y[k] is None else np.zeros_like(self.y[k])
        if rng.rand() < 0.12:
            self.y = [None if y is None else np.rint(y).astype(int) for y in self.y]

    def feed(self, t):
        return self.raw(self.y[t])

    def proc(self, y):
        y = np.asarray(y).reshape(-1, 1)
        return (y - 1.0) * 0.5 if self.prep else y


class Joint(object):
    """Jointly Gaussian named blocks, built by linear-Gaussian equations."""

    def __init__(self):
        self.names = {}
        self.m = np.zeros(0)
        self.S = np.zeros((0, 0))

    def add(self, name, const, cov, terms=()):
        """name = const + sum F*block + N(0,cov)"""
        const = np.asarray(const, dtype=float).ravel()
        d, n = len(const), len(self.m)
        F = np.zeros((d, n))
        for other, M in terms:
            F[:, self.names[other]] += np.asarray(M, dtype=float).reshape(d, -1)
        m = np.concatenate([self.m, F @ self.m + const])
        S = np.zeros((n + d, n + d))
        S[:n, :n] = self.S
        S[n:, :n] = F @ self.S
        S[:n, n:] = S[n:, :n].T
        S[n:, n:] = F @ self.S @ F.T + np.asarray(cov, dtype=float).reshape(d, d)
        self.m, self.S = m, S
        self.names[name] = slice(n, n + d)
        return self

    def idx(self, names):
        return np.concatenate([np.arange(self.names[n].start, self.names[n].stop) for n in names]) if names else np.zeros(0, dtype=int)

    def cond(self, obs):
        """posterior Joint given {name: value}"""
        out = Joint()
        out.names = self.names
        if not obs:
            out.m, out.S = self.m.copy(), self.S.copy()
            return out
        names = list(obs)
        i = self.idx(names)
        v = np.concatenate([np.asarray(obs[n], dtype=float).ravel() for n in names])
        Sy = self.S[np.ix_(i, i)]
        K = np.linalg.solve(Sy, self.S[i, :]).T
        out.m = self.m + K @ (v - self.m[i])
        out.S = self.S - K @ self.S[i, :]
        out.S = 0.5 * (out.S + out.S.T)
        return out

    def loglik(self, obs):
        if not obs:
            return 0.0
        names = list(obs)
        i = self.idx(names)
        v = np.concatenate([np.asarray(obs[n], dtype=float).ravel() for n in names])
        return logpdf(v - self.m[i], self.S[np.ix_(i, i)])

    def mean(self, n):
        return self.m[self.names[n]]

    def cov(self, a, b=None):
        return self.S[self.names[a], self.names[b or a]]


def spd(rng, n, lo=0.3, hi=1.5):
    """random covariance with eigenvalues in [lo,hi]"""
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    return (q * rng.uniform(lo, hi, size=n)) @ q.T


def psd(rng, n, rank):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    e = np.zeros(n)
    e[:rank] = rng.uniform(0.3, 1.5, size=rank)
    return (q * e) @ q.T


def stable(rng, n):
    A = rng.normal(size=(n, n))
    return A * (rng.uniform(0.4, 1.0) / max(np.abs(np.linalg.eigvals(A)).max(), 0.3))
