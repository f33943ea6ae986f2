"""Parametrised linear and mixed models with known derivatives."""
import math
import numpy as np
from pyparticleest.models.ltv import LTV
from pyparticleest.models.mlnlg import MixedNLGaussianSampledInitialGaussian, MixedNLGaussianMarginalizedInitialGaussian
import pyparticleest.paramest.interfaces as pestint
from .dense import *
from .core import bare
from .mlgen import ti, uv


class Par(Fed):
    """X(p) = (X0 + sum_k p_k D_k + p_k^2/2 E_k) * g, |p_k| <= 1, g depends on
    the state, input and time when the term is reported by the hooks."""

    def __init__(self, rng, npar, shapes, cov, want=None, hooks=0.5):
        self.np = npar
        self.ints, self.cov = False, {a: a in cov for a in shapes}
        self.X0, self.D, self.E, self.dep, self.dyn, self.off = {}, {}, {}, {}, {}, {}
        for a, sh in shapes.items():
            c = a in cov
            self.X0[a] = spd(rng, sh[0], 0.8, 1.5) if c else rng.normal(size=sh)
            self.dep[a] = bool(rng.rand() < 0.4) if want is None else a in want
            self.dyn[a] = bool(rng.rand() < hooks)
            self.off[a] = rng.uniform(0, 6)
            self.D[a], self.E[a] = np.zeros((npar,) + sh), np.zeros((npar,) + sh)
            if not self.dep[a]:
                continue
            for k in range(npar):
                if rng.rand() < 0.7 or (k == 0 and npar == 1):
                    for X in (self.D[a], self.E[a]):
                        d = rng.normal(size=sh)
                        if c:
                            d = d + d.T
                            d = d * 0.3 / npar / max(np.linalg.norm(d, 2), 1e-9)
                        X[k] = d * (1.0 if X is self.D[a] else 0.5)

    def g(self, a, w):
        if not self.dyn[a] or w is None:
            return 1.0
        xi, u, t = w
        return 1.0 + 0.3 * math.sin(self.off[a] + (0.0 if xi is None else float(np.sum(xi))) + 0.7 * t + 0.4 * uv(u))

    def val(self, a, p, w=None):
        p = np.ravel(p)
        if self.ints and not self.dep[a] and not self.dyn[a]:
            return self.X0[a]
        return (self.X0[a] + np.tensordot(p, self.D[a], 1) + 0.5 * np.tensordot(p ** 2, self.E[a], 1)) * self.g(a, w)

    def grad(self, a, p, w=None):
        p = np.ravel(p)
        if self.ints and not self.cov[a] and not self.dyn[a]:
            return self.D[a]
        return (self.D[a] + p[:, None, None] * self.E[a]) * self.g(a, w)

    def whole(self, rng):
        """constants and slopes that are whole numbers, stored as integers"""
        self.ints = bool(rng.rand() < 0.15)
        if not self.ints:
            return self
        for a in self.X0:
            if not self.cov[a]:
                top = 1 if a == 'A' else None
                self.X0[a], self.D[a], self.E[a] = whole(self.X0[a], top), whole(self.D[a], top), 0 * whole(self.E[a])
        return self

    def point(self, rng):
        return rng.uniform(-0.8, 0.8, size=self.np)


def _nograd(m, s, rng, init=()):
    """leave out gradient hooks which are not needed"""
    if not m.zeros and rng.rand() < 0.5:
        free = lambda *names: not any(s.dep[a] for a in names)
        bare(m, *[h for h, ok in (('get_pred_dynamics_grad', free('A', 'f', 'Q')), ('get_meas_dynamics_grad', free('C', 'h', 'R')), ('get_initial_grad', init and free(*init))) if ok])


class _PL(LTV):
    """linear model with parameters"""

    def __init__(self, s, rng, **kw):
        self.s = s
        self.zeros = bool(rng.rand() < 0.3)     # report zero instead of no gradient
        self.col = bool(rng.rand() < 0.3)
        self.tried = []
        p = np.zeros(s.np)
        self.params = p
        super(_PL, self).__init__(z0=s.val('z0', p), P0=s.val('P0', p), A=s.X0['A'], C=s.X0['C'], Q=s.X0['Q'], R=s.X0['R'], f=s.X0['f'], h=s.X0['h'], **kw)
        _nograd(self, s, rng, ('z0', 'P0'))

    def set_params(self, params):
        s = self.s
        self.tried.append(np.array(params, dtype=float).ravel())
        self.params = np.array(params, dtype=float).reshape((-1, 1) if self.col else (-1,))
        self.z0, self.P0 = s.val('z0', params), s.val('P0', params)
        kw = {k: s.val(a, params) for a, k in (('A', 'A'), ('C', 'C'), ('Q', 'Q'), ('R', 'R'), ('f', 'f_k'), ('h', 'h_k')) if not s.dyn[a]}
        self.kf.set_dynamics(**kw)

    def _d(self, names, w):
        return tuple(self.s.val(a, self.params, w) if self.s.dyn[a] else None for a in names)

    def _g(self, names, w):
        return tuple(self.s.grad(a, self.params, w) if (self.s.dep[a] or self.zeros) else None for a in names)

    def get_pred_dynamics(self, u, t):
        return self._d(('A', 'f', 'Q'), (None, u, ti(t)))

    def get_meas_dynamics(self, y, t):
        return (self.s.proc(y),) + self._d(('C', 'h', 'R'), (None, None, ti(t)))

    def get_pred_dynamics_grad(self, u, t):
        return self._g(('A', 'f', 'Q'), (None, u, ti(t)))

    def get_meas_dynamics_grad(self, y, t):
        return self._g(('C', 'h', 'R'), (None, None, ti(t)))

    def get_initial_grad(self):
        return self._g(('z0', 'P0'), None)


class LinGrad(_PL, pestint.ParamEstBaseNumericGrad, pestint.ParamEstInterface_GradientSearch):
    pass


class LinNum(_PL, pestint.ParamEstBaseNumeric, pestint.ParamEstInterface):
    pass


def lin_spec(rng, want=None, npar=None, hooks=0.5):
    n, k = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2]))
    s = Par(rng, npar or int(rng.choice([1, 2, 3])), dict(A=(n, n), f=(n, 1), Q=(n, n), C=(k, n), h=(k, 1), R=(k, k), z0=(n, 1), P0=(n, n)), ('Q', 'R', 'P0'), want, hooks)
    s.lz, s.ly = n, k
    s.dyn['z0'] = s.dyn['P0'] = False
    for a in ('X0', 'D', 'E'):
        getattr(s, a)['A'] = getattr(s, a)['A'] * 0.5
    return s.whole(rng)


class _PM(object):
    """mixed model with parameters"""

    def __init__(self, s, rng, **kw):
        self.s = s
        self.zeros = bool(rng.rand() < 0.3)
        self.col = bool(rng.rand() < 0.3)
        self.tried = []
        p = np.zeros(s.np)
        self.params = p
        c = {a: s.const(a, p) for a in ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'C', 'h', 'R') if not s.isdyn(a)}
        if s.cross and not s.isdyn('Qxiz'):
            c['Qxiz'] = s.const('Qxiz', p)
        super(_PM, self).__init__(xi0=s.X0['xi0'], z0=s.X0['z0'], Pxi0=s.X0['Pxi0'], Pz0=s.X0['Pz0'], **dict(c, **kw))
        _nograd(self, s, rng)

    def set_params(self, params):
        s = self.s
        self.tried.append(np.array(params, dtype=float).ravel())
        if self.col:
            super(_PM, self).set_params(params)
        else:
            self.params = np.array(params, dtype=float).reshape(-1)
        self.xi0, self.z0 = s.val('xi0', params), s.val('z0', params)
        self.Pxi0, self.Pz0 = s.val('Pxi0', params), s.val('Pz0', params)
        c = {a: s.const(a, params) for a in ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'C', 'h', 'R') if not s.isdyn(a)}
        if s.cross and not s.isdyn('Qxiz'):
            c['Qxiz'] = s.const('Qxiz', params)
        self.set_dynamics(**c)

    def _d(self, names, particles, u, t):
        return tuple(np.array([self.s.part(a, self.params, (p[:self.s.lxi], u, ti(t))) for p in particles]) if self.s.isdyn(a) else None for a in names)

    def _g(self, names, particles, u, t):
        s = self.s
        return tuple(np.array([s.grad(a, self.params, (p[:s.lxi], u, ti(t))) for p in particles]) if (s.dep[a] or self.zeros) else None for a in names)

    def get_nonlin_pred_dynamics(self, particles, u, t):
        return self._d(('Axi', 'fxi', 'Qxi'), particles, u, t)

    def get_lin_pred_dynamics(self, particles, u, t):
        return self._d(('Az', 'fz', 'Qz'), particles, u, t)

    def get_cross_covariance(self, particles, u, t):
        return self._d(('Qxiz',), particles, u, t)[0] if self.s.cross else None

    def get_meas_dynamics(self, particles, y, t):
        y = None if y is None else self.s.proc(y)
        return (y,) + self._d(('C', 'h', 'R'), particles, None, t)

    def get_pred_dynamics_grad(self, particles, u, t):
        return self._g(('A', 'f', 'Q'), particles, u, t)

    def get_meas_dynamics_grad(self, particles, y, t):
        return self._g(('C', 'h', 'R'), particles, None, t)

    def get_rb_initial_grad(self, xi0):
        if not (self.s.dep['z0'] or self.s.dep['Pz0']) and self.zeros:
            return super(_PM, self).get_rb_initial_grad(xi0)
        return tuple(np.repeat(self.s.grad(a, self.params)[None], len(xi0), 0) for a in ('z0', 'Pz0'))

    def get_xi_intitial_grad(self, N):
        if not (self.s.dep['xi0'] or self.s.dep['Pxi0']) and self.zeros:
            return super(_PM, self).get_xi_intitial_grad(N)
        return tuple(np.repeat(self.s.grad(a, self.params)[None], N, 0) for a in ('xi0', 'Pxi0'))


class MixPar(Par):
    """joint matrices A, f, Q of nonlinear and linear part"""
    BLK = dict(Axi='A', Az='A', fxi='f', fz='f', Qxi='Q', Qz='Q', Qxiz='Q')

    def isdyn(self, a):
        return self.dyn[self.BLK.get(a, a)]

    def part(self, a, p, w):
        X = self.val(self.BLK.get(a, a), p, w)
        n = self.lxi
        return {'Axi': X[:n], 'Az': X[n:], 'fxi': X[:n], 'fz': X[n:], 'Qxi': X[:n, :n], 'Qz': X[n:, n:], 'Qxiz': X[:n, n:]}.get(a, X)

    def const(self, a, p):
        return self.part(a, p, None)


def mix_spec(rng, want=None, npar=None, hooks=0.5):
    n, m, k = int(rng.choice([1, 1, 2])), int(rng.choice([1, 2, 3])), int(rng.choice([1, 2]))
    d = n + m
    s = MixPar(rng, npar or int(rng.choice([1, 2, 3])), dict(A=(d, m), f=(d, 1), Q=(d, d), C=(k, m), h=(k, 1), R=(k, k), xi0=(n, 1), Pxi0=(n, n), z0=(m, 1), Pz0=(m, m)),
               ('Q', 'R', 'Pxi0', 'Pz0'), want, hooks)
    s.lxi, s.lz, s.ly = n, m, k
    s.cross = bool(rng.rand() < 0.6)
    if not s.cross:
        for X in (s.X0['Q'],):
            X[:n, n:] = 0
            X[n:, :n] = 0
        for X in (s.D['Q'], s.E['Q']):
            X[:, :n, n:] = 0
            X[:, n:, :n] = 0
    for a in ('xi0', 'Pxi0', 'z0', 'Pz0'):
        s.dyn[a] = False
    for a in ('X0', 'D', 'E'):
        getattr(s, a)['A'] = getattr(s, a)['A'] * 0.5
    return s.whole(rng)


class MixGrad(_PM, MixedNLGaussianSampledInitialGaussian, pestint.ParamEstBaseNumericGrad, pestint.ParamEstInterface_GradientSearch):
    pass


class MixNum(_PM, MixedNLGaussianSampledInitialGaussian, pestint.ParamEstBaseNumeric, pestint.ParamEstInterface):
    pass


class MargGrad(_PM, MixedNLGaussianMarginalizedInitialGaussian, pestint.ParamEstBaseNumericGrad, pestint.ParamEstInterface_GradientSearch):
    pass


class MargNum(_PM, MixedNLGaussianMarginalizedInitialGaussian, pestint.ParamEstBaseNumeric, pestint.ParamEstInterface):
    pass


# ---------------------------------------------------------- dense objectives
def enorm(mean, S, cov):
    """E log N(X; mean, S) - const for X with mean error `mean` and covariance"""
    e = np.ravel(mean)
    return -0.5 * (np.linalg.slogdet(S)[1] + np.trace(np.linalg.solve(S, np.outer(e, e) + cov)))


def rows(s, part):
    """(xi, z, P, M) of every smoothed particle"""
    n, m = getattr(s, 'lxi', 0), s.lz
    out = []
    for r in part:
        a = n + m
        out.append((r[:n], r[n:a], r[a:a + m * m].reshape(m, m), r[a + m * m:a + 2 * m * m].reshape(m, m) if len(r) >= a + 2 * m * m else None))
    return out


def ref_x0(s, part, p):
    out = []
    for xi, z, P, _ in rows(s, part):
        if hasattr(s, 'lxi'):
            v = enorm(xi - s.val('xi0', p).ravel(), s.val('Pxi0', p), 0.0) + enorm(z - s.val('z0', p).ravel(), s.val('Pz0', p), P)
        else:
            v = enorm(z - s.val('z0', p).ravel(), s.val('P0', p), P)
        out.append(v)
    return np.array(out)


def ref_xnext(s, part, nxt, u, t, p):
    out = []
    for (xi, z, P, M), (xin, zn, Pn, _) in zip(rows(s, part), rows(s, nxt)):
        w = (xi if len(xi) else None, u, t)
        A, f, Q = s.val('A', p, w), s.val('f', p, w).ravel(), s.val('Q', p, w)
        n, m = len(xi), len(z)
        # covariance of [xi', z'] - A z with Cov(z, z') = M
        L = np.zeros((n + m, 2 * m))
        L[:, :m] = -A
        L[n:, m:] += np.eye(m)
        J = np.block([[P, M], [M.T, Pn]])
        out.append(enorm(np.concatenate([xin, zn]) - A @ z - f, Q, L @ J @ L.T))
    return np.array(out)


def ref_y(s, part, y, t, p):
    out = []
    for xi, z, P, _ in rows(s, part):
        w = (xi if len(xi) else None, None, t)
        C, h, R = s.val('C', p, w), s.val('h', p, w).ravel(), s.val('R', p, w)
        out.append(enorm(np.ravel(y) - C @ z - h, R, C @ P @ C.T))
    return np.array(out)


def simulate(s, rng, T, p, miss=0.0):
    """data of the model at parameters p"""
    mixed = hasattr(s, 'lxi')
    n = s.lxi if mixed else 0
    ch = np.linalg.cholesky
    z = s.val('z0', p).ravel() + ch(s.val('Pz0' if mixed else 'P0', p)) @ rng.normal(size=s.lz)
    xi = s.val('xi0', p).ravel() + ch(s.val('Pxi0', p)) @ rng.normal(size=n) if mixed else None
    s.T = T
    s.u, s.y = [rng.normal(size=1) for _ in range(T)], []
    for t in range(T + 1):
        w = (xi, None, t)
        y = s.val('C', p, w) @ z + s.val('h', p, w).ravel() + ch(s.val('R', p, w)) @ rng.normal(size=s.ly)
        s.y.append(None if rng.rand() < miss else y)
        if t < T:
            w = (xi, s.u[t], t)
            x = s.val('A', p, w) @ z + s.val('f', p, w).ravel() + ch(s.val('Q', p, w)) @ rng.normal(size=n + s.lz)
            if mixed:
                xi = x[:n]
            z = x[n:]
    s.round_y(rng)


def rand_smoothed(rng, s, N, last=False):
    """random smoothed particles and successors with consistent covariances"""
    n, m = getattr(s, 'lxi', 0), s.lz
    a, b = np.zeros((N, n + m + 2 * m * m)), np.zeros((N, n + m + 2 * m * m))
    for i in range(N):
        J = spd(rng, 2 * m, 0.05, 2.0)
        a[i] = np.concatenate([rng.normal(size=n), rng.normal(size=m) * 2, J[:m, :m].ravel(), J[:m, m:].ravel()])
        b[i] = np.concatenate([rng.normal(size=n), rng.normal(size=m) * 2, J[m:, m:].ravel(), rng.normal(size=m * m)])
    return a, b


def run_smooth(s, model, N, M, mf, meth='full', pre=False):
    from pyparticleest.filter import ParticleTrajectory
    pt = ParticleTrajectory(model, N, **(dict(T=s.T + 1) if pre else {}))
    if mf:
        pt.measure(s.feed(0))
    for t in range(s.T):
        pt.forward(s.u[t], s.feed(t + 1))
    return pt.perform_smoothing(M, method=meth)
