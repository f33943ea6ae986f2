"""Joint distribution tests: states and data are drawn from a random model, the
library turns the data (and possibly the true path) into a new path.  If it
does what it should, the new path has the same joint distribution with the data
as the true one, so that all innovations of path and data are independent
standard normal variables, whatever the model is."""
import math
import numpy as np
from scipy.stats import norm, chi2
from .dense import *
from . import mlgen
from .checks import c17
from pyparticleest.filter import ParticleTrajectory


def wh(S, d):
    """whitened, with signs such that a wrong correlation has the same effect
    on the product of the first components whatever the sign of it is"""
    r = np.linalg.solve(np.linalg.cholesky(S), np.ravel(d))
    if len(r) > 1 and S[0, 1] < 0:
        r[1] = -r[1]
    return r


def corr(rng, n):
    """strongly correlated covariance"""
    a = np.eye(n) + np.tril(rng.uniform(0.8, 2.0, size=(n, n)) * rng.choice([-1.0, 1.0], size=(n, n)), -1)
    return 0.5 * a @ a.T


class Nlg(object):
    kind = 'nlg'

    def __init__(self, rng, T):
        s = self.s = c17.Spec(rng)
        if rng.rand() < 0.5:
            s.Q, s.Q2 = corr(rng, s.lx), 0.3 * corr(rng, s.lx)
        if rng.rand() < 0.5:
            s.R, s.R2 = corr(rng, s.ly), 0.3 * corr(rng, s.ly)
        # systematic growth or decay, so that mixed up times add up over models
        s.trend = {a: float(rng.choice([-0.7, 0.0, 0.7])) for a in 'QR'}
        self.T, self.model = T, c17.Model(s, rng)
        self.lxi = s.lx
        s.P0_ = np.zeros_like(s.P0) if s.initmode == 'zero' else s.P0
        # moderately informative, so that samplers mix
        s.R *= float(rng.choice([1.0, 4.0]))
        if s.stored('R'):
            self.model.set_R(s.R)

    def simulate(self, rng, ymiss, mf):
        s = self.s
        self.u = [rng.normal(size=1) for _ in range(self.T)]
        root = lambda P: np.linalg.cholesky(P) if P.any() else P
        x = np.ravel(s.x0) + root(s.P0_) @ rng.normal(size=s.lx)
        self.path, self.y = [x], []
        for t in range(self.T + 1):
            x = self.path[t]
            y = s.g(x[None], t)[0] + np.linalg.cholesky(s.Rx(x[None], t)[0]) @ rng.normal(size=s.ly)
            self.y.append(None if rng.rand() < ymiss or (t == 0 and not mf) else y.reshape(-1, 1))
            if t < self.T:
                self.path.append(s.f(x[None], self.u[t], t)[0] + np.linalg.cholesky(s.Qx(x[None], self.u[t], t)[0]) @ rng.normal(size=s.lx))

    def tags(self):
        s = self.s
        how = {0: 'steady', 1: 'growing', -1: 'shrinking'}
        return ['nlg: %s %s' % (a, how[int(np.sign(s.trend[a]))]) for a in 'QR' if getattr(s, a.lower() + 'mode') == 'calc'] + ['nlg: Q %s, %s' % (s.qmode, 'one state' if s.lx == 1 else 'several states'), 'nlg: R %s, %s' % (s.rmode, 'scalar' if s.ly == 1 else 'vector')]

    def white(self, path):
        """initial, transition and measurement innovations of a path"""
        s = self.s
        v0 = wh(s.P0_, path[0] - np.ravel(s.x0)) if s.P0_.any() else np.zeros(0)
        v = [wh(s.Qx(path[t][None], self.u[t], t)[0], path[t + 1] - s.f(path[t][None], self.u[t], t)[0]) for t in range(self.T)]
        e = [None if y is None else wh(s.Rx(path[t][None], t)[0], y.ravel() - s.g(path[t][None], t)[0]) for t, y in enumerate(self.y)]
        return v0, v, e


class _Split(mlgen.Hier):
    """first measured value depends on the nonlinear state only"""

    def measure_nonlin(self, particles, y, t):
        s = self.s
        return np.array([-2.0 * (y[0] - s.nlmean(p[:s.lxi], mlgen.ti(t))) ** 2 for p in particles])

    def get_lin_meas_dynamics(self, particles, y, t):
        return super(_Split, self).get_lin_meas_dynamics(particles, y[1:], t)


class _HSpec(mlgen.Mix):
    def nlmean(self, xi, t):
        return math.cos(float(self.hW @ np.ravel(xi))) + 0.1 * t


class Mixed(object):
    cls = mlgen.Mixed

    def __init__(self, rng, T, kind='mixed'):
        self.kind = kind
        hier = kind == 'hier'
        s = self.s = (_HSpec if hier else mlgen.Mix)(rng, T, hier=hier, lz=int(rng.choice([1, 2])), ly=int(rng.choice([1, 2])))
        s.trend = {'Qxi': float(rng.choice([0.0, 0.4])), 'Qz': float(rng.choice([0.0, 0.4])), 'R': float(rng.choice([-0.7, 0.0, 0.7]))}
        self.T, self.lxi, self.hier = T, s.lxi, hier
        self.model = dict(mixed=mlgen.Mixed, hier=_Split, marg=mlgen.Marg)[kind](s)

    def simulate(self, rng, ymiss, mf):
        s = self.s
        s.simulate(rng, ymiss=ymiss)
        if not mf:
            s.y[0] = None
        self.u, self.path = s.u, s.xipath
        self.y = [s.feed(t) for t in range(self.T + 1)]
        if self.hier:
            self.y = [None if y is None else np.concatenate([[s.nlmean(self.path[t], t) + 0.5 * rng.normal()], np.ravel(y)]) for t, y in enumerate(s.y)]

    def tags(self):
        s = self.s
        return ['%s: %s %s' % (self.kind, a, 'steady' if s.trend[a] == 0 else 'growing' if s.trend[a] > 0 else 'shrinking') for a in sorted(s.trend) if s.mode[a] == 'calc'] + ['%s: correlation %s' % (self.kind, s.cross), '%s: %d and %d states' % (self.kind, s.lxi, s.lz)]

    def white(self, path):
        s = self.s
        j = s.joint(path)
        v0 = wh(s.Pxi0, path[0] - s.xi0)
        v, e, obs = [], [], {}
        for t in range(self.T + 1):
            if s.y[t] is None:
                e.append(None)
            else:
                q = j.cond(obs)
                r = wh(q.cov('y%d' % t), np.ravel(s.y[t]) - q.mean('y%d' % t).ravel())
                if self.hier:
                    r = np.concatenate([[(self.y[t][0] - s.nlmean(path[t], t)) / 0.5], r])
                e.append(r)
                obs['y%d' % t] = s.y[t]
            if t < self.T:
                if self.hier:
                    v.append(wh(s.Q[:s.lxi, :s.lxi], path[t + 1] - s.hf(path[t], s.u[t], t)))
                else:
                    q = j.cond(obs)
                    v.append(wh(q.cov('xi%d' % (t + 1)), path[t + 1] - q.mean('xi%d' % (t + 1)).ravel()))
                    obs['xi%d' % (t + 1)] = path[t + 1]
        return v0, v, e


def make(kind, rng, T):
    return Nlg(rng, T) if kind == 'nlg' else Mixed(rng, T, kind)


def run(j, N, mf, filt='pf', options=None, res=0.67, pre=False):
    kw = dict(T=j.T + 1) if pre else {}
    pt = ParticleTrajectory(j.model, N, resample=res, filter=filt, filter_options=options or {}, **kw)
    if mf:
        pt.measure(j.y[0])
    for t in range(j.T):
        pt.forward(j.u[t], j.y[t + 1])
    return pt


class Pool(object):
    """innovations of many runs, by label and kind of innovation"""

    def __init__(self):
        self.z, self.prod = {}, {}

    def add(self, label, j, path):
        inn = j.white(path)
        for lab in [label] + j.tags():
            self._add(lab, *inn)

    def _add(self, label, v0, v, e):
        for nm, r in [('initial', v0)] + [('transition', a) for a in v] + [('measurement', a) for a in e if a is not None]:
            self.z.setdefault((label, nm), []).extend(np.ravel(r).tolist())
            if len(r) > 1:
                self.prod.setdefault((label, 'components of the ' + nm), []).append(float(r[0] * r[1]))
        seq = [v0] + list(v)
        for t in range(len(seq)):
            for nm, o in (('state and measurement', e[t]), ('consecutive states', seq[t + 1] if t + 1 < len(seq) else None), ('state and next measurement', e[t + 1] if t + 1 < len(e) else None)):
                if o is not None and len(seq[t]) and len(o):
                    self.prod.setdefault((label, nm), []).append(float(seq[t][0] * o[0]))

    def judge(self, c, minimum=300, bias=0.0):
        """all innovations are standard normal and uncorrelated; deviations of
        size up to bias are tolerated"""
        from .core import P_REJECT
        lim = -norm.ppf(P_REJECT / 2)
        for (label, nm), z in sorted(self.z.items()):
            z = np.array(z)
            n = len(z)
            if n < minimum:
                continue
            c.ctx.count('innovations', n)
            m, s2 = z.mean(), np.mean(z * z) - 1
            c.check(abs(m) <= bias + lim / np.sqrt(n), '%s: %s innovations have mean %.3g' % (label, nm, m), 'mean:%s:%s' % (label, nm), n=n)
            c.check(abs(s2) <= 2 * bias + lim * np.sqrt(2.0 / n) * (1 + lim / np.sqrt(n)), '%s: %s innovations have variance %.3g' % (label, nm, 1 + s2), 'var:%s:%s' % (label, nm), n=n)
            d = np.max(np.abs(np.sort(norm.cdf(z)) - (np.arange(n) + 0.5) / n))
            c.check(d <= 0.5 * bias + np.sqrt(-np.log(P_REJECT / 2) / 2 / n) + 1.0 / n, '%s: %s innovations are not normal (KS distance %.3g)' % (label, nm, d), 'ks:%s:%s' % (label, nm), n=n)
        for (label, nm), p in sorted(self.prod.items()):
            n = len(p)
            if n < minimum:
                continue
            m = np.mean(p)
            c.check(abs(m) <= bias + 1.3 * lim / np.sqrt(n), '%s: innovations of %s are correlated (%.3g)' % (label, nm, m), 'corr:%s:%s' % (label, nm), n=n)
