"""Objective of the maximisation step and its maximisers."""
import numpy as np
from ..core import pick
import scipy.optimize as so
import pyparticleest.interfaces as inf
import pyparticleest.paramest.interfaces as pestint
from pyparticleest.filter import ParticleTrajectory
from ..pargen import *
from ..dense import *
from . import c17


# ------------------------------------------------------- values of the terms
def run_terms(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['lin', 'mix'][int(rng.rand() < 0.55)]
            s = (lin_spec if kind == 'lin' else mix_spec)(rng)
            grad = rng.rand() < 0.3
            s.prep = bool(rng.rand() < 0.3)
            m = ({'lin': LinGrad, 'mix': MixGrad} if grad else {'lin': LinNum, 'mix': MixNum})[kind](s, rng)
            N = pick(rng, [1, 2, 5], [20])
            c.note(kind=kind, dependent=[a for a in s.dep if s.dep[a]], hooks=[a for a in s.dyn if s.dyn[a]], N=N)
            part, nxt = rand_smoothed(rng, s, N)
            u, t, y = rng.normal(size=1), rng.randint(4), rng.normal(size=s.ly)
            ps = [s.point(rng), s.point(rng)]

            def diff(f):
                v = []
                for p in ps:
                    m.set_params(p)
                    v.append(float(np.sum(f(p))))
                return v[1] - v[0]
            for what, lib, ref in (('transition', lambda p: m.eval_logp_xnext(part, nxt, u, t), lambda p: ref_xnext(s, part, nxt, u, t, p)),
                                   ('measurement', lambda p: m.eval_logp_y(part, s.raw(y), t), lambda p: ref_y(s, part, y, t, p)),
                                   ('initial', lambda p: m.eval_logp_x0(part, 0.0), lambda p: ref_x0(s, part, p))):
                d = diff(ref)
                c.close(diff(lib), d, 'expected %s log-density: difference between two parameter values' % what, key='term:' + what, rtol=1e-7, atol=1e-6 * max(1, abs(d)))
                ctx.count('terms_compared')
            # whole trajectories
            T = pick(rng, [1, 2, 4], [12])
            mf = bool(rng.rand() < 0.5)
            simulate(s, rng, T, ps[0], miss=float(rng.choice([0, 0.4])))
            if not mf:
                s.y[0] = None
            m.set_params(ps[0])
            M = 1 if kind == 'lin' and rng.rand() < 0.5 else pick(rng, [2, 3], [12])
            st = run_smooth(s, m, 1 if kind == 'lin' else 5, M, mf, pre=rng.rand() < 0.3)
            est = np.array([x.pa.part for x in st.traj])
            c.note(T=T, M=M, meas_first=mf, missing=[k for k in range(T + 1) if s.y[k] is None])
            uu, yy, tt = s.u, s.y, list(range(T + 1))
            for what, lib, ref in (('transition', lambda p: m.eval_logp_xnext_fulltraj(st, st.u, st.t), lambda p: sum(ref_xnext(s, est[k], est[k + 1], uu[k], k, p).mean() for k in range(T))),
                                   ('measurement', lambda p: m.eval_logp_y_fulltraj(st, st.y, st.t), lambda p: sum(ref_y(s, est[k], yy[k], k, p).mean() for k in range(T + 1) if yy[k] is not None)),
                                   ('initial', lambda p: np.mean(m.eval_logp_x0(st.traj[0].pa.part, st.t[0])), lambda p: ref_x0(s, est[0], p).mean())):
                d = diff(ref)
                c.close(diff(lib), d, 'expected %s log-density over trajectories: difference between two parameter values' % what, key='traj:' + what, rtol=1e-7, atol=1e-6 * max(1, abs(d)))
                ctx.count('trajectory_terms_compared')
            if kind == 'mix':
                c.check(all(np.array_equal(a[:, :s.lxi], b.pa.part[:, :s.lxi]) for a, b in zip(est, st.traj)), 'evaluation modified the trajectories', 'mut')
            ctx.distinct(kind, tuple(a for a in s.dep if s.dep[a]), tuple(a for a in s.dyn if s.dyn[a]), N, M, T, mf)


class NLGEst(c17.Model, pestint.ParamEstBaseNumeric, pestint.ParamEstInterface):
    """nonlinear Gaussian model, densities through the default evaluations"""


def run_nlg(ctx, n=80):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            s = c17.Spec(rng)
            if s.initmode == 'zero':
                s.initmode = 'gauss'
            m = NLGEst(s, rng)
            T, N, M = pick(rng, [1, 3], [10]), 8, pick(rng, [1, 3], [12])
            mf = bool(rng.rand() < 0.5)
            u = [rng.normal(size=1) for _ in range(T)]
            y = [rng.normal(size=s.ly) if rng.rand() < 0.7 else None for _ in range(T + 1)]
            if not mf:
                y[0] = None
            c.note(f=s.fmode, g=s.gmode, Q=s.qmode, R=s.rmode, T=T, M=M)
            pt = ParticleTrajectory(m, N)
            if mf:
                pt.measure(y[0])
            for t in range(T):
                pt.forward(u[t], y[t + 1])
            st = pt.perform_smoothing(M, method='full')
            x = [k.pa.part for k in st.traj]
            want = 0.0
            for t in range(T):
                f, Q = s.f(x[t], u[t], t), s.Qx(x[t], u[t], t)
                want += np.mean([logpdf(x[t + 1][j] - f[j], Q[j]) for j in range(M)])
            c.close(m.eval_logp_xnext_fulltraj(st, st.u, st.t), want, 'transition log-densities summed over time and averaged over trajectories', key='nlg-x', rtol=1e-8, atol=1e-8)
            want = 0.0
            for t in range(T + 1):
                if y[t] is not None:
                    g, R = s.g(x[t], t), s.Rx(x[t], t)
                    want += np.mean([logpdf(y[t] - g[j], R[j]) for j in range(M)])
            c.close(m.eval_logp_y_fulltraj(st, st.y, st.t), want, 'measurement log-densities summed over time and averaged over trajectories', key='nlg-y', rtol=1e-8, atol=1e-8)
            c.close(np.ravel(m.eval_logp_x0(x[0], 0.0)), [logpdf(v - s.x0, s.P0) for v in x[0]], 'initial log-density', key='nlg-x0', rtol=1e-8, atol=1e-8)
            ctx.count('nlg_objectives')


# ----------------------------------------------------------------- maximisers
class Walk(inf.ParticleFiltering, inf.FFBSi):
    """random walk whose expected log-likelihood terms are quadratic in the
    parameters: -w/2 (b.theta - c)^2 with w, b, c depending on the term"""

    def __init__(self, rng, npar, out, bounds=None, **kw):
        self.npar, self.out = npar, out
        self.b = {k: rng.normal(size=(20, npar)) for k in 'ixy'}
        self.tried = []
        super(Walk, self).__init__(**dict(kw, **({} if bounds is None else dict(param_bounds=bounds))))

    def create_initial_estimate(self, N):
        return np.random.normal(size=(N, 1))

    def sample_process_noise(self, particles, u, t):
        return np.random.normal(size=(len(particles), 1))

    def update(self, particles, u, t, noise):
        return particles + noise + (0 if u is None else u)

    def measure(self, particles, y, t):
        return (-0.5 * (particles[:, 0] - y) ** 2).ravel()

    def logp_xnext(self, particles, next_part, u, t):
        return -0.5 * (next_part[:, 0] - particles[:, 0] - (0 if u is None else u)) ** 2

    def logp_xnext_max(self, particles, u, t):
        return 0.0

    def set_params(self, params):
        self.tried.append(np.array(params, dtype=float).ravel())
        self.params = np.array(params, dtype=float)

    # terms: (weights, targets)
    def q(self, k, t, tgt, w):
        b = self.b[k][t]
        r = np.ravel(self.params) @ b - np.asarray(tgt)
        w = np.broadcast_to(w, r.shape)
        v, g = -0.5 * w * r ** 2, -np.sum((w * r)[:, None] * b, axis=0)
        return (v if self.out == 'array' else np.sum(v)), g

    def t_i(self, x, t):
        return self.q('i', int(t), 2 * x[:, 0], 1.0 + 0.3 * np.cos(x[:, 0]))

    def t_x(self, x, xn, u, t):
        return self.q('x', int(t), xn[:, 0] - 0.5 * x[:, 0] + 3 * float(np.ravel(u)[0]), 1.0 + 0.3 * np.cos(x[:, 0]) ** 2)

    def t_y(self, x, y, t):
        return self.q('y', int(t), x[:, 0] + 2 * float(np.ravel(y)[0]), 0.7 + 0.3 * np.cos(x[:, 0]))

    def eval_logp_x0(self, particles, t):
        r = self.t_i(particles, t)[0]
        return r if self.out == 'array' else r / len(particles)

    def eval_logp_xnext(self, particles, particles_next, u, t):
        return self.t_x(particles, particles_next, u, t)[0]

    def eval_logp_y(self, particles, y, t):
        return self.t_y(particles, y, t)[0]

    def eval_logp_x0_val_grad(self, particles, t):
        v, g = self.t_i(particles, t)
        n = len(particles)
        return (v if self.out == 'array' else v / n), g / n

    def eval_logp_xnext_val_grad(self, particles, particles_next, u, t):
        return self.t_x(particles, particles_next, u, t)

    def eval_logp_y_val_grad(self, particles, y, t):
        return self.t_y(particles, y, t)


class WalkNum(Walk, pestint.ParamEstBaseNumeric, pestint.ParamEstInterface):
    pass


class WalkGrad(Walk, pestint.ParamEstBaseNumericGrad, pestint.ParamEstInterface_GradientSearch):
    pass


def run_quad(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            k = int(rng.choice([1, 1, 2]))
            bounds = None
            if rng.rand() < 0.5:
                bounds = [tuple(x if rng.rand() < 0.75 else None for x in (-rng.uniform(0.1, 2), rng.uniform(0.1, 2))) for _ in range(k)]
            late = rng.rand() < 0.5
            cls = [WalkNum, WalkGrad][c.idx % 2]
            m = cls(rng, k, 'array' if rng.rand() < 0.7 else 'sum', bounds=None if late else bounds)
            # bounds replaced (or withdrawn) later count, earlier ones do not
            again = rng.rand() < 0.3
            if again:
                for _ in range(rng.randint(1, 3)):
                    a = rng.normal(size=k)
                    m.set_param_bounds([(v, v + rng.uniform(0.01, 1)) for v in a])
            if again or late and bounds is not None:
                m.set_param_bounds(bounds)
            T, M = pick(rng, [0, 1, 2, 5], [15]), pick(rng, [1, 2, 5], [25])
            mf = bool(rng.rand() < 0.5) or T == 0
            y = [rng.normal() if rng.rand() < 0.75 else None for _ in range(T + 1)]
            u = [rng.normal() for _ in range(T)]
            if not mf:
                y[0] = None
            pt = ParticleTrajectory(m, 6)
            if mf:
                pt.measure(y[0])
            for t in range(T):
                pt.forward(u[t], y[t + 1])
            st = pt.perform_smoothing(M, method=['full', 'ancestor'][rng.randint(2)])
            lo = np.array([-1e9 if bounds is None or b[0] is None else b[0] for b in (bounds or [0] * k)])
            hi = np.array([1e9 if bounds is None or b[1] is None else b[1] for b in (bounds or [0] * k)])
            p0 = np.clip(rng.normal(size=k), lo, hi)
            m.set_params(p0.reshape((-1, 1)) if rng.rand() < 0.3 else p0)
            m.tried = []
            x = [s.pa.part for s in st.traj]
            c.note(cls=cls.__name__, npar=k, bounds=bounds, T=T, M=M, meas_first=mf, missing=[t for t in range(T + 1) if y[t] is None], out=m.out)

            # weighted least squares form of the documented objective
            B, d, w = [], [], []
            def addterm(b, tgt, ww):
                for a, e in zip(np.ravel(tgt), np.broadcast_to(ww, np.shape(np.ravel(tgt)))):
                    B.append(b)
                    d.append(a)
                    w.append(e / M)
            addterm(m.b['i'][0], 2 * x[0][:, 0], 1.0 + 0.3 * np.cos(x[0][:, 0]))
            for t in range(T):
                addterm(m.b['x'][t], x[t + 1][:, 0] - 0.5 * x[t][:, 0] + 3 * u[t], 1.0 + 0.3 * np.cos(x[t][:, 0]) ** 2)
            for t in range(T + 1):
                if y[t] is not None:
                    addterm(m.b['y'][t], x[t][:, 0] + 2 * y[t], 0.7 + 0.3 * np.cos(x[t][:, 0]))
            B, d, w = np.array(B), np.array(d), np.array(w)

            def J(p):
                return -0.5 * np.sum(w * (B @ np.ravel(p) - d) ** 2)
            r = np.sqrt(w)
            best = so.lsq_linear(B * r[:, None], d * r, bounds=(lo - 1e-12, hi + 1e-12)).x
            got = np.asarray(m.maximize(st), dtype=float)
            tried = list(m.tried)
            c.check(got.shape == (k,), 'maximiser did not return a parameter vector', 'shape', shape=got.shape)
            c.check(np.all(got >= lo) and np.all(got <= hi), 'maximiser returned parameters outside the bounds', 'bounds', got=got)
            c.check(J(got) >= J(p0) - 1e-9 * (1 + abs(J(p0))), 'maximiser returned a lower objective than that of the current parameters', 'worse', start=J(p0), end=J(got))
            H = B.T @ (B * w[:, None])
            if np.linalg.cond(H) < 300:
                gap = J(best) - J(got)
                c.check(gap <= 2e-3 * (J(best) - J(p0)) + 1e-6 * (1 + abs(J(best))), 'maximiser does not maximise the average over trajectories of the summed log-densities', 'argmax', best=best, got=got, start=p0, gap=gap)
                ctx.count('maxima_compared')
            c.check(any(np.allclose(q, p0, rtol=1e-9, atol=1e-12) for q in tried), 'maximiser does not start from the current parameters', 'start', first=tried[:1], current=p0)
            c.check(all(np.all(q >= lo - 1e-7) and np.all(q <= hi + 1e-7) for q in tried), 'objective evaluated at parameters outside the bounds', 'bounds-eval')
            ctx.distinct(cls.__name__, k, str(bounds), T, M, mf, m.out)


def run_models(ctx, n=60):
    """built-in models: objective of the returned parameters, computed
    independently, is never below that of the current ones"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['lin', 'mix', 'marg'][int(rng.choice(3, p=[0.5, 0.3, 0.2]))]
            npar = int(rng.choice([1, 2]))
            s = (lin_spec if kind == 'lin' else mix_spec)(rng, None, npar)
            num = rng.rand() < 0.3
            s.prep = bool(rng.rand() < 0.3)
            cls = {'lin': (LinGrad, LinNum), 'mix': (MixGrad, MixNum), 'marg': (MargGrad, MargNum)}[kind][int(num)]
            m = cls(s, rng)
            bounds = [(-0.9, 0.9)] * npar
            m.set_param_bounds(bounds)
            T = int(rng.choice([2, 4]))
            simulate(s, rng, T, s.point(rng), miss=float(rng.choice([0, 0.3])))
            mf = bool(rng.rand() < 0.5)
            if not mf:
                s.y[0] = None
            p0 = s.point(rng)
            m.set_params(p0)
            M = 1 if kind == 'lin' else 3
            st = run_smooth(s, m, 1 if kind == 'lin' else 5, M, mf)
            est = np.array([x.pa.part for x in st.traj])

            def J(p):
                return ref_x0(s, est[0], p).mean() + sum(ref_xnext(s, est[k], est[k + 1], s.u[k], k, p).mean() for k in range(T)) + \
                    sum(ref_y(s, est[k], s.y[k], k, p).mean() for k in range(T + 1) if s.y[k] is not None)
            c.note(kind=cls.__name__, npar=npar, T=T, dependent=[a for a in s.dep if s.dep[a]])
            m.set_params(p0)
            m.tried = []
            got = np.asarray(m.maximize(st), dtype=float)
            j0, j1 = J(p0), J(got)
            c.check(got.shape == (npar,) and np.all(np.abs(got) <= 0.9), 'maximiser returned parameters outside the bounds', 'bounds', got=got)
            c.check(j1 >= j0 - 1e-7 * (1 + abs(j0)), 'maximiser returned a lower expected log-likelihood than the current parameters have', 'worse', start=j0, end=j1)
            c.check(any(np.allclose(q, p0, rtol=1e-9, atol=1e-12) for q in m.tried), 'maximiser does not start from the current parameters', 'start')
            # must make use of an obvious ascent direction
            g = np.array([(J(p0 + e) - J(p0 - e)) / 2e-5 for e in np.eye(npar) * 1e-5])
            free = np.where(np.abs(p0) < 0.85, np.abs(g), 0).max()
            if free > 1.0:
                c.check(j1 > j0 + 1e-4, 'maximiser stays at parameters with a large gradient', 'stuck', gradient=g, start=j0, end=j1)
            ctx.count('model_maximisations')
            ctx.distinct(cls.__name__, npar, T, mf)
