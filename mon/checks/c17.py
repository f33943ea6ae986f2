"""Nonlinear Gaussian models: densities and sampling agree with the
specification."""
import numpy as np
from ..core import pick, bare
from scipy.stats import norm as N01, chi2
from pyparticleest.models.nlg import NonlinearGaussianInitialGaussian, NonlinearGaussian
from ..dense import *
from ..core import P_REJECT


class Spec(object):
    trend = {'Q': 0.0, 'R': 0.0}        # growth of the varying covariances with time

    def __init__(self, rng):
        self.lx = lx = int(rng.choice([1, 2, 3]))
        self.ly = ly = int(rng.choice([1, 2, 3]))
        self.W, self.b, self.V = rng.normal(size=(lx, lx)), rng.normal(size=lx), rng.normal(size=(ly, lx))
        self.Q, self.R, self.P0 = spd(rng, lx, 0.05, 4), spd(rng, ly, 0.05, 4), spd(rng, lx, 0.05, 4)
        self.x0 = rng.normal(size=lx)
        # terms depending on the state change in size and shape
        self.Q2, self.R2 = spd(rng, lx, 0.05, 4), spd(rng, ly, 0.05, 4)
        if rng.rand() < 0.3:
            self.Q2, self.R2 = 0 * self.Q2, 0 * self.R2
        self.fmode = rng.choice(['calc', 'calc', 'const']).item()
        self.gmode = rng.choice(['calc', 'calc', 'const']).item()
        self.qmode = rng.choice(['const', 'calc', 'set']).item()
        self.rmode = rng.choice(['const', 'calc', 'set']).item()
        self.initmode = rng.choice(['gauss', 'gauss', 'zero', 'nox0', 'lxi']).item()
        self.fc, self.gc = rng.normal(size=lx), rng.normal(size=ly)
        self.gshape = int(rng.randint(2))
        # steps (modulo 3) for which varying terms are left out, so that the stored value applies
        self.bare = rng.rand() < 0.3
        some = rng.rand() < 0.25
        self.skip = {a: set(k for k in range(3) if some and rng.rand() < 0.5) for a in 'fgQR'}
        # covariances that are equal for groups of particles
        self.coarse = bool(rng.rand() < 0.25)

    def calc(self, a, t):
        return getattr(self, a.lower() + 'mode') == 'calc' and int(round(float(np.ravel(t)[0]))) % 3 not in self.skip[a]

    def stored(self, a):
        return getattr(self, a.lower() + 'mode') != 'calc' or bool(self.skip[a])

    def f(self, x, u, t):
        if not self.calc('f', t):
            return np.tile(self.fc, (len(x), 1))
        uu = 0.0 if u is None else float(np.ravel(u)[0])
        return np.sin(x @ self.W.T) + self.b * np.cos(t) + uu

    def g(self, x, t):
        if not self.calc('g', t):
            return np.tile(self.gc, (len(x), 1))
        return np.cos(x @ self.V.T) + 0.3 * t

    def Qx(self, x, u, t):
        if not self.calc('Q', t):
            return np.tile(self.Q, (len(x), 1, 1))
        x = np.floor(x) if self.coarse else x
        s = 0.5 + np.abs(np.sin(x[:, 0] + t + (0 if u is None else float(np.ravel(u)[0]))))
        return np.exp(self.trend['Q'] * t) * (s[:, None, None] * self.Q[None] + (np.cos(x[:, -1] + 0.3 * t) ** 2)[:, None, None] * self.Q2[None])

    def Rx(self, x, t):
        if not self.calc('R', t):
            return np.tile(self.R, (len(x), 1, 1))
        x = np.floor(x) if self.coarse else x
        s = 0.5 + np.abs(np.cos(x[:, 0] + t))
        return np.exp(self.trend['R'] * t) * (s[:, None, None] * self.R[None] + (np.sin(x[:, -1] + 0.3 * t) ** 2)[:, None, None] * self.R2[None])


class Model(NonlinearGaussianInitialGaussian):
    def __init__(self, s, rng):
        self.s = s
        kw = {}
        if s.stored('f'):
            kw['f'] = [s.fc, s.fc.reshape(1, -1), s.fc.reshape(-1, 1), s.fc.tolist()][rng.randint(4)]
        if s.stored('g'):
            kw['g'] = [s.gc, s.gc.reshape(1, -1), s.gc.reshape(-1, 1), s.gc.tolist()][rng.randint(4)]
        if s.stored('Q'):
            kw['Q'] = s.Q if s.qmode != 'set' else np.eye(s.lx)
        if s.stored('R'):
            kw['R'] = s.R if s.rmode != 'set' else np.eye(s.ly)
        for a in kw:
            if a in 'QR' and rng.rand() < 0.3:
                kw[a] = kw[a].tolist()
        if s.initmode in ('gauss', 'zero') and rng.rand() < 0.3:
            # whole numbers, as users write them
            s.x0 = np.round(2 * s.x0).astype(int)
        x0 = s.x0 if rng.rand() < 0.5 else s.x0.reshape(-1, 1)
        if rng.rand() < 0.3:
            x0 = x0.tolist()
        if s.initmode == 'gauss':
            super(Model, self).__init__(x0=x0, Px0=s.P0 if rng.rand() < 0.7 else s.P0.tolist(), **kw)
        elif s.initmode == 'zero':
            super(Model, self).__init__(x0=x0, **kw)
        elif s.initmode == 'nox0':
            super(Model, self).__init__(Px0=s.P0, **kw)
        else:
            super(Model, self).__init__(Px0=s.P0, lxi=s.lx, **kw)
        if s.initmode in ('nox0', 'lxi'):
            s.x0 = np.zeros(s.lx)
        if 'set' in (s.qmode, s.rmode) and rng.rand() < 0.5:
            # use the model before its covariances are replaced
            st = np.random.get_state()
            p = np.zeros((3, s.lx))
            self.update(np.copy(p), None, 0, self.sample_process_noise(p, None, 0))
            self.logp_xnext(p, p, None, 0)
            self.logp_xnext_max(p, None, 0)
            self.measure(p, np.zeros(s.ly), 0)
            np.random.set_state(st)
        if s.qmode == 'set':
            self.set_Q(s.Q)
        if s.rmode == 'set':
            self.set_R(s.R)
        if s.bare:
            bare(self, *['calc_' + a for a in 'fgQR' if getattr(s, a.lower() + 'mode') != 'calc'])

    def calc_f(self, particles, u, t):
        return self.s.f(particles, u, t) if self.s.calc('f', t) else None

    def calc_Q(self, particles, u, t):
        return self.s.Qx(particles, u, t) if self.s.calc('Q', t) else None

    def calc_g(self, particles, t):
        if not self.s.calc('g', t):
            return None
        g = self.s.g(particles, t)
        return g.reshape(len(g), -1, 1) if self.s.gshape else g

    def calc_R(self, particles, t):
        return self.s.Rx(particles, t) if self.s.calc('R', t) else None


def white(c, draws, S, what):
    """rows of draws are N(0,S[i]) (S one matrix or one per row)"""
    n, d = draws.shape
    S = np.broadcast_to(S, (n, d, d))
    if np.ptp(S, axis=0).any():
        w = np.linalg.solve(np.linalg.cholesky(S), draws[:, :, None])[:, :, 0]
    else:
        w = np.linalg.solve(np.linalg.cholesky(S[0]), draws.T).T
    dirs = [np.eye(d)[i] for i in range(d)]
    for i in range(d):
        for j in range(i):
            v = np.zeros(d)
            v[i], v[j] = 1, 1
            dirs.append(v / np.sqrt(2))
            v = v.copy()
            v[j] = -1
            dirs.append(v / np.sqrt(2))
    for v in dirs:
        a = w @ v
        z = a.mean() * np.sqrt(n)
        c.check(2 * N01.sf(abs(z)) > P_REJECT, what + ': mean of the draws is wrong', 'mean:' + what, z=z)
        q = np.sum(a ** 2)
        p = 2 * min(chi2.sf(q, n), chi2.cdf(q, n))
        c.check(p > P_REJECT, what + ': covariance of the draws is wrong', 'cov:' + what, direction=v, variance=q / n)


def run_main(ctx, n=60, ndraws=20000):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            s = Spec(rng)
            m = Model(s, rng)
            c.note(lx=s.lx, ly=s.ly, f=s.fmode, g=s.gmode, Q=s.qmode, R=s.rmode, init=s.initmode)
            N = pick(rng, [1, 2, 9], [70])
            x, xn = rng.normal(size=(N, s.lx)), rng.normal(size=(N, s.lx))
            t = float(rng.randint(5))
            draws = ndraws if s.qmode != 'calc' else ndraws // 5
            u = rng.normal(size=1)
            y = rng.normal(size=s.ly)
            yy = y if rng.rand() < 0.5 else y.reshape(-1, 1)
            x0c, xnc = x.copy(), xn.copy()
            tol = dict(rtol=1e-8, atol=1e-8)
            f, Q, g, R = s.f(x, u, t), s.Qx(x, u, t), s.g(x, t), s.Rx(x, t)
            c.close(np.ravel(m.logp_xnext(x, xn, u, t)), [logpdf(xn[i] - f[i], Q[i]) for i in range(N)], 'transition density', key='lpx', **tol)
            # one next state broadcast against many particles, as the smoothers do
            one = np.tile(xn[:1], (N, 1))
            c.close(np.ravel(m.logp_xnext(x, one, u, t)), [logpdf(xn[0] - f[i], Q[i]) for i in range(N)], 'transition density', key='lpx', **tol)
            c.close(np.ravel(m.measure(x.copy(), yy, t)), [logpdf(y - g[i], R[i]) for i in range(N)], 'measurement density', key='lpy', **tol)
            fx = s.f(x, u, t)
            g1, R1 = s.g(fx, t + 1), s.Rx(fx, t + 1)
            c.close(np.ravel(m.eval_1st_stage_weights(x, u, yy, t)), [logpdf(y - g1[i], R1[i]) for i in range(N)], 'first stage weights', key='l1w', **tol)
            nz = rng.normal(size=(N, s.lx))
            c.close(m.update(x.copy(), u, t, nz), f + nz, 'update is not dynamics plus noise', key='update', **tol)
            bound = float(np.max(m.logp_xnext_max(x, u, t)))
            c.close(bound, max(logpdf(np.zeros(s.lx), q) for q in Q), 'maximum of the transition density', key='lpmax', **tol)
            if s.initmode == 'zero':
                init = m.create_initial_estimate(4)
                c.close(init, np.tile(s.x0, (4, 1)), 'initial particles differ from the known initial state', key='init0')
                off = np.where(np.arange(s.lx) == rng.randint(s.lx), rng.choice([1.0, -1e-3]), 0.0)
                lp = np.ravel(m.eval_logp_x0(np.vstack([init, init[:1] + off]), 0))
                c.check(np.all(np.isfinite(lp[:4])) and np.ptp(lp[:4]) == 0 and lp[4] == -np.inf, 'density of a known initial state', 'lpx0', lp=lp)
            else:
                c.close(np.ravel(m.eval_logp_x0(x, 0)), [logpdf(x[i] - s.x0, s.P0) for i in range(N)], 'initial density', key='lpx0', **tol)
                d0 = m.create_initial_estimate(draws)
                c.check(d0.shape == (draws, s.lx), 'shape of initial particles', 'init-shape')
                white(c, d0 - s.x0, s.P0, 'initial particles')
            xs = rng.normal(size=(draws, s.lx)) if s.qmode == 'calc' else np.tile(x[:1], (draws, 1))
            noise = m.sample_process_noise(xs, u, t)
            c.check(np.shape(noise) == (draws, s.lx), 'shape of process noise', 'noise-shape')
            white(c, noise, s.Qx(xs, u, t), 'process noise')
            # smoothing proposal: drawn from the density it is scored with
            from pyparticleest.filter import ParticleApproximation, TrajectoryStep
            past = rng.normal(size=(3, s.lx))
            pt = [TrajectoryStep(ParticleApproximation(past), np.arange(3))]
            anc = np.asarray(rng.randint(3, size=draws))
            ut, tt, yt = [u, None], [t, t + 1], [None, None]
            pr = m.propose_smooth(ptraj=pt, anc=anc, future_trajs=None, find=np.arange(draws), yt=yt, ut=ut, tt=tt, cur_ind=1)
            pa = past[anc]
            fa, Qa = s.f(pa, u, t), s.Qx(pa, u, t)
            white(c, pr - fa, Qa, 'smoothing proposal')
            k = 20
            lq = m.logp_proposal(prop_part=pr[:k], ptraj=pt, anc=anc[:k], future_trajs=None, find=np.arange(k), yt=yt, ut=ut, tt=tt, cur_ind=1)
            c.close(np.ravel(lq), [logpdf(pr[i] - fa[i], Qa[i]) for i in range(k)], 'proposal density', key='lq', **tol)
            c.check(np.array_equal(past, pt[0].pa.part), 'proposing altered the past', 'prop-mut')
            p0 = m.propose_smooth(ptraj=None, anc=None, future_trajs=None, find=np.arange(k), yt=yt, ut=ut, tt=tt, cur_ind=0)
            c.check(p0.shape == (k, s.lx), 'initial proposal has wrong shape', 'prop0')
            if s.initmode != 'zero':
                lq0 = m.logp_proposal(prop_part=p0, ptraj=None, anc=None, future_trajs=None, find=np.arange(k), yt=yt, ut=ut, tt=tt, cur_ind=0)
                c.close(np.ravel(lq0), [logpdf(p0[i] - s.x0, s.P0) for i in range(k)], 'initial proposal density', key='lq0', **tol)
            c.check(np.array_equal(x, x0c) and np.array_equal(xn, xnc), 'evaluation modified the particles', 'mut')
            ctx.count('models')
            ctx.count('draws', 3 * draws)
            ctx.distinct(s.lx, s.ly, s.fmode, s.gmode, s.qmode, s.rmode, s.initmode, s.gshape, N)
