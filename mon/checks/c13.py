"""Rejection bounds: validity, tightness and use."""
import numpy as np
from ..core import pick
from ..core import Pits
from ..dense import *
from .. import mlgen, trace as tr
from . import c12, c17
from pyparticleest import interfaces
from pyparticleest.filter import ParticleTrajectory


def pred(s, row, u, t):
    """exact predictive distribution of the next (xi, z) for a particle of a
    mixed or hierarchical model"""
    xi, z, P = mlgen.split(s, row)
    A = np.vstack([s.get('Axi', xi, u, t), s.get('Az', xi, u, t)]).astype(float)
    f = np.concatenate([s.get('fxi', xi, u, t).ravel(), s.get('fz', xi, u, t).ravel()]).astype(float)
    Q = np.array(s.get('Qfull', xi, u, t))
    if s.hier:
        A[:s.lxi] = 0
        f[:s.lxi] = s.hf(xi, u, t)
        Q[:s.lxi, :s.lxi] = s.Q[:s.lxi, :s.lxi]
    return A @ z + f, A @ P @ A.T + Q


def rand_parts(rng, s, N):
    out = np.zeros((N, s.lxi + s.lz + s.lz ** 2))
    for i in range(N):
        P = spd(rng, s.lz, 0.01, 3.0) if rng.rand() < 0.8 else np.zeros((s.lz, s.lz))
        out[i] = np.concatenate([rng.normal(size=s.lxi), rng.normal(size=s.lz) * 3, P.ravel()])
    return out


def run_bound(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['nlg', 'mixed', 'hier'][c.idx % 3]
            N = pick(rng, [1, 2, 5, 12], [60])
            tol = 1e-8
            if kind == 'nlg':
                s = c17.Spec(rng)
                m = c17.Model(s, rng)
                part = rng.normal(size=(N, s.lx))
                t, u = float(rng.randint(5)), rng.normal(size=1)
                f, Q = s.f(part, u, t), s.Qx(part, u, t)
                D = s.lx
            else:
                s = mlgen.Mix(rng, 3, hier=kind == 'hier')
                var = s.hier and not s.intlog and rng.rand() < 0.6
                m = (VarHier if var else mlgen.Hier if s.hier else mlgen.Mixed)(s)
                part = rand_parts(rng, s, N)
                t, u = float(rng.randint(3)), rng.normal(size=1)
                fq = [pred(s, p, u, int(t)) for p in part]
                f, Q = np.array([a for a, _ in fq]), np.array([b for _, b in fq])
                if var:
                    for i, v in enumerate(m.scales(part)):
                        Q[i, :s.lxi, :s.lxi] *= v
                D = s.lxi + s.lz
            c.note(kind=kind, N=N, D=D)
            p0 = part.copy()
            if rng.rand() < 0.5:
                b = m.logp_xnext_max(part, u, t)
            else:
                k = rng.randint(3)
                uv, tv = [None] * 4, [99.0] * 4
                uv[k], tv[k] = u, t
                b = m.logp_xnext_max_full(part=part, past_trajs=None, pind=None, uvec=uv, yvec=[None] * 4, tvec=tv, cur_ind=k)
            c.check(np.array_equal(p0, part), 'computing the bound modified the particles', 'mut')
            top = np.array([logpdf(np.zeros(D), q) for q in Q])
            # the nonlinear part of hierarchical models, given by the model, may be loose
            b = b - getattr(m, 'loose', 0.0)
            c.close(float(np.max(b)), top.max(), 'rejection bound is not the largest possible transition density', key='bound:' + kind, rtol=1e-8, atol=1e-8)
            b = float(np.min(b))
            best = -np.inf
            for _ in range(6):
                sc = rng.choice([0.0, 0.0, 1e-3, 0.3, 1.0, 5.0])
                i = rng.randint(N)
                nx = f[i] + sc * (np.linalg.cholesky(Q[i]) @ rng.normal(size=D))
                lp = np.ravel(m.logp_xnext(part, np.tile(nx, (N, 1)), u, t))
                c.check(np.all(lp <= b + tol * max(1, abs(b))), 'transition density exceeds the rejection bound', 'exceeds:' + kind, lp=lp.max(), bound=b)
                ctx.count('densities_compared', N)
            i = int(np.argmax(top))
            lp = np.ravel(m.logp_xnext(part, np.tile(f[i], (N, 1)), u, t))
            c.close(lp[i], b, 'rejection bound is not attained by the most concentrated particle', key='tight:' + kind, rtol=1e-7, atol=1e-7)
            ctx.distinct(kind, N, D, str(sorted(s.mode.items())) if kind != 'nlg' else (s.qmode, s.fmode))


class VarHier(mlgen.Hier):
    """the precision of the nonlinear transition differs between particles"""

    @staticmethod
    def scales(particles):
        return np.exp(np.sin(3.0 * np.asarray(particles)[:, 0]))

    def logp_xnext_xi(self, particles, next_xi, u, t):
        s = self.s
        k = self.scales(particles)
        nx = np.broadcast_to(np.asarray(next_xi).reshape(-1, s.lxi), (len(particles), s.lxi))
        f = np.array([s.hf(p[:s.lxi], u, mlgen.ti(t)) for p in particles])
        return np.array([logpdf(d, k[i] * s.Q[:s.lxi, :s.lxi]) for i, d in enumerate(nx - f)])

    def logp_xnext_xi_max(self, particles, u, t):
        s = self.s
        return np.array([logpdf(np.zeros(s.lxi), v * s.Q[:s.lxi, :s.lxi]) for v in self.scales(particles)])


class _Spy(object):
    """records what backward simulation asked for and what it chose"""

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        r = super(_Spy, self).logp_xnext_full(part=part, past_trajs=past_trajs, pind=pind, future_trajs=future_trajs, find=find, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
        self.maxlp[cur_ind] = max(self.maxlp.get(cur_ind, -np.inf), float(np.max(r)))
        self.ndens += len(part)
        return r

    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        r = super(_Spy, self).logp_xnext_max_full(part=part, past_trajs=past_trajs, pind=pind, uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind)
        self.asked.append((cur_ind, part.copy(), float(np.max(r))))
        return r

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        r = super(_Spy, self).sample_smooth(part=part, ptraj=ptraj, anc=anc, future_trajs=future_trajs, find=find, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
        self.chosen[cur_ind] = (part.copy(), r.copy())
        return r


class SpyMixed(_Spy, mlgen.Mixed):
    pass


class SpyHier(_Spy, mlgen.Hier):
    pass


def run_use(ctx, n=60):
    """rejection smoothing of built-in models through the public interface:
    densities stay below the bound of their step and every backward draw
    follows the exact backward kernel"""
    pits = Pits(np.random.RandomState(ctx.seed))
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                pits.judge(c)
                continue
            rng = c.rng
            s, mf, pre = mlgen.setup(c, hier=c.idx % 2 == 1, T=pick(rng, [2, 3, 5], [12]))
            m = (SpyHier if s.hier else SpyMixed)(s)
            m.maxlp, m.chosen, m.ndens, m.asked = {}, {}, 0, []
            N = pick(rng, [3, 8], [40])
            pt = mlgen.run_mix(s, m, N, mf, pre)
            M = 4
            for meth in ('rs', 'rsas', 'full'):
                m.maxlp, m.chosen, m.asked = {}, {}, []
                c.note(method=meth)
                opt = {'R': int(rng.choice([2, 5, 20]))} if meth == 'rs' else None
                pt.perform_smoothing(M, method=meth, smoother_options=opt)
                judge_asked(c, m, pt)
                for t in range(s.T):
                    fq = [pred(s, p, s.u[t], t) for p in pt[t].pa.part]
                    top = max(logpdf(np.zeros(s.lxi + s.lz), q) for _, q in fq)
                    c.check(m.maxlp[t] <= top + 1e-7, 'transition density above the bound of its step during smoothing', 'above', step=t, lp=m.maxlp[t], bound=top)
                    src, _ = m.chosen[t]
                    _, nxt = m.chosen[t + 1]
                    for k in [rng.randint(M)]:
                        i = np.nonzero((pt[t].pa.part == src[k]).all(1))[0]
                        if not c.check(len(i) >= 1, 'smoothed state is not a filter particle of that step', 'member', step=t):
                            continue
                        lp = np.array([logpdf(nxt[k, :s.lxi + s.lz] - a, q) for a, q in fq]) + pt[t].pa.w
                        b = np.exp(lp - lp.max())
                        if len(i) > 1 or s.T == 0:
                            continue    # duplicates cannot be told apart
                        pits.add('%s %s' % (meth, 'hierarchical' if s.hier else 'mixed'), b, i[0])
                        ctx.count('backward_draws')
                ctx.count('densities_below_bound', m.ndens)
                m.ndens = 0
            ctx.distinct(s.hier, s.lxi, s.lz, s.T, N, s.cross, mf, pre)


def judge_asked(c, m, pt):
    """bounds requested for a step concern the particles of that step"""
    for k, part, b in m.asked:
        if k >= len(pt) - 1:
            continue
        own = pt[k].pa.part
        ok = all((own == row).all(1).any() for row in part)
        c.check(ok, 'rejection bound of a step was computed from particles that are not in it', 'particles', step=k)
        c.ctx.count('bounds_seen')


class Wild(_Spy, interfaces.ParticleFiltering, interfaces.FFBSiRS):
    """random walk whose noise level depends strongly on particle and step, so
    that the bound differs by orders of magnitude between particle sets"""

    def __init__(self, rng, T):
        self.s0 = np.exp(rng.uniform(-2.5, 2.5, T + 2))
        self.amp = float(rng.choice([0.0, 1.0, 2.0]))
        self.ph = rng.uniform(0, 6, T + 2)
        self.ll = rng.uniform(0.2, 3, T + 2)
        self.maxlp, self.chosen, self.ndens, self.asked = {}, {}, 0, []

    def sig(self, x, t):
        t = int(round(float(t)))
        return self.s0[t] * np.exp(self.amp * np.sin(2 * x + self.ph[t]))

    def lp(self, x, xn, t):
        s = self.sig(x, t)
        return -0.5 * ((xn - 0.8 * x) / s) ** 2 - np.log(s) - 0.9189385332046727

    def create_initial_estimate(self, N):
        return np.random.normal(size=(N, 1))

    def sample_process_noise(self, particles, u, t):
        return np.random.normal(size=(len(particles), 1)) * self.sig(particles, t)

    def update(self, particles, u, t, noise):
        particles[:] = 0.8 * particles + noise
        return particles

    def measure(self, particles, y, t):
        return -np.abs(particles[:, 0] - y) * self.ll[int(round(float(t)))] / (1 + np.abs(particles[:, 0]))

    def logp_xnext(self, particles, next_part, u, t):
        return self.lp(particles[:, 0], next_part[:, 0], t)

    def logp_xnext_max(self, particles, u, t):
        return float(np.max(-np.log(self.sig(particles[:, 0], t)))) - 0.9189385332046727


def run_wild(ctx, n=100):
    """bounds that differ by orders of magnitude between steps"""
    pits = Pits(np.random.RandomState(ctx.seed))
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                pits.judge(c)
                continue
            rng = c.rng
            T = pick(rng, [1, 2, 3, 6], [15, 25])
            N = pick(rng, [2, 3, 6, 15], [60, 150])
            m = Wild(rng, T)
            pre = bool(rng.rand() < 0.3)
            c.note(T=T, N=N, amp=m.amp, s0=m.s0.tolist(), prealloc=pre)
            pt = ParticleTrajectory(m, N, resample=float(rng.choice([0.0, 0.67, 1.0])), **(dict(T=T + 1) if pre else {}))
            pt.measure(rng.normal())
            for t in range(T):
                pt.forward(None, rng.normal() if rng.rand() < 0.8 else None)
            for rep in range(3):
                meth = ['rs', 'rsas'][rep % 2]
                opt = {'R': int(rng.choice([1, 3, 40]))} if meth == 'rs' and rng.rand() < 0.8 else None
                m.maxlp, m.chosen, m.asked = {}, {}, []
                M = int(rng.choice([1, 4, 12]))
                st = pt.perform_smoothing(M, method=meth, smoother_options=opt)
                judge_asked(c, m, pt)
                j = rng.randint(M)
                for t in range(T + 1):
                    x = pt[t].pa.part[:, 0]
                    i = np.nonzero(x == st.traj[t].pa.part[j, 0])[0]
                    if not c.check(len(i) >= 1, 'smoothed state is not a filter particle of that step', 'member', step=t):
                        continue
                    lb = pt[t].pa.w - np.max(pt[t].pa.w)
                    if t < T:
                        lb = lb + m.lp(x, st.traj[t + 1].pa.part[j, 0], t)
                    if len(i) == 1:
                        pits.add('%s %s' % (meth, 'final' if t == T else 'backward'), np.exp(lb - lb.max()), i[0])
                        ctx.count('backward_draws')
            ctx.distinct(T, N, m.amp, pre)


def run_steps(ctx, n=150):
    """strongly time varying bounds: using that of another step distorts the
    draws of the traced model"""
    c12.run_trace(ctx, n=n, methods=('rs', 'rsas'))


class Flat(Wild):
    """every transition of a step has the same density, which is then the bound"""

    def __init__(self, rng, T):
        super(Flat, self).__init__(rng, T)
        self.lev = rng.uniform(-40, 40, T + 2)

    def logp_xnext(self, particles, next_part, u, t):
        return np.full(len(particles), self.lev[int(round(float(t)))])

    def logp_xnext_max(self, particles, u, t):
        return float(self.lev[int(round(float(t)))])


def run_rate(ctx, n=100):
    """particles whose density attains the bound of the step are accepted at
    once: a bound that is not that of the step rejects them"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            T, N, M = pick(rng, [1, 2, 3, 6], [20]), int(rng.choice([2, 5, 30])), int(rng.choice([1, 4, 12]))
            m = Flat(rng, T)
            pre = int(rng.choice([0, 0, 1, 4]))
            meth = ['rs', 'rsas'][c.idx % 2]
            c.note(T=T, N=N, M=M, levels=m.lev.tolist(), prealloc=pre, method=meth)
            pt = ParticleTrajectory(m, N, resample=float(rng.choice([0.0, 0.67, 1.0])), **(dict(T=T + pre) if pre else {}))
            if rng.rand() < 0.5:
                pt.measure(rng.normal())
            for t in range(T):
                pt.forward(None, rng.normal() if rng.rand() < 0.8 else None)
            m.ndens = 0
            pt.perform_smoothing(M, method=meth, smoother_options={'R': 60} if meth == 'rs' else None)
            c.check(M * T <= m.ndens <= 2 * M * T, 'particles which attain the bound are rejected', 'rate', evaluated=m.ndens, expected=M * T)
            ctx.count('accepted_at_once', M * T)
            ctx.distinct('rate', T, N, M, meth, pre)
