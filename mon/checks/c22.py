"""Hierarchical models: exact Kalman part, user supplied nonlinear part."""
import copy
import numpy as np
from ..core import pick
from .. import mlgen, trace as tr
from ..mlgen import ti, uv
from . import c18


class SpyHier(mlgen.Hier):
    def __init__(self, s):
        self.draws = []
        super(SpyHier, self).__init__(s)

    def sample_process_noise(self, particles, u, t):
        r = super(SpyHier, self).sample_process_noise(particles, u, t)
        self.draws.append((ti(t), particles[:, :self.s.lxi].copy(), r.copy()))
        return r

    def calc_xi_next(self, particles, u, t, noise):
        r = super(SpyHier, self).calc_xi_next(particles, u, t, noise)
        self.noises[-1] += (np.array(noise, copy=True), None if u is None else uv(u))
        return r


def run_main(ctx, n=60):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            s, mf, pre = mlgen.setup(c, hier=True)
            m = SpyHier(s)
            if rng.rand() < 0.4 and s.stored('R'):
                # set by set_dynamics after construction with other values
                kw = mlgen._const_kw(s)
                m.set_dynamics(**kw) if not s.stored('h') else m.set_dynamics(hz=s.base['h'].copy(), **kw)
            N = pick(rng, [1, 2, 5, 12], [40])
            res, filt = float(rng.choice([0, 0.67, 1.0])), ['pf', 'pf', 'apf'][rng.randint(3)]
            st = rng.randint(2 ** 31)
            np.random.seed(st)
            pt = mlgen.run_mix(s, m, N, mf, pre, res=res, filt=filt)
            c.check(len(pt) == s.T + 1, 'wrong number of steps', 'steps')
            c18.filter_checks(c, s, m, pt, hier=True)
            n1 = s.lxi
            for t in range(s.T):
                src = pt[t].pa.part[np.asarray(pt[t + 1].ancestors, dtype=int)][:, :n1]
                dst = pt[t + 1].pa.part[:, :n1]
                mv = [v for v in m.noises if v[0] == t]
                dr = [v for v in m.draws if v[0] == t]
                if not c.check(len(mv) >= 1 and len(dr) >= 1, 'user dynamics not used for a step', 'unused', step=t):
                    continue
                ok = [v for v in mv if v[1].shape == src.shape and np.array_equal(v[1], src) and np.array_equal(v[2], dst)]
                c.check(len(ok) >= 1, 'nonlinear state is not the result of the user supplied dynamics', 'move', step=t)
                for v in ok[:1]:
                    c.check(any(np.array_equal(d[2], v[3]) and np.array_equal(d[1], src) for d in dr), 'noise is not the one drawn by the model for these particles', 'noise', step=t)
                    c.check(v[4] == uv(s.u[t]), 'dynamics called with another input', 'input', step=t)
                ctx.count('moves', N)
            # weights
            lw = None
            for t in range(len(pt)):
                rec = [v for v in m.lls if v[0] == t and v[1].shape[0] == N and np.array_equal(v[1], pt[t].pa.part[:, :n1])]
                if filt == 'pf' and res == 0.0:
                    if lw is None:
                        lw = np.zeros(N)
                    if s.y[t] is not None and c.check(len(rec) >= 1, 'measurement not evaluated for all particles', 'eval', step=t):
                        lw = lw + rec[-1][2]
                    g = pt[t].pa.w - pt[t].pa.w.max()
                    c.close(g, lw - lw.max(), 'particle weight is not the product of the measurement densities', key='weight', step=t, rtol=1e-9, atol=1e-8)
                    ctx.count('weights_checked', N)
            # coinciding per-particle and default dynamics
            s2 = copy.copy(s)
            s2.mode = {k: 'calc' for k in s.mode}
            s2.flat = set(k for k in s.mode if s.mode[k] != 'calc')
            s2.skip = {k: set() if k in s2.flat else v for k, v in s.skip.items()}
            np.random.seed(st)
            pt2 = mlgen.run_mix(s2, mlgen.Hier(s2), N, mf, pre, res=res, filt=filt)
            for t in range(len(pt)):
                if not c.close(pt2[t].pa.part, pt[t].pa.part, 'per-particle and default linear dynamics disagree', key='default', rtol=1e-8, atol=1e-8, step=t):
                    break
                c.close(pt2[t].pa.w, pt[t].pa.w, 'per-particle and default linear dynamics give other weights', key='default-w', rtol=1e-8, atol=1e-8, step=t)
            ctx.count('runs_compared')
            ctx.distinct(s.lxi, s.lz, s.ly, str(sorted(s.mode.items())), mf, pre, N, s.T, res, filt)
