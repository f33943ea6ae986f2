"""Linear time-varying models: exact Kalman filter and smoother."""
import numpy as np
from ..core import pick
from ..ltvgen import *


def run_main(ctx, n=60):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            T = pick(rng, [0, 1, 2, 5, 12], [30])
            tv = bool(rng.rand() < 0.6)
            s = System(rng, T, tv=tv, offsets=bool(rng.rand() < 0.7), inputs=bool(rng.rand() < 0.6), vardim=bool(rng.rand() < 0.4), partial=bool(rng.rand() < 0.3))
            s.prep = bool(rng.rand() < 0.3)
            s.simulate(rng, ymiss=float(rng.choice([0, 0.3])))
            mf = bool(rng.rand() < 0.5) or T == 0
            if not mf:
                s.y[0] = None
            if T == 0 and s.y[0] is None:
                s.y[0] = np.zeros(s.lys[0])
            dyn = tv or bool(rng.rand() < 0.3)
            N = pick(rng, [1, 1, 2, 5], [20])
            pre = int(rng.choice([0, 0, 1, 2]))
            c.note(T=T, tv=tv, lz=s.lz, ly=s.lys, N=N, meas_first=mf, dynamic=dyn, partial=s.partial, inputs=s.B is not None, offsets=s.offsets, prealloc=pre)
            m = LTVModel(s, dyn)
            pt = run_sys(s, m, N, mf, pre)
            lz = s.lz
            joint = s.joint()
            tol = dict(rtol=1e-6, atol=1e-7)
            c.check(len(pt) == T + 1, 'wrong number of steps', 'steps')
            obs = {}
            lls = {}
            for t, v in m.lls:
                lls.setdefault(t, []).append(v)
            for t in range(T + 1):
                if s.y[t] is not None:
                    prior = joint.cond(obs)
                    want = prior.loglik({'y%d' % t: s.y[t]})
                    c.check(len(lls.get(t, [])) == 1, 'measurement not evaluated exactly once', 'll-once', step=t)
                    for v in lls.get(t, []):
                        c.close(v, np.full(N, want), 'log-likelihood of the measurement', key='loglik', step=t, **tol)
                    obs['y%d' % t] = s.y[t]
                post = joint.cond(obs)
                for i in range(N):
                    row = pt[t].pa.part[i]
                    c.close(row[:lz], post.mean('z%d' % t), 'filtered mean', key='fmean', step=t, **tol)
                    c.close(row[lz:lz + lz * lz].reshape(lz, lz), post.cov('z%d' % t), 'filtered covariance', key='fcov', step=t, **tol)
                w = pt[t].pa.w
                c.close(w - np.max(w), np.zeros(N), 'weights of identical particles differ', key='weights', step=t)
                ctx.count('filter_steps')
            post = joint.cond(obs)
            M = pick(rng, [1, 1, 2, 7], [30])
            for meth in (['full', 'ancestor', 'mcmc'] if rng.rand() < 0.3 else ['full']):
                st = pt.perform_smoothing(M, method=meth)
                c.check(len(st) == T + 1, 'wrong number of smoothed steps', 'ssteps')
                for t in range(T + 1):
                    for j in range(M):
                        row = st.traj[t].pa.part[j]
                        c.close(row[:lz], post.mean('z%d' % t), 'smoothed mean', key='smean', step=t, method=meth, **tol)
                        c.close(row[lz:lz + lz * lz].reshape(lz, lz), post.cov('z%d' % t), 'smoothed covariance', key='scov', step=t, method=meth, **tol)
                        if t < T:
                            c.close(row[lz + lz * lz:].reshape(lz, lz), post.cov('z%d' % t, 'z%d' % (t + 1)), 'lag-one cross covariance', key='lag', step=t, method=meth, **tol)
                    ctx.count('smoother_steps')
            ctx.distinct(T, tv, lz, str(s.lys[:3]), N, mf, dyn, s.B is None, s.offsets, s.partial, pre, M)
