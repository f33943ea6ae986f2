"""Rao-Blackwellized smoothing: exact linear statistics given the whole path."""
import numpy as np
from ..core import pick
from ..mlgen import *


def smooth_checks(c, s, st, meth):
    tol = dict(rtol=1e-5, atol=1e-6)
    T, n, m = s.T, s.lxi, s.lz
    M = len(st.traj[0].pa.part)
    c.check(len(st) == T + 1, 'wrong number of steps', 'steps')
    for k in range(M):
        path = [st.traj[t].pa.part[k, :n] for t in range(T + 1)]
        post = s.joint(path).cond(s.obs(path))
        for t in range(T + 1):
            row = st.traj[t].pa.part[k]
            if not c.check(len(row) == n + m + 2 * m * m, 'smoothed particle has wrong length', 'len', got=len(row)):
                return
            xi, z, P = split(s, row)
            c.close(z, post.mean('z%d' % t), 'smoothed linear mean', key='zmean', step=t, method=meth, **tol)
            c.close(P, post.cov('z%d' % t), 'smoothed linear covariance', key='zcov', step=t, method=meth, **tol)
            if t < T:
                c.close(row[n + m + m * m:].reshape(m, m), post.cov('z%d' % t, 'z%d' % (t + 1)), 'lag-one cross covariance', key='lag', step=t, method=meth, **tol)
        c.ctx.count('trajectories_checked')


def run_main(ctx, n=40):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['mixed', 'mixed', 'marg', 'hier'][c.idx % 4]
            s, mf, pre = setup(c, hier=kind == 'hier')
            mdl = dict(mixed=Mixed, marg=Marg, hier=Hier)[kind](s)
            N = pick(rng, [2, 5, 10], [40])
            pt = run_mix(s, mdl, N, mf, pre)
            M = pick(rng, [1, 3], [12, 50])
            if kind == 'marg':
                meths = ['full', 'ancestor', 'mcmc']
            else:
                meths = ['full', 'ancestor', 'rs', 'rsas', 'mcmc', 'mhips', 'mhips_reduced', 'mhbp']
            for meth in [meths[i] for i in rng.permutation(len(meths))[:2]]:
                opt = {'R': int(rng.choice([1, 3]))} if meth in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp') else None
                c.note(method=meth, kind=kind)
                st = pt.perform_smoothing(M, method=meth, smoother_options=opt)
                smooth_checks(c, s, st, meth)
                ctx.distinct(kind, meth, s.lxi, s.lz, s.ly, s.cross, s.noC, mf, pre, s.T, str(sorted(s.mode.items())))
