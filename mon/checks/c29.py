"""Simulator front end: accessors against the stored steps of the last run."""
import numpy as np
from ..core import pick
from ..trace import *
from .. import pargen
from .c09 import snap, diff
from pyparticleest.simulator import Simulator

FILTERS = ('pf', 'PF', 'apf', 'sir', 'pfy', 'cpf', 'cpfas', 'CPFyAS', 'csiras')
SMOOTH = ('full', 'ancestor', 'rs', 'rsas', 'mcmc', 'mhips', 'mhbp', 'mhips_reduced')
BAD = ('', 'fulll', 'kalman', 'ffbsi', 'pf2', 'smc', 'none')


def views(c, sim, T, N, M, smoothed, key='views'):
    traj = sim.pt.traj
    c.check(len(traj) == T and len(sim.pt) == T, 'wrong number of filter steps', key + ':steps', got=len(traj), want=T)
    est, w = sim.get_filtered_estimates()
    D = traj[0].pa.part.shape[1]
    if c.check(np.shape(est) == (T, N, D) and np.shape(w) == (T, N), 'filtered estimates have the wrong shape', key + ':shape', est=np.shape(est), w=np.shape(w), want=(T, N, D)):
        for t in range(T):
            c.check(np.array_equal(est[t], traj[t].pa.part), 'filtered estimates are not the stored particles', key + ':est', step=t)
            e = np.exp(norm(traj[t].pa.w))
            c.close(w[t], e / e.sum(), 'filtered weights are not the stored ones', 1e-9, 1e-12, key + ':w', step=t)
            c.check(np.all(w[t] >= 0) and abs(np.sum(w[t]) - 1) < 1e-9, 'filtered weights are not a distribution', key + ':dist', step=t, w=w[t])
        m = sim.get_filtered_mean()
        c.close(m, np.einsum('tn,tnd->td', w, est), 'filtered mean is not the weighted average', 1e-8, 1e-9, key + ':mean')
    if smoothed:
        st = sim.straj
        if c.check(st is not None and len(st) == T, 'no smoothed result, or of the wrong length', key + ':straj'):
            se = sim.get_smoothed_estimates()
            ok = c.check(np.shape(se)[:2] == (T, M), 'smoothed estimates have the wrong shape', key + ':sshape', got=np.shape(se), want=(T, M))
            if ok:
                c.check(all(np.array_equal(se[t], st.traj[t].pa.part) for t in range(T)), 'smoothed estimates are not the stored trajectories', key + ':sest')
                c.close(sim.get_smoothed_mean(), np.asarray(se).sum(axis=1) / M, 'smoothed mean is not the average', 1e-9, 1e-9, key + ':smean')
            return se
    else:
        c.check(sim.straj is None, 'smoothed result left from an earlier run', key + ':left')
    return None


def run_main(ctx, n=100):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            T = pick(rng, [0, 1, 2, 3, 6], [20])
            usu = bool(rng.rand() < 0.6)
            y = [np.array([200.0 + t, 2 * rng.normal()]) for t in range(T + 1)]
            u = [np.array([100.0 + t, rng.normal()]) for t in range(T + 1)] if usu else None
            if rng.rand() < 0.3:
                y = np.array(y)
                u = np.array(u) if usu else None
            p = Params(rng, sharp=float(rng.choice([0.3, 5.0])), offset=float(rng.choice([0, 0, -2000.0, 2000.0])), inf_prob=float(rng.choice([0, 0, 0.1])))
            tm = TraceModel(p)
            sim = Simulator(tm, u, y)
            given = snap(dict(u=u, y=y))
            hist = []
            for k in range(int(rng.choice([1, 2, 4]))):
                filt = str(rng.choice(FILTERS))
                mf = True if filt.lower() in ('pfy', 'cpfyas') else bool(rng.rand() < 0.5)
                N = pick(rng, [1, 2, 5, 20], [100, 300])
                if filt.lower().startswith('c'):
                    N = max(N, 2)
                if filt.lower() in ('pfy', 'cpfyas'):
                    p.inf_prob = 0.0
                M = pick(rng, [0, 1, 3, 8], [40, 150])
                sm = None if rng.rand() < 0.25 else str(rng.choice(SMOOTH))
                L = len(y) if mf else len(y) + 1
                opt = {'R': 2} if sm in ('mcmc', 'mhips', 'mhbp', 'mhips_reduced') else None
                fo = {'cond_traj': cond_traj(rng, L)} if filt.lower().startswith('c') else ({} if rng.rand() < 0.5 else None)
                res = float(rng.choice([0.0, 0.67, 1.0]))
                hist.append((filt, sm, N, M, mf))
                c.note(T=T, history=hist, inputs=usu)
                tm.log = []
                seed = int(rng.randint(2 ** 31))
                np.random.seed(seed)
                try:
                    r = sim.simulate(N, M, filter=filt, filter_options=fo, smoother=sm, smoother_options=opt, res=res, meas_first=mf)
                except Exception:
                    if p.inf_prob and any(not np.any(np.isfinite(s.pa.w)) for s in sim.pt.traj):
                        ctx.count('all_weights_zero')
                        break
                    raise
                if any(not np.any(np.isfinite(s.pa.w)) for s in sim.pt.traj):
                    ctx.count('all_weights_zero')
                    break
                a = views(c, sim, L, N, M, sm is not None and M > 0)
                # what was asked for is what the model saw
                if not usu:
                    c.check(all(e[1] is None for e in tm.log if e[0] in ('noise', 'update', 'lpx')), 'model got an input although none was given', 'inputs')
                meas = [e[1] for e in tm.log if e[0] == 'measure']
                # the same run on a fresh object
                np.random.seed(seed)
                tm2 = TraceModel(p)
                s2 = Simulator(tm2, u, y)
                r2 = s2.simulate(N, M, filter=filt, filter_options=fo, smoother=sm, smoother_options=opt, res=res, meas_first=mf)
                c.check(r == r2, 'number of resamplings depends on earlier runs of the simulator', 'fresh:count', got=r, want=r2)
                e1, e2 = sim.get_filtered_estimates(), s2.get_filtered_estimates()
                c.check(np.array_equal(e1[0][:, :, [X, TS]], e2[0][:, :, [X, TS]]) and np.array_equal(e1[1], e2[1]), 'filter result depends on earlier runs of the simulator', 'fresh:filter')
                if a is not None:
                    b = s2.get_smoothed_estimates()
                    c.check(np.array_equal(a[:, :, [X, TS]], b[:, :, [X, TS]]), 'smoothed result depends on earlier runs of the simulator', 'fresh:smooth')
                # results handed out are independent of the stored ones
                e1[0][:], e1[1][:] = 0.0, 5.0
                if a is not None:
                    a[:] = 0.0
                views(c, sim, L, N, M, sm is not None and M > 0, 'again')
                d = diff(given, snap(dict(u=u, y=y)))
                c.check(d is None, 'simulation modified the data', 'data', what=d)
                ctx.count('runs')
                ctx.distinct(filt, sm, N, M, mf, T, usu, k)
            # unknown names
            for what in ('filter', 'smoother'):
                bad = str(rng.choice(BAD))
                kw = dict(filter='pf', smoother='full')
                kw[what] = bad
                try:
                    sim.simulate(3, 2, **kw)
                    ok = False
                except ValueError:
                    ok = True
                if p.inf_prob == 0:
                    c.check(ok, 'unknown %s name accepted' % what, 'bad:' + what, name=bad)
                    ctx.count('bad_names')
                    if what == 'smoother':
                        c.check(sim.straj is None, 'smoothed result after a failed run', 'bad:left')
            # defaults
            if p.inf_prob == 0:
                out = []
                for kw in (dict(), dict(filter='pf', filter_options=None, smoother='full', smoother_options=None, res=0.67, meas_first=False)):
                    np.random.seed(c.seed & 0xffffffff)
                    s3 = Simulator(TraceModel(p), u, y)
                    s3.simulate(10, 4, **kw)
                    out.append((s3.get_filtered_estimates()[0], s3.get_smoothed_estimates()))
                c.check(all(np.array_equal(a[:, :, [X, TS]], b[:, :, [X, TS]]) for a, b in zip(*out)), 'defaults are not the documented ones', 'defaults')


def run_models(ctx, n=60):
    """built-in models with parameters"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = str(rng.choice(['lin', 'mix', 'marg']))
            s = (pargen.lin_spec if kind == 'lin' else pargen.mix_spec)(rng, None, int(rng.choice([1, 3])))
            m = {'lin': pargen.LinGrad, 'mix': pargen.MixGrad, 'marg': pargen.MargGrad}[kind](s, rng)
            T = pick(rng, [1, 3], [12])
            pargen.simulate(s, rng, T, s.point(rng), miss=float(rng.choice([0, 0.3])))
            mf = bool(rng.rand() < 0.5)
            usu = bool(rng.rand() < 0.7)
            sim = Simulator(m, s.u if usu else None, s.y if mf else s.y[1:])
            c.note(kind=kind, T=T, mf=mf, inputs=usu)
            for k in range(2):
                p = s.point(rng)
                given = p.tolist() if rng.rand() < 0.3 else p
                m.tried = []
                sim.set_params(given)
                c.check(len(m.tried) >= 1 and np.array_equal(m.tried[-1], p) and np.array_equal(np.ravel(sim.params), p), 'parameters set on the simulator do not reach the model', 'params', got=m.tried, want=p)
                p0 = p.copy()
                if isinstance(given, np.ndarray):
                    given[:] = 9.0
                    c.check(np.array_equal(np.ravel(sim.params), p0), "simulator keeps a reference to the caller's parameters", 'params:alias')
                N, M = (1, 1) if kind == 'lin' else (pick(rng, [2, 8], [40]), pick(rng, [1, 4], [20, 90]))
                sm = str(rng.choice(['full', 'ancestor'] + ([] if kind == 'lin' else ['mcmc'])))
                if rng.rand() < 0.2:
                    sm = None
                sim.simulate(N, M, smoother=sm, meas_first=mf)
                views(c, sim, T + 1, N, M, sm is not None, 'models')
                ctx.count('model_runs')
                ctx.distinct(kind, sm, N, M, mf, T, usu)
