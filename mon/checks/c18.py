"""Mixed models: exact Rao-Blackwellized filtering given the path."""
import numpy as np
from ..core import pick
from scipy.stats import norm as N01, chi2
from ..mlgen import *
from ..core import P_REJECT, uniform_p
from .c17 import white


def filter_checks(c, s, m, pt, hier=False, whites=None, loglik_extra=None):
    ctx = c.ctx
    tol = dict(rtol=1e-6, atol=1e-7)
    N = len(pt[0].pa.part)
    paths = paths_of(pt, s.lxi)
    for t in range(len(pt)):
        for i in range(N):
            path = paths[t][i]
            j = s.joint(path, upto=t)
            post = j.cond(s.obs(path, xi_upto=t))
            xi, z, P = split(s, pt[t].pa.part[i])
            c.close(z, post.mean('z%d' % t), 'linear mean given the path', key='zmean', step=t, **tol)
            c.close(P, post.cov('z%d' % t), 'linear covariance given the path', key='zcov', step=t, **tol)
            if s.y[t] is not None:
                pri = j.cond(s.obs(path, xi_upto=t, y_upto=t - 1))
                ll = pri.loglik({'y%d' % t: s.y[t]})
                if hier:
                    ll += s.hll(path[t], s.y[t], t)
                rec = [v[k] for tt, x, v in m.lls if tt == t for k in range(len(v)) if np.array_equal(x[k], path[t])]
                if c.check(len(rec) >= 1, 'measurement not evaluated for the particle', 'll-missing', step=t):
                    c.close(rec[0], ll, 'measurement weight is not the predictive log-density', key='ll', step=t, **tol)
            if t and whites is not None and not hier:
                pri = j.cond(s.obs(path, xi_upto=t - 1))
                d = path[t] - pri.mean('xi%d' % t)
                whites.append(np.linalg.solve(np.linalg.cholesky(pri.cov('xi%d' % t)), d))
            ctx.count('particles_checked')


def judge_whites(c, whites, what):
    a = np.concatenate(whites)
    n = len(a)
    if n < 200:
        return
    c.check(2 * N01.sf(abs(a.mean()) * np.sqrt(n)) > P_REJECT, what + ': mean of the draws is wrong', 'draw-mean', z=a.mean() * np.sqrt(n))
    q = np.sum(a ** 2)
    c.check(2 * min(chi2.sf(q, n), chi2.cdf(q, n)) > P_REJECT, what + ': variance of the draws is wrong', 'draw-var', var=q / n, n=n)
    c.check(uniform_p(N01.cdf(a)) > P_REJECT, what + ': distribution of the draws is wrong', 'draw-dist')
    pr = np.concatenate([np.outer(w, w)[np.triu_indices(len(w), 1)] for w in whites if len(w) > 1] or [np.zeros(0)])
    if len(pr) > 200:
        c.check(2 * N01.sf(abs(pr.mean()) * np.sqrt(len(pr))) > P_REJECT, what + ': draws are wrongly correlated', 'draw-corr', r=pr.mean())
    c.ctx.count('draws_tested', n)


def run_main(ctx, n=60):
    whites, wi = [], []
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                judge_whites(c, whites, 'nonlinear state')
                judge_whites(c, wi, 'initial nonlinear state')
                continue
            rng = c.rng
            s, mf, pre = setup(c)
            m = [Mixed, Marg][int(rng.rand() < 0.3)](s)
            N = pick(rng, [1, 2, 5, 12], [40])
            pt = run_mix(s, m, N, mf, pre, res=float(rng.choice([0, 0.67, 1.0])), filt=['pf', 'pf', 'apf'][rng.randint(3)])
            c.check(len(pt) == s.T + 1, 'wrong number of steps', 'steps')
            # draws of resampled generations are selected by later weights: test only particles as drawn
            filter_checks(c, s, m, pt, whites=whites)
            for i in range(N):
                wi.append(np.linalg.solve(np.linalg.cholesky(s.Pxi0), pt[0].pa.part[i, :s.lxi] - s.xi0))
            # look-ahead weights
            t = rng.randint(s.T) if s.T else None
            if t is not None:
                part = pt[t].pa.part
                p0 = part.copy()
                y = rng.normal(size=s.ly)
                l1 = m.eval_1st_stage_weights(part, s.u[t], s.raw(y), t)
                c.check(np.array_equal(p0, part), 'look-ahead weights modified the particles', 'l1-mut')
                for i in range(N):
                    xi, z, P = split(s, part[i])
                    j = s.joint([xi, xi], z0=z, P0=P, start=t, upto=t + 1)
                    xn = j.mean('xi%d' % (t + 1))
                    j = s.joint([xi, xn], z0=z, P0=P, start=t, upto=t + 1)
                    want = j.cond({'xi%d' % (t + 1): xn}).loglik({'y%d' % (t + 1): y})
                    c.close(np.ravel(l1)[i], want, 'look-ahead weight', key='l1w', rtol=1e-6, atol=1e-7)
            ctx.distinct(s.lxi, s.lz, s.ly, s.cross, s.noC, str(sorted(s.mode.items())), s.ctor, mf, pre, N, s.T)


def run_noise(ctx, n=60, draws=1500):
    """next nonlinear states of particles which know their linear states with
    different precision"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            s, _mf, _pre = setup(c)
            if not s.T:
                continue
            m = [Mixed, Marg][int(rng.rand() < 0.3)](s)
            t = rng.randint(s.T)
            K = int(rng.choice([1, 3, 6]))
            base = m.create_initial_estimate(K)
            for k in range(K):
                base[k, :s.lxi] = rng.normal(size=s.lxi)
                base[k, s.lxi:s.lxi + s.lz] = rng.normal(size=s.lz)
                base[k, s.lxi + s.lz:] = (spd(rng, s.lz) * 10.0 ** rng.uniform(-2, 1)).ravel()
            kind = rng.permutation(np.arange(draws) % K)
            part = base[kind]
            p0 = part.copy()
            noise = m.sample_process_noise(part, s.u[t], t)
            c.check(np.array_equal(part, p0), 'drawing noise changed the particles', 'noise:mut')
            xin = np.array(m.calc_xi_next(part, noise=noise, u=s.u[t], t=t), dtype=float).reshape((draws, s.lxi))
            for k in range(K):
                xi, z, P = split(s, base[k])
                j = s.joint([xi, xi], z0=z, P0=P, start=t, upto=t + 1)
                white(c, xin[kind == k] - j.mean('xi%d' % (t + 1)).ravel(), j.cov('xi%d' % (t + 1)), 'next nonlinear state')
            ctx.count('noise_draws', draws)
            ctx.distinct('noise', K, s.lxi, s.lz, s.cross, str(sorted(s.mode.items())), type(m).__name__)


def run_init(ctx, n=60):
    """known initial states (zero covariance, also the default) and the
    density of the initial state"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            T = int(rng.choice([0, 1, 3]))
            s = Mix(rng, T, cross=None if rng.rand() < 0.5 else 'none')
            which = [(), ('Pxi0',), ('Pz0',), ('Pxi0', 'Pz0')][c.idx % 4]
            s.fix_initial(which)
            s.prep = bool(rng.rand() < 0.3)
            s.simulate(rng, ymiss=float(rng.choice([0, 0.3])))
            m = [Mixed, Marg][int(rng.rand() < 0.3)](s)
            N = int(rng.choice([1, 4]))
            c.note(known=which, marg=type(m).__name__, N=N, **s.describe())
            p = m.create_initial_estimate(N)
            for i in range(N):
                xi, z, P = split(s, p[i])
                c.close(z, s.z0of(xi), 'initial linear mean', key='init:z')
                c.close(P, s.P0of(xi), 'initial linear covariance', key='init:P')
                if 'Pxi0' in which:
                    c.close(xi, s.xi0, 'initial nonlinear state differs from the known one', key='init:xi', rtol=1e-12, atol=0)
            z, P = m.get_rb_initial([x.reshape(-1, 1) for x in p[:, :s.lxi]])
            c.close(np.array([np.ravel(v) for v in z]), np.array([s.z0of(x) for x in p[:, :s.lxi]]), 'initial linear mean', key='init:rbz')
            c.close(np.array([np.asarray(v) for v in P]), np.array([s.P0of(x) for x in p[:, :s.lxi]]), 'initial linear covariance', key='init:rbP')
            # density of initial particles with their own spread
            k = 3
            q = np.tile(p[:1], (k, 1))
            if 'Pxi0' not in which:
                q[:, :s.lxi] = rng.normal(size=(k, s.lxi))
            if 'Pz0' not in which:
                q[:, s.lxi:s.lxi + s.lz] += rng.normal(size=(k, s.lz))
                for i in range(k):
                    q[i, s.lxi + s.lz:] = (spd(rng, s.lz) * rng.uniform(0, 1)).ravel()
            got = np.ravel(m.eval_logp_x0(q, 0))
            want = []
            for i in range(k):
                xi, z, P = split(s, q[i])
                v = 0.0
                if 'Pxi0' not in which:
                    v += logpdf(xi - s.xi0, s.Pxi0)
                if 'Pz0' not in which:
                    d, P0 = z - s.z0of(xi), s.P0of(xi)
                    v -= 0.5 * (np.linalg.slogdet(P0)[1] + np.trace(np.linalg.solve(P0, np.outer(d, d) + P)))
                want.append(v)
            # constants may be left out
            c.close(got - got[0], np.array(want) - want[0], 'log-density of the initial state', key='init:lp', rtol=1e-7, atol=1e-7)
            c.check(np.all(np.isfinite(got)), 'log-density of a possible initial state is not finite', 'init:finite')
            if 'Pxi0' in which:
                q[1, rng.randint(s.lxi)] += rng.choice([1.0, -1e-3])
                c.check(np.ravel(m.eval_logp_x0(q, 0))[1] == -np.inf, 'impossible initial state has positive density', 'init:impossible')
            # a run from there
            mf = bool(rng.rand() < 0.5) or T == 0
            if not mf:
                s.y[0] = None
            pt = run_mix(s, m, N, mf, 0, res=float(rng.choice([0, 0.67])), filt='pf')
            filter_checks(c, s, m, pt)
            ctx.count('initial_states', N)
            ctx.distinct('init', which, type(m).__name__, s.lxi, s.lz, T, mf)
