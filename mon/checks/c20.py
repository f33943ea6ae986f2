"""Rao-Blackwellized backward simulation: densities and conditional draws."""
import numpy as np
from ..core import pick
from scipy.stats import norm as N01
from pyparticleest.filter import ParticleApproximation, TrajectoryStep
from ..core import P_REJECT
from ..dense import *
from .. import mlgen
from .c13 import pred, rand_parts
from .c18 import judge_whites


def decoys(rng, T, k, u, t):
    """input, measurement and time lists with only entry k meaningful"""
    uv = [rng.normal(size=1) * 50 for _ in range(T)]
    tv = [1000.0 + 17 * i for i in range(T)]
    uv[k], tv[k] = u, t
    return uv, [rng.normal(size=1) * 99 for _ in range(T)], tv


def whiten(d, S, scale):
    """components of d in the directions in which S is not singular; the
    largest component in singular directions"""
    w, V = np.linalg.eigh(S)
    e = V.T @ d
    ok = w > 1e-9 * scale
    return e[ok] / np.sqrt(w[ok]), float(np.max(np.abs(e[~ok]), initial=0.0))


def run_main(ctx, n=60):
    whites, last, rows = {False: [], True: []}, [], []
    for c in ctx.cases(n + 2):
        with c:
            if c.idx >= n:
                h = c.idx == n + 1
                judge_whites(c, whites[h], 'linear state of %s models' % ('hierarchical' if h else 'mixed'))
                if not h:
                    judge_whites(c, last, 'linear state at the last step')
                    r = np.array(rows)
                    if len(r) > 200:
                        z = r.mean() * np.sqrt(len(r))
                        c.check(2 * N01.sf(abs(z)) > P_REJECT, 'draws for different trajectories are dependent', 'rows', z=z)
                continue
            rng = c.rng
            hier = c.idx % 2 == 1
            s = mlgen.Mix(rng, 3, hier=hier)
            m = (mlgen.Hier if hier else mlgen.Mixed)(s)
            n1, nz = s.lxi, s.lz
            D = n1 + nz
            N = pick(rng, [1, 2, 5, 9], [40])
            K = int(rng.choice([1, 3, 7]))
            part = rand_parts(rng, s, N)
            t, u = float(rng.randint(3)), rng.normal(size=1)
            c.note(hier=hier, N=N, future=K, **s.describe())
            fq = [pred(s, p, u, int(t)) for p in part]
            # future particles: near predictions or far away
            fut = np.zeros((K, D + (2 * nz ** 2 if hier else 0)))
            for k in range(K):
                a, q = fq[rng.randint(N)]
                fut[k, :D] = a + rng.choice([0.3, 1.0, 4.0]) * (np.linalg.cholesky(q) @ rng.normal(size=D))
            find = rng.randint(K, size=N)
            ind = rng.randint(7)
            uv, yv, tv = decoys(rng, 7, ind, u, t)
            fpa = ParticleApproximation(particles=fut)
            ftr = [TrajectoryStep(fpa)]
            p0, f0 = part.copy(), fut.copy()

            want = np.array([logpdf(fut[find[i], :D] - fq[i][0], fq[i][1]) for i in range(N)])
            tol = dict(rtol=1e-7, atol=1e-7)
            got = m.logp_xnext(part, fut[find], u, t)
            c.close(np.ravel(got), want, 'backward transition density', key='xnext', **tol)
            got = m.logp_xnext_full(part=part, past_trajs=None, pind=np.arange(N), future_trajs=ftr, find=find, ut=uv, yt=yv, tt=tv, cur_ind=ind)
            c.close(np.ravel(got), want, 'backward transition density (full interface)', key='xnext_full', **tol)
            one = np.array([logpdf(fut[0, :D] - a, q) for a, q in fq])
            c.close(np.ravel(m.logp_xnext(part, fut[:1], u, t)), one, 'backward transition density to one common state', key='xnext_one', **tol)
            xi = np.array([logpdf(fut[find[i], :n1] - fq[i][0][:n1], fq[i][1][:n1, :n1]) for i in range(N)])
            for cls in ((mlgen.Hier,) if hier else (mlgen.Mixed, mlgen.Marg)):
                mm = m if isinstance(m, cls) else cls(s)
                got = mm.logp_xnext_singlestep(part=part, past_trajs=None, pind=np.arange(N), future_parts=fut, find=find, ut=uv, yt=yv, tt=tv, cur_ind=ind)
                c.close(np.ravel(got), xi, 'density of the next nonlinear state', key='single', **tol)
                # next state given the nonlinear part of the future state
                got = mm.cond_predict_single_step(part=part, past_trajs=None, pind=np.arange(N), future_parts=fut, find=find, ut=uv, yt=yv, tt=tv, cur_ind=ind)
                for i in range(N):
                    x, z, P = mlgen.split(s, np.asarray(got)[i])
                    a, q = fq[i]
                    G = np.linalg.solve(q[:n1, :n1], q[:n1, n1:]).T
                    xn = fut[find[i], :n1]
                    c.close(x, xn, 'conditional prediction does not have the given nonlinear state', key='cps-xi', rtol=0, atol=0)
                    c.close(z, a[n1:] + G @ (xn - a[:n1]), 'conditional prediction: linear mean', key='cps-z', **tol)
                    c.close(P, q[n1:, n1:] - G @ q[:n1, n1:], 'conditional prediction: linear covariance', key='cps-P', **tol)
            c.check(np.array_equal(p0, part) and np.array_equal(f0, fut), 'evaluation modified the particles', 'mut')
            ctx.count('densities_compared', 4 * N)

            # drawing the linear state
            R = max(1, 40 // N)
            rep = rng.permutation(np.tile(np.arange(N), R))
            fr = rng.randint(K, size=len(rep))
            par = part[rep]
            q0 = par.copy()
            got = np.asarray(m.sample_smooth(part=par, ptraj=None, anc=np.zeros(len(rep), dtype=int), future_trajs=ftr, find=fr, ut=uv, yt=yv, tt=tv, cur_ind=ind))
            c.check(np.array_equal(par, q0) and np.array_equal(fpa.part, f0), 'drawing the linear state modified the particles', 'mut')
            c.check(len(got) == len(rep), 'wrong number of draws', 'len')
            if c.failed:
                continue
            c.close(got[:, :n1], par[:, :n1], 'drawing the linear state changed the nonlinear state', key='xi', rtol=0, atol=0)
            prev = 0.0
            for j, i in enumerate(rep):
                x, z, P = mlgen.split(s, par[j])
                a, q = fq[i]
                A = np.vstack([s.get('Axi', x, u, int(t)), s.get('Az', x, u, int(t))])
                if hier:
                    A[:n1] = 0
                G = np.linalg.solve(q, A @ P).T
                mu, S = z + G @ (fut[fr[j], :D] - a), P - G @ A @ P
                w, res = whiten(got[j, n1:D] - mu, 0.5 * (S + S.T), max(1.0, np.trace(P)))
                c.check(res < 1e-3, 'drawn linear state is impossible given the particle and the next state', 'singular', res=res)
                if len(w):
                    if j:
                        rows.append(prev * w[0])
                    prev = w[0]
                    whites[hier].append(w)
            got = np.asarray(m.sample_smooth(part=par, ptraj=None, anc=np.zeros(len(rep), dtype=int), future_trajs=None, find=fr, ut=uv, yt=yv, tt=tv, cur_ind=ind))
            c.close(got[:, :n1], par[:, :n1], 'drawing the linear state changed the nonlinear state', key='xi', rtol=0, atol=0)
            for j in range(len(rep)):
                x, z, P = mlgen.split(s, par[j])
                w, res = whiten(got[j, n1:D] - z, P, max(1.0, np.trace(P)))
                c.check(res < 1e-3, 'last drawn linear state is impossible given the particle', 'singular', res=res)
                if len(w):
                    last.append(w)
            ctx.count('rows_drawn', 2 * len(rep))
            ctx.distinct(hier, s.lxi, s.lz, s.cross, str(sorted(s.mode.items())), N, K)
