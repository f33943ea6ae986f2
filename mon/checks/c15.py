"""MCMC smoothers leave the joint smoothing distribution invariant."""
import numpy as np
from ..core import chi2_p, P_REJECT
from ..hmm import *
from .c33 import run_mh


def run_mhips(ctx, n=12, M=20000):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            meth = ['mhips', 'mhips_reduced'][c.idx % 2]
            T = int(rng.choice([0, 1, 2, 3]) if c.idx % 5 == 0 else rng.choice([1, 2, 3]))
            S = 3 if T < 3 else 2
            h = HMM(rng, T, S=S, K=2, zeros=float(rng.choice([0, 0.3])), ymiss=float(rng.choice([0, 0.5])), flat=0.1, meas_first=bool(rng.rand() < 0.7) or T == 0)
            prop = ['dyn', 'unif', 'future', 'meas'][rng.randint(4)]
            pj = h.joint()
            paths = np.array(h.paths())
            start = np.random.choice(len(paths), size=M, p=pj)
            ex = paths[start].T.copy()
            m = HMMModel(h, rng, proposal=prop, exact=ex)
            R = int(rng.choice([1, 2, 4]))
            c.note(method=meth, proposal=prop, T=T, S=S, R=R, y=h.y)
            pt = run_filter(h, m, M, 'pf', res=0.0, prealloc=bool(rng.rand() < 0.3))
            m.smoothing = True
            st = pt.perform_smoothing(M, method=meth, smoother_options={'R': R})
            k = h.code(states(st.traj))
            obs = np.bincount(k, minlength=len(paths))
            p = chi2_p(obs, pj)
            c.check(p > P_REJECT, 'smoothing posterior not invariant: %s with %s proposal (p=%.3g)' % (meth, prop, p), 'mhips:' + meth,
                    observed=obs, expected=pj * M)
            c.check(np.mean(k != np.sort(k)) > 0 and len(set(k)) > 1, 'degenerate', 'degenerate')
            ctx.count('trajectories', M)
            ctx.distinct(meth, prop, T, S, R, c.idx)


class _Proposals(HMMModel):
    """counts the states proposed while smoothing"""
    rows = 0

    def propose_smooth(self, *a, **k):
        r = super(_Proposals, self).propose_smooth(*a, **k)
        self.rows += len(r)
        return r


class _ReducedProposals(HMMModel):
    rows = 0

    def create_initial_estimate(self, N):
        self.rows += N * bool(self.smoothing)
        return super(_ReducedProposals, self).create_initial_estimate(N)

    def update(self, particles, u, t, noise):
        self.rows += len(particles) * bool(self.smoothing)
        return super(_ReducedProposals, self).update(particles, u, t, noise)


def run_passes(ctx, n=40):
    """the number of iterations asked for is performed"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            meth = ['mhips', 'mhips_reduced', 'mhbp'][c.idx % 3]
            T, N, M = int(rng.choice([0, 1, 2, 5])), int(rng.choice([1, 4, 9])), int(rng.choice([1, 3, 12]))
            h = HMM(rng, T, S=3, K=2, zeros=0.0, ymiss=float(rng.choice([0, 0.5])), flat=0.1, meas_first=bool(rng.rand() < 0.7) or T == 0)
            m = (_ReducedProposals if meth == 'mhips_reduced' else _Proposals)(h, rng, proposal=['dyn', 'unif', 'future', 'meas'][rng.randint(4)])
            R = int(rng.choice([0, 1, 2, 7, 40]))
            c.note(method=meth, T=T, N=N, M=M, R=R)
            pt = run_filter(h, m, N, 'pf', res=0.67)
            m.smoothing = True
            st = pt.perform_smoothing(M, method=meth, smoother_options={'R': R})
            c.check(m.rows == R * M * (T + 1), 'states proposed per trajectory and step differ from the number of iterations asked for', 'passes:' + meth,
                    proposed=m.rows, expected=R * M * (T + 1))
            c.check(len(st.traj) == T + 1 and all(len(s.pa.part) == M for s in st.traj), 'wrong shape of the result', 'passes-shape')
            ctx.count('proposals_counted', R * M * (T + 1))
            ctx.distinct('passes', meth, T, N, M, R)


def exact_mhbp(h, pt, S):
    T = len(pt) - 1
    xs = [ix(s.pa.part) for s in pt.traj]
    ws = []
    for s in pt.traj:
        w = np.exp(s.pa.w - np.max(s.pa.w))
        ws.append(w / w.sum())
    cur = None
    for t in reversed(range(T + 1)):
        if t > 0:
            prior = ws[t - 1] @ h.p(t - 1)[xs[t - 1]]
        else:
            prior = h.P0
        base = prior * h.g(t)
        nxt = {}
        if cur is None:
            b = base / base.sum()
            nxt = {(x,): b[x] for x in range(S)}
        else:
            for path, p in cur.items():
                b = base * h.p(t)[:, path[0]]
                if p == 0:
                    continue
                b = b / b.sum()
                for x in range(S):
                    nxt[(x,) + path] = p * b[x]
        cur = nxt
    return np.array([cur.get(p, 0.0) for p in h.paths()])


class _Fut(object):
    def __init__(self, part):
        self.pa = self
        self.part = part


def enough(h, m, pt, tol=2e-4):
    """number of iterations after which an independence chain with the model's
    proposals is closer than tol to its target, whatever state follows"""
    worst = 0.0
    for t in range(h.T + 1):
        if t:
            part = pt.traj[t - 1].pa.part
            xs = ix(part)
            w = np.exp(pt.traj[t - 1].pa.w - np.max(pt.traj[t - 1].pa.w))
            pr = (w / w.sum())[:, None] * h.p(t - 1)[xs]
            pp = w / w.sum()
        else:
            pr, pp = h.P0[None, :], np.ones(1)
        n = len(pp)
        for nxt in range(h.S if t < h.T else 1):
            ft = [_Fut(np.full((n, 1), float(nxt)))] if t < h.T else None
            q = m._qs([_Fut(part)] if t else None, np.arange(n) if t else None, ft, np.arange(n), pt.yvec, pt.uvec, pt.tvec, t)
            tgt = pr * h.g(t) * (h.p(t)[:, nxt] if t < h.T else 1.0)
            prop = pp[:, None] * q
            ok = prop > 0
            r = 1.0 - tgt.sum() / np.max(tgt[ok] / prop[ok])
            worst = max(worst, r)
    return int(np.ceil(np.log(tol) / np.log(max(worst, 1e-3))))


def run_mhbp(ctx, n=8, M=40, reps=200):
    """the backward proposer with many iterations, against its exact target
    given a fixed (small) filter result"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            prop = ['dyn', 'unif', 'future', 'meas'][rng.randint(4)]
            N = int(rng.choice([2, 3, 6]))
            for _ in range(200):
                T = int(rng.choice([0, 1, 1, 2, 3]))
                S = 3 if T < 3 else 2
                h = HMM(rng, T, S=S, K=2, ymiss=float(rng.choice([0, 0.4])), flat=float(rng.choice([0.02, 0.1, 0.3])), meas_first=bool(rng.rand() < 0.7) or T == 0)
                m = HMMModel(h, rng, proposal=prop)
                pt = run_filter(h, m, N, 'pf', res=float(rng.choice([0, 0.67])))
                R = enough(h, m, pt)
                if R <= 60:
                    break
            else:
                continue
            c.note(proposal=prop, T=T, S=S, N=N, y=h.y, R=R)
            pj = exact_mhbp(h, pt, S)
            obs = np.zeros((2, len(pj)))
            for k in range(reps):
                st = pt.perform_smoothing(M, method='mhbp', smoother_options={'R': R})
                kk = h.code(states(st.traj))
                # every trajectory is a chain of its own converging to the target
                for half in range(2):
                    obs[half] += np.bincount(kk[half * (M // 2):(half + 1) * (M // 2)], minlength=len(pj))
            for half in range(2):
                p = chi2_p(obs[half], pj)
                c.check(p > P_REJECT, 'backward proposer does not converge to its target (%s proposal, p=%.3g)' % (prop, p), 'mhbp', half=half, observed=obs[half], expected=pj * obs[half].sum())
            ctx.count('trajectories', obs.sum())
            ctx.distinct('mhbp', prop, T, S, N, R, c.idx)


def run_mhbpn(ctx, n=6, N0=3000, reps=24):
    """few iterations on a large filter: every chain then starts (nearly) in
    its target, so any number of iterations has to leave it there"""
    from scipy.stats import t as tdist
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            prop = ['dyn', 'unif', 'future', 'meas'][rng.randint(4)]
            T = int(rng.choice([1, 2, 2, 3]))
            S = 3 if T < 3 else 2
            h = HMM(rng, T, S=S, K=2, zeros=float(rng.choice([0, 0.3])), ymiss=float(rng.choice([0, 0.4])), flat=float(rng.choice([0.02, 0.1, 0.3])), meas_first=bool(rng.rand() < 0.7))
            m = HMMModel(h, rng, proposal=prop)
            R = int(rng.choice([1, 1, 2]))
            res = float(rng.choice([0, 0.67, 1.0, 1.5]))
            M = N = N0
            if c.idx % 3 == 0:
                # every smoothing yields one (or two) trajectories only
                N, M = 400, [1, 2][c.idx // 3 % 2]
            c.note(proposal=prop, T=T, S=S, R=R, res=res, N=N, M=M, y=h.y, meas_first=h.meas_first)
            pj = h.joint()
            est = np.zeros((reps, len(pj)))
            for k in range(reps):
                pt = run_filter(h, m, N, 'pf', res=res)
                got = []
                for _ in range(int(N // M)):
                    st = pt.perform_smoothing(M, method='mhbp', smoother_options={'R': R})
                    got.append(h.code(states(st.traj)))
                est[k] = np.bincount(np.concatenate(got), minlength=len(pj)) / float(N // M * M)
            mu, var = est.mean(0), est.var(0, ddof=1)
            d = np.maximum(np.abs(mu - pj) - 20 * var - 20.0 / N, 0)
            z = d / np.maximum(np.sqrt(var / reps), 0.05 / np.sqrt(N * reps))
            p = 2 * tdist.sf(z.max(), reps - 1)
            c.check(p > P_REJECT / 10, 'the backward proposer leaves the smoothing distribution (%s proposal, R=%d, p=%.3g)' % (prop, R, p), 'mhbp:few', got=mu, want=pj, se=np.sqrt(var / reps))
            ctx.count('trajectories', N * reps)
            ctx.count('mhbp_single', N * reps if M < N else 0)
            ctx.distinct('mhbpn', prop, T, S, R, res, c.idx)
