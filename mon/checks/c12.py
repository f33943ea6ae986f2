"""Backward simulation smoothers follow the backward kernel exactly."""
import numpy as np
from ..core import pick
from ..core import chi2_p, P_REJECT, Pits
from ..hmm import *
from .. import trace as tr


def exact_bsi(h, pt):
    """distribution over (T+1)-state paths of backward simulation given the
    stored filter result"""
    T = len(pt) - 1
    xs = [ix(s.pa.part) for s in pt.traj]
    ws = []
    for s in pt.traj:
        w = np.exp(s.pa.w - np.max(s.pa.w))
        ws.append(w / w.sum())
    pr = {}
    cur = {}
    for i, w in enumerate(ws[-1]):
        cur[(xs[-1][i],)] = cur.get((xs[-1][i],), 0) + w
    for t in reversed(range(T)):
        nxt = {}
        for path, p in cur.items():
            if p == 0:
                continue
            b = ws[t] * h.p(t)[xs[t], path[0]]
            b = b / b.sum()
            for i, q in enumerate(b):
                if q:
                    k = (xs[t][i],) + path
                    nxt[k] = nxt.get(k, 0) + p * q
        cur = nxt
    return np.array([cur.get(p, 0.0) for p in h.paths()])


def run_hmm(ctx, n=4, methods=('full',), reps=3000, M=4):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            meth = methods[c.idx % len(methods)]
            T = int(rng.choice([1, 2, 3]))
            S = 3 if T < 3 else 2
            h = HMM(rng, T, S=S, K=2, zeros=float(rng.choice([0.0, 0.4])) if meth != 'mcmc' else 0.0, ymiss=float(rng.choice([0, 0.3])),
                    flat=0.1 if meth != 'mcmc' else 0.3, meas_first=bool(rng.rand() < 0.7))
            m = HMMModel(h, rng)
            N = int(rng.choice([2, 3, 6]))
            pt = run_filter(h, m, N, 'pf', res=float(rng.choice([0, 0.67, 1.0])))
            opts = None
            if meth == 'rs':
                opts = {'R': int(rng.choice([1, 2, 5]))} if rng.rand() < 0.7 else None
            elif meth == 'rsas' and rng.rand() < 0.5:
                opts = dict(x1=float(rng.choice([0.3, 1.0])), P1=float(rng.choice([0.1, 1.0])), sv=float(rng.choice([0.1, 1.0])),
                            sw=float(rng.choice([0.3, 1.0])), ratio=float(rng.choice([0.3, 1.0, 2.0])))
            elif meth == 'mcmc':
                opts = {'R': 60}
            c.note(method=meth, T=T, S=S, N=N, options=opts)
            pj = exact_bsi(h, pt)
            obs = np.zeros(len(pj))
            MM, use, nr = M, 1, reps
            if meth == 'mcmc':
                MM, use, nr = (40, 10, reps // 10) if rng.rand() < 0.7 else (1, 1, reps // 5)
            for k in range(nr):
                st = pt.perform_smoothing(MM, method=meth, smoother_options=opts)
                x = states(st.traj)
                codes = h.code(x)
                obs += np.bincount(codes[rng.permutation(MM)[:use]], minlength=len(obs))
                if not c.check(not np.any(pj[codes] == 0), 'trajectory outside the support of the filter result (zero density transition or not a filter particle)', 'support:' + meth, x=x):
                    break
            p = chi2_p(obs, pj)
            c.check(p > P_REJECT, 'backward simulation does not follow the backward kernel: %s (p=%.3g)' % (meth, p), 'bsi:' + meth,
                    observed=obs, expected=pj * obs.sum())
            ctx.count('trajectories', int(obs.sum()))
            ctx.distinct(meth, T, S, N, MM, str(opts), c.idx)


def exact_mcmc(h, pt, R):
    """distribution over paths after R steps of the Metropolis-Hastings backward
    sampler, every chain starting at the recorded ancestor"""
    T = len(pt) - 1
    xs = [ix(s.pa.part) for s in pt.traj]
    ws = [np.exp(s.pa.w - np.max(s.pa.w)) for s in pt.traj]
    ws = [w / w.sum() for w in ws]
    cur = {((xs[-1][i],), i): w for i, w in enumerate(ws[-1])}
    for t in reversed(range(T)):
        n = len(ws[t])
        nxt = {}
        kern = {}
        for (path, i), p in cur.items():
            if path[0] not in kern:
                d = h.p(t)[xs[t], path[0]]
                K = ws[t][None, :] * np.minimum(1.0, d[None, :] / d[:, None])
                K[np.arange(n), np.arange(n)] += 1.0 - K.sum(1)
                kern[path[0]] = np.linalg.matrix_power(K, R)
            for b, q in enumerate(kern[path[0]][int(pt[t + 1].ancestors[i])]):
                if q:
                    k = ((xs[t][b],) + path, b)
                    nxt[k] = nxt.get(k, 0) + p * q
        cur = nxt
    out = {}
    for (path, _i), p in cur.items():
        out[path] = out.get(path, 0) + p
    return np.array([out.get(p, 0.0) for p in h.paths()])


def run_iters(ctx, n=10, reps=1500):
    """the MCMC variant performs the number of iterations it is asked for"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            T = int(rng.choice([1, 2]))
            h = HMM(rng, T, S=3, K=2, zeros=0.0, ymiss=float(rng.choice([0, 0.3])), flat=0.1, meas_first=bool(rng.rand() < 0.7))
            m = HMMModel(h, rng)
            N = int(rng.choice([3, 6]))
            pt = run_filter(h, m, N, 'pf', res=float(rng.choice([0, 0.67, 1.0])))
            R, M = int(rng.choice([0, 1, 2, 4])), int(rng.choice([1, 3]))
            c.note(T=T, N=N, R=R, M=M)
            pj = exact_mcmc(h, pt, R)
            obs = np.zeros(len(pj))
            for _ in range(reps):
                st = pt.perform_smoothing(M, method='mcmc', smoother_options={'R': R})
                obs[h.code(states(st.traj))[rng.randint(M)]] += 1
            p = chi2_p(obs, pj)
            c.check(p > P_REJECT, 'trajectories are not those of the requested number of iterations of the MCMC sampler (p=%.3g)' % p, 'iterations:mcmc',
                    observed=obs, expected=pj * reps)
            ctx.count('trajectories', reps)
            ctx.distinct('iterations', T, N, R, M, c.idx)


def run_trace(ctx, n=200, methods=('full', 'rs', 'rsas'), M=5):
    """continuous model, many steps: every backward draw by its transform"""
    pits = Pits(np.random.RandomState(ctx.seed))
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                pits.judge(c)
                continue
            rng = c.rng
            meth = methods[c.idx % len(methods)]
            cfg = tr.gen_cfg(rng, 'pf')
            cfg['sharp'] = float(rng.choice([0.0, 0.3, 1.0, 20.0]))
            cfg['inf_prob'] = 0.0
            c.note(method=meth, **cfg)
            r = tr.drive(cfg, rng)
            # densities that change strongly from step to step
            r.p.sig = lambda t: 0.3 if int(tr.tv(t)) % 2 else 3.0
            for _ in range(6):
                k = pick(rng, [1, M], [20, 60])
                st = r.pt.perform_smoothing(k, method=meth)
                judge_bsi(c, r, st, pits, meth, [rng.randint(k)])
            ctx.distinct(meth, cfg['N'], cfg['T'], cfg['sharp'], cfg['prealloc'], cfg['meas_first'])


def judge_bsi(c, r, st, pits, meth, cols):
    p = r.p
    steps = r.final
    T = len(steps) - 1
    for t in reversed(range(T + 1)):
        s = steps[t]
        w = np.exp(tr.norm(s.w))
        part = st.traj[t].pa.part
        c.check(np.all(np.isin(part[:, tr.ID], s.part[:, tr.ID])), 'smoothed state is not a filter particle of that step', 'member', step=t)
        for j in cols:
            i = np.nonzero(s.part[:, tr.ID] == part[j, tr.ID])[0]
            if len(i) != 1:
                continue
            c.check(np.array_equal(s.part[i[0], [tr.X, tr.TS]], part[j, [tr.X, tr.TS]]), 'smoothed state differs from the filter particle', 'state', step=t)
            if t == T:
                b = w
            else:
                xn = st.traj[t + 1].pa.part[j, tr.X]
                lp = p.lp_x(s.part[:, tr.X], xn, r.u[t], t)
                lb = tr.norm(s.w) + lp
                b = np.exp(lb - np.max(lb))
            if len(b) > 1:
                pits.add('%s %s' % (meth, 'final' if t == T else 'backward'), b, i[0])
                c.ctx.count('backward_draws')
