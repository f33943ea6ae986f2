"""Filters converge to the exact posterior."""
import numpy as np
from ..core import P_REJECT
from ..hmm import *


def run_main(ctx, n=6, N=4000, reps=40, filters=('pf', 'apf', 'sir', 'pfy')):
    from scipy.stats import t as tdist
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = filters[c.idx % len(filters)]
            prop = filt in ('sir', 'pfy')
            T = int(rng.choice([2, 4, 8]))
            S = int(rng.choice([2, 3, 4]))
            h = HMM(rng, T, S=S, K=3, zeros=0.2 if not prop and rng.rand() < 0.5 else 0.0, ymiss=0.0 if prop else float(rng.choice([0, 0.4])), flat=0.1,
                    meas_first=True if filt == 'pfy' else bool(rng.rand() < 0.6))
            m = HMMModel(h, rng)
            model = HMMSIR(m) if filt == 'sir' else m
            res = float([0.0, 0.5, 0.67, 1.0, 1.5][rng.randint(5)])
            if filt == 'apf' and c.idx % 2:
                res = 1.5
            c.note(filter=filt, T=T, S=S, res=res, meas_first=h.meas_first, y=h.y)
            want = h.filt(filt == 'pfy')
            est = np.zeros((reps, T + 1, S))
            usesim = bool(rng.rand() < 0.5)
            for k in range(reps):
                if usesim:
                    from pyparticleest.simulator import Simulator
                    yy = h.ysig() if h.meas_first else h.ysig()[1:]
                    s = Simulator(model, h.usig() + [None], yy)
                    s.simulate(N, 0, filter=filt, smoother=None, res=res, meas_first=h.meas_first)
                    e, w = s.get_filtered_estimates()
                    mean = s.get_filtered_mean()
                    c.close(mean[:, 0], [np.sum(w[t] * e[t, :, 0]) for t in range(T + 1)], 'filtered mean', key='mean')
                    for t in range(T + 1):
                        est[k, t] = np.bincount(e[t, :, 0].astype(int), weights=w[t], minlength=S)
                else:
                    pt = run_filter(h, model, N, filt, res=res)
                    for t in range(T + 1):
                        w = np.exp(pt[t].pa.w - np.max(pt[t].pa.w))
                        est[k, t] = np.bincount(ix(pt[t].pa.part), weights=w / w.sum(), minlength=S)
            mu, se = est.mean(0), est.std(0, ddof=1) / np.sqrt(reps)
            for t in range(T + 1):
                # bias of self normalised estimates is O(1/N)
                var = est[:, t].var(0, ddof=1)
                d = np.maximum(np.abs(mu[t] - want[t]) - 20 * var - 20.0 / N, 0)
                z = d / np.maximum(se[t], 0.05 / np.sqrt(N * reps))
                p = 2 * tdist.sf(z.max(), reps - 1)
                c.check(p > P_REJECT / 10, 'filter does not converge to the posterior: %s' % filt, 'converge:' + filt, step=t, got=mu[t], want=want[t], se=se[t])
                ctx.count('posteriors_compared')
            ctx.distinct(filt, T, S, res, h.meas_first, usesim, c.idx)
