"""Conditional particle filter kernels leave the smoothing posterior invariant."""
import numpy as np
from scipy.stats import chi2
from ..core import chi2_p, P_REJECT
from ..hmm import *
from .c33 import run_cond


def run_main(ctx, n=4, filters=('cpf',), reps=3000, smoothers=('ancestor', 'full')):
    ps = {}
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                # all models together
                for f, v in sorted(ps.items()):
                    p = chi2.sf(-2 * np.sum(np.log(np.maximum(v, 1e-300))), 2 * len(v))
                    c.check(p > P_REJECT, 'conditional filter does not preserve the smoothing posterior: %s (%d models together, p=%.3g)' % (f, len(v), p), 'invariance:' + f, p=v)
                continue
            rng = c.rng
            filt = filters[c.idx % len(filters)]
            sm = smoothers[(c.idx // len(filters)) % len(smoothers)]
            prop = filt in ('csiras', 'cpfyas')
            T = int(rng.choice([1, 2, 3]))
            S = 3 if T < 3 else 2
            zeros = float(rng.choice([0.0, 0.3])) if not prop else 0.0
            h = HMM(rng, T, S=S, K=2, zeros=zeros, ymiss=0.0 if prop else float(rng.choice([0, 0.4])), flat=0.15,
                    meas_first=True if filt == 'cpfyas' else bool(rng.rand() < 0.7))
            m = HMMModel(h, rng)
            model = HMMSIR(m) if filt == 'csiras' and sm == 'ancestor' else m
            c.note(filter=filt, T=T, S=S, zeros=zeros, meas_first=h.meas_first, smoother=sm)
            flat0 = filt == 'cpfyas'
            pj = h.joint(flat0)
            paths = np.array(h.paths())
            start = np.random.choice(len(paths), size=reps, p=pj)
            obs = np.zeros(len(paths))
            moved = 0
            prealloc = bool(rng.rand() < 0.3)
            for s in start:
                pt = run_filter(h, model, 2, filt, filter_options={'cond_traj': cond_steps(paths[s])}, prealloc=prealloc)
                st = pt.perform_smoothing(1, method=sm)
                k = h.code(states(st.traj))[0]
                obs[k] += 1
                moved += k != s
            p = chi2_p(obs, pj)
            ps.setdefault(filt, []).append(p)
            c.check(p > P_REJECT, 'conditional filter does not preserve the smoothing posterior: %s (p=%.3g)' % (filt, p), 'invariance:' + filt,
                    observed=obs, expected=reps * pj, paths=paths)
            c.check(moved > 0, 'kernel never moves', 'stuck:' + filt)
            ctx.count('kernel_steps', reps)
            ctx.count('moves', moved)
            ctx.distinct(filt, sm, T, S, zeros, h.meas_first, prealloc, c.idx)
