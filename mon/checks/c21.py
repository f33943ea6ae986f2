"""Marginalized smoothing weights against dense joint densities."""
import numpy as np
from ..core import pick
from ..dense import *
from .. import mlgen


class SpyMarg(mlgen.Marg):
    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        p0 = part.copy()
        r = super(SpyMarg, self).logp_xnext_full(part=part, past_trajs=past_trajs, pind=pind, future_trajs=future_trajs, find=find, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
        n = self.s.lxi
        fut = np.stack([st.pa.part[np.asarray(find, dtype=int)][:, :n] for st in future_trajs], axis=1)
        self.calls.append((cur_ind, p0, fut.copy(), np.array(r, copy=True).ravel(), np.array_equal(p0, part)))
        return r


def want(s, row, fut, t):
    x, z, P = mlgen.split(s, row)
    path = [x] + list(fut)
    return s.joint(path, z0=z, P0=P, start=t).loglik(s.obs(path, start=t, y_from=t + 1))


def run_main(ctx, n=40):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            s, mf, pre = mlgen.setup(c, T=pick(rng, [1, 2, 3, 5], [11]))
            m = SpyMarg(s)
            m.calls = []
            N, M = pick(rng, [2, 4, 7], [20]), pick(rng, [1, 3], [10])
            pt = mlgen.run_mix(s, m, N, mf, pre, res=float(rng.choice([0.67, 1.0, 0.0])))
            for meth in ('full', 'mcmc', 'mhips', 'mhbp'):
                m.calls = []
                if meth == 'mhbp' and rng.rand() < 0.5:
                    continue
                c.note(method=meth, N=N, M=M)
                opt = {'R': 3} if meth in ('mcmc', 'mhips', 'mhbp') else None
                pt.perform_smoothing(M, method=meth, smoother_options=opt)
                if meth == 'full':
                    c.check(len(set(t for t, _, _, _, _ in m.calls)) == s.T, 'not every step was weighted', 'steps')
                off = {}
                ncmp = 0
                for t, part, fut, r, same in m.calls:
                    c.check(same, 'weighting modified the particles', 'mut')
                    if not c.check(fut.shape[1] == s.T - t, 'future trajectory has the wrong length', 'len', step=t, got=fut.shape[1]):
                        break
                    for i in range(len(part)):
                        if ncmp > 300:
                            break
                        w = want(s, part[i], fut[i], t)
                        k = (t, fut[i].tobytes())
                        if k not in off:
                            off[k] = (r[i] - w, part[i].copy())
                            continue
                        ncmp += 1
                        ctx.count('differences_compared', int(not np.array_equal(part[i], off[k][1])))
                        c.close(r[i] - w, off[k][0], 'marginalized smoothing weight: difference between two particles', key='weight:' + meth, step=t, rtol=1e-6, atol=1e-6)
                if meth == 'full':
                    ctx.count('steps_weighted', s.T)
            ctx.distinct(s.lxi, s.lz, s.ly, s.cross, s.noC, str(sorted(s.mode.items())), s.T, N, mf, pre)
