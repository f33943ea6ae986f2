"""Ancestor smoothing is genealogy; shapes and estimates of every smoother."""
import numpy as np
from ..trace import *
from .. import oracles as O
from ..core import Pits


def result_shape(c, r, st, M):
    c.check(len(st) == len(r.final) and len(st.traj) == len(r.final), 'smoothed result does not have one entry per time step', 'len', got=len(st), want=len(r.final))
    c.check(all(s.pa.part.shape == (M, NCOL) for s in st.traj), 'wrong number of trajectories', 'M', shapes=[s.pa.part.shape for s in st.traj])
    est = st.get_smoothed_estimates()
    c.check(est.shape == (len(r.final), M, NCOL), 'estimates have wrong shape', 'est-shape', shape=est.shape)
    c.check(all(np.array_equal(est[t], st.traj[t].pa.part) for t in range(len(st.traj))), 'estimates differ from stored trajectories', 'est')
    # stored ancestor links must be the identity: trajectory j is entry j of every step
    for t, s in enumerate(st.traj):
        if s.ancestors is not None:
            c.check(np.array_equal(s.ancestors, np.arange(M)), 'trajectory index does not refer to the same trajectory at every step', 'links', step=t)


def run_main(ctx, n=300):
    from pyparticleest.simulator import Simulator
    pits = Pits(np.random.RandomState(ctx.seed))
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                pits.judge(c)
                continue
            rng = c.rng
            filt = ['pf', 'apf', 'pf', 'pfy', 'cpf', 'cpfas', 'cpfyas', 'sir', 'csiras'][c.idx % 9]
            cfg = gen_cfg(rng, filt)
            cfg['inf_prob'] = 0.0
            M = int(rng.choice([1, 2, 5, 40]))
            c.note(M=M, **cfg)
            fo = {}
            if filt[0] == 'c':
                fo = {'cond_traj': cond_traj(rng, cfg['T'] + 1)}
            r = drive(cfg, rng, fo)
            if r.dead or any(np.any(np.isnan(s.w)) for s in r.final):
                continue
            meths = ['ancestor', 'ancestor'] if filt in ('sir', 'csiras') else ['ancestor', ['full', 'mcmc', 'rs', 'rsas', 'mhips', 'mhips_reduced', 'mhbp'][rng.randint(7)]]
            for meth in meths:
                opt = {'R': int(rng.choice([1, 2, 5]))} if meth in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp', 'rs') else None
                st = r.pt.perform_smoothing(M, method=meth, smoother_options=opt)
                result_shape(c, r, st, M)
                ctx.count('smoothings')
                if meth == 'ancestor':
                    last = r.final[-1]
                    ids = [list(s.part[:, ID]) for s in r.final]
                    cur = st.traj[-1].pa.part
                    idx = np.array([ids[-1].index(i) if i in ids[-1] else -1 for i in cur[:, ID]])
                    if not c.check(np.all(idx >= 0), 'final smoothed state is not a final particle', 'final-member'):
                        break
                    O.expect_counts(c, last.w, idx, M, 'final states not selected in proportion to the weights', 'final-counts')
                    if len(last.w) > 1:
                        pits.add('final particle', np.exp(norm(last.w)), idx[rng.randint(M)])
                    for t in reversed(range(len(r.final) - 1)):
                        par = r.final[t + 1].anc[idx]
                        want = r.final[t].part[par]
                        got = st.traj[t].pa.part
                        if not c.check(np.array_equal(got, want), 'smoothed state is not the recorded ancestor', 'genealogy', step=t, got=got[:, ID], want=want[:, ID]):
                            break
                        idx = par
                    ctx.count('genealogies', M)
                ctx.distinct(filt, meth, cfg['N'], cfg['T'], M, cfg['prealloc'], cfg['meas_first'])
