import numpy as np
from ..trace import *
from .. import oracles as O


def run_main(ctx, n=400, filters=('pf', 'apf', 'sir', 'pfy')):
    for c in ctx.cases(n):
        with c:
            filt = filters[c.idx % len(filters)]
            cfg = gen_cfg(c.rng, filt, big=True, memory=True)
            cfg['sharp'] = float(c.rng.choice([0.01, 0.05, 0.2, 1.0, 20.0]))
            cfg['res'] = float(c.rng.choice([0.0, 0.1, 0.3, 0.5, 0.67, 0.8, 0.9, 0.97, 1.0, 1.5]))
            c.note(**cfg)
            r = drive(cfg, c.rng)
            c.check(all(isinstance(bool(f), bool) for f in r.flags) and len(r.flags) == len(r.steps) - (1 if cfg['meas_first'] or True else 0), 'one flag per step', 'flags')
            for t in range(1, len(r.steps)):
                if not O.usable(r, t - 1):
                    break
                prev, cur = r.steps[t - 1], r.steps[t]
                selw = prev.w
                if filt == 'apf' and r.meas[t][0] is not None:
                    selw = prev.w + r.p.l1w(prev.part[:, X], r.u[t - 1], r.meas[t][0], t - 1)
                O.check_decision(c, r, t, selw, filt)
                c.ctx.distinct(filt, cfg['N'], bool(r.flags[t - 1]), cfg['res'], cfg['sharp'], min(t, 6), round(neff(selw) / cfg['N'], 1))


def run_sim(ctx, n=200, filters=('pf', 'apf', 'sir', 'pfy')):
    """count returned by the simulator"""
    from pyparticleest.simulator import Simulator
    for c in ctx.cases(n):
        with c:
            filt = filters[c.idx % len(filters)]
            cfg = gen_cfg(c.rng, filt, big=True, memory=True)
            cfg.update(inf_prob=0.0, sharp=float(c.rng.choice([0.01, 0.05, 0.2, 1.0])), extra=0.0)
            c.note(**cfg)
            p = Params(c.rng, sharp=cfg['sharp'])
            tm = TraceModel(p)
            T, N = cfg['T'], cfg['N']
            y = [None if c.rng.rand() < cfg['ymiss'] else np.array([200.0 + t, 2 * c.rng.normal()]) for t in range(T + 1)]
            if not cfg['meas_first']:
                y = [None] + y[1:]
            u = [np.array([100.0 + t, c.rng.normal()]) for t in range(T + 1)]
            mf = cfg['meas_first'] or filt == 'pfy'
            yy = y if mf else y[1:]
            s = Simulator(PureSIRModel(tm) if filt == 'sir' else tm, u, yy)
            got = s.simulate(N, 0, filter=filt, smoother=None, res=cfg['res'], meas_first=mf)
            lo = hi = 0
            for t in range(1, len(s.pt)):
                w = np.array(s.pt[t - 1].pa.w)
                if filt == 'apf' and y[t] is not None:
                    w = w + p.l1w(s.pt[t - 1].pa.part[:, X], u[t - 1], y[t], t - 1)
                ne, thr = neff(w), cfg['res'] * N
                if abs(ne - thr) <= 1e-7 * N:
                    hi += 1
                elif cfg['res'] > 0 and ne < thr:
                    lo += 1
                    hi += 1
            c.check(lo <= got <= hi, 'number of resamplings returned is wrong', 'sim-count', got=got, lo=lo, hi=hi)
            c.check(len(s.pt) == T + 1, 'wrong number of steps', 'sim-steps')
            ctx.count('simulations')
            ctx.distinct('sim', filt, N, got, cfg['res'])
