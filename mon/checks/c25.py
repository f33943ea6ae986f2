"""EM: offline checker over the recorded history of one estimation, and exact
likelihood monotonicity for linear Gaussian models."""
import numpy as np
from ..core import pick
from ..trace import *
from ..emgen import EMModel, sched, make_script, NPAR
from .. import pargen, dense
from ..dense import Joint
from .c09 import snap, diff
from pyparticleest.simulator import Simulator
import pyparticleest.paramest.paramest as pe

OPT = ('mcmc', 'mhips', 'mhips_reduced', 'mhbp')


def runs(c, m, ev, sims, u, y, cfg, kw, numw, trajw, cols=(X, TS)):
    """replay the simulation of every iteration on its own Simulator"""
    k = 0
    for i, (a, pset) in enumerate(sims):
        m2 = EMModel(Params(np.random.RandomState(cfg['pseed'])), None)
        st = np.random.get_state()
        m2.set_params(pset)
        ref = Simulator(m2, u, y)
        np.random.set_state(a[2])
        ref.simulate(numw[i], trajw[i], filter=cfg['filter'], smoother=cfg['smoother'], meas_first=cfg['mf'], **kw(i))
        np.random.set_state(st)
        yield i, ref


def run_main(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            iters = pick(rng, [0, 1, 2, 3, 5], [14])
            filt = ['pf', 'apf', 'sir', 'pfy'][int(rng.choice(4, p=[0.5, 0.25, 0.1, 0.15]))]
            smoother = str(rng.choice(['full', 'ancestor', 'mcmc', 'mhips', 'mhbp', 'rs', 'rsas', 'mhips_reduced']))
            T = pick(rng, [1, 2, 4], [10])
            mf = True if filt == 'pfy' else bool(rng.rand() < 0.5)
            nump, numw = sched(rng, 2, 12, iters)
            numt, trajw = sched(rng, 1, 8, iters)
            opts = {'R': int(rng.choice([1, 2]))} if smoother in OPT or rng.rand() < 0.3 else None
            if smoother == 'ancestor' and opts is not None:
                opts = {}
            cfg = dict(filter=filt, smoother=smoother, mf=mf, pseed=int(rng.randint(2 ** 31)))
            c.note(iters=iters, nump=nump, numt=numt, T=T, **cfg)
            p0 = rng.uniform(-1, 1, size=NPAR)
            script = make_script(rng, iters + 3, p0)
            m = EMModel(Params(np.random.RandomState(cfg['pseed'])), script, rng.uniform(-1, 1, size=(5, NPAR)).tolist() if rng.rand() < 0.5 else None)
            u = [np.array([100.0 + t, rng.normal()]) for t in range(T + 1)]
            y = [np.array([200.0 + t + (0 if mf else 1), 2 * rng.normal()]) for t in range(T + (1 if mf else 0))]
            if filt not in ('sir', 'pfy') and T > 1 and rng.rand() < 0.3:
                y[1] = None
            p0 = p0.tolist() if rng.rand() < 0.5 else p0
            given = dict(u=u, y=y, p0=p0, opts=opts, nump=nump, numt=numt)
            before = snap(given)
            est = pe.ParamEstimation(m, u, y)
            rep, simcb = [], []
            cb = (lambda params, Q, cur_iter: rep.append((np.array(params, dtype=float).ravel(), cur_iter, len(m.ev)))) if rng.rand() < 0.7 else None
            cbs = (lambda e: (simcb.append((e, e.straj, len(m.ev))), None)[1]) if rng.rand() < 0.7 else None
            kw = {}
            if rng.rand() < 0.5:
                kw['tol'] = 1e-9
            out = est.maximize(p0, nump, numt, max_iter=iters, callback=cb, callback_sim=cbs, meas_first=mf, filter=filt, smoother=smoother, smoother_options=opts, **kw)
            d = diff(before, snap(given))
            c.check(d is None, 'estimation modified the data or options of the caller', 'modified', what=d)
            final = np.array(out[0], dtype=float).ravel()
            # --- history
            ev = m.ev
            kinds = [e[0] for e in ev if e[0] not in ('trial',)]
            want = ['set', 'sim', 'max'] * iters
            sims, cur, last, good = [], None, np.array(p0, dtype=float), True
            it = 0
            for pos, e in enumerate(ev):
                if e[0] in ('set', 'trial'):
                    cur = e[1]
                elif e[0] == 'resim' and smoother == 'mhips_reduced':
                    pass        # proposes from the initial distribution
                elif e[0] == 'resim':
                    good = c.check(False, 'several simulations in one iteration, or none of the parameters installed', 'resim', iteration=it)
                    break
                elif e[0] == 'sim':
                    if not c.check(len(sims) == it, 'several simulations in one iteration', 'simcount', iteration=it):
                        good = False
                        break
                    c.close(cur, last, 'simulation does not use the current parameters', 1e-12, 0, 'current', iteration=it)
                    if it < iters:
                        c.check(e[1] == numw[it], 'wrong number of particles', 'nump', iteration=it, got=e[1], want=numw[it])
                    sims.append((e, cur))
                elif e[0] == 'max':
                    if not c.check(len(sims) == it + 1, 'maximisation without a simulation before', 'maxcount', iteration=it):
                        good = False
                        break
                    if it < iters:
                        c.check(all(len(s) == trajw[it] for s in e[2]), 'wrong number of trajectories', 'numt', iteration=it, got=len(e[2][0]), want=trajw[it])
                    last = np.array(script[it])
                    it += 1
                elif e[0] == 'maxw':
                    good = c.check(False, 'weighted maximisation in plain EM', 'maxw')
                    break
            if not good:
                continue
            c.check(it == iters and len(sims) == iters, 'wrong number of iterations', 'iters', got=it, simulations=len(sims), want=iters)
            c.close(final, last, 'returned parameters are not those of the last maximisation', 1e-12, 0, 'returned')
            if it != iters:
                continue
            maxpos = [k for k, e in enumerate(ev) if e[0] == 'max']
            nxt = [k for k, e in enumerate(ev) if e[0] == 'set'][1:] + [len(ev)]
            if cb is not None:
                c.check(len(rep) == iters, 'callback not called once per iteration', 'callback:count', got=len(rep))
                for i, (p, k, pos) in enumerate(rep[:iters]):
                    c.close(p, script[i], 'callback got other parameters than the maximiser returned', 1e-12, 0, 'callback:params', iteration=i)
                    c.check(k - rep[0][1] == i and rep[0][1] in (0, 1), 'iteration numbers reported are not consecutive', 'callback:iter', got=k, iteration=i)
                    c.check(pos > maxpos[i] and (i + 1 >= iters or pos <= maxpos[i + 1]), 'callback out of order', 'callback:order')
            if cbs is not None:
                c.check(len(simcb) == iters, 'simulation callback not called once per iteration', 'callsim:count', got=len(simcb))
                for i, (e, st, pos) in enumerate(simcb[:iters]):
                    c.check(e is est and st is ev[maxpos[i]][1] and pos == maxpos[i], 'simulation callback not between simulation and maximisation of the same trajectories', 'callsim:order', iteration=i)
            # --- simulations are those of the simulator
            for i, ref in runs(c, m, ev, sims, u, y, cfg, lambda i: dict(smoother_options=opts), numw, trajw):
                a = ev[maxpos[i]][2]
                b = [s.pa.part for s in ref.straj.traj]
                c.check(len(a) == len(b) and all(np.array_equal(x[:, [X, TS]], z[:, [X, TS]]) for x, z in zip(a, b)), 'trajectories maximised over are not those of a run of the simulator with the requested settings', 'replay', iteration=i)
                ctx.count('iterations')
                ctx.distinct(filt, smoother, numw[i], trajw[i], T, mf, i)


def loglik(s, p):
    """exact data log-likelihood of a linear model"""
    j, obs = Joint(), {}
    j.add('z0', s.val('z0', p), s.val('P0', p))
    for t in range(s.T + 1):
        w = (None, None, t)
        j.add('y%d' % t, s.val('h', p, w), s.val('R', p, w), [('z%d' % t, s.val('C', p, w))])
        if s.y[t] is not None:
            obs['y%d' % t] = s.y[t]
        if t < s.T:
            w = (None, s.u[t], t)
            j.add('z%d' % (t + 1), s.val('f', p, w), s.val('Q', p, w), [('z%d' % t, s.val('A', p, w))])
    return j.loglik(obs)


def run_mono(ctx, n=30):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            npar = int(rng.choice([1, 2]))
            s = pargen.lin_spec(rng, None, npar)
            num = rng.rand() < 0.35
            m = (pargen.LinNum if num else pargen.LinGrad)(s, rng)
            m.set_param_bounds([(-0.9, 0.9)] * npar)
            T = int(rng.choice([2, 4, 6]))
            pargen.simulate(s, rng, T, s.point(rng), miss=float(rng.choice([0, 0.3])))
            mf = bool(rng.rand() < 0.5)
            if not mf:
                s.y[0] = None
            kind = 'EM'
            p0 = s.point(rng)
            c.note(kind=kind, numeric=bool(num), npar=npar, T=T, mf=mf, p0=p0)
            seq = [p0]
            est = pe.ParamEstimation(m, s.u, s.y if mf else s.y[1:])
            kw = {}
            out = est.maximize(p0, 1, 1, max_iter=5, meas_first=mf, smoother='full', callback=lambda params, Q, cur_iter: seq.append(np.array(params, dtype=float).ravel()), **kw)
            c.close(out[0], seq[-1], 'returned parameters are not those last reported', 1e-12, 0, 'returned')
            ll = [loglik(s, p) for p in seq]
            for i in range(len(ll) - 1):
                c.check(ll[i + 1] >= ll[i] - 1e-6 * (1 + abs(ll[i])), 'data likelihood decreased', 'decrease', iteration=i, before=ll[i], after=ll[i + 1])
                ctx.count('likelihood_steps')
                if ll[i + 1] > ll[i] + 1e-6:
                    ctx.count('increases')
            # a stationary point of the EM recursion is one of the likelihood:
            # the first step must move when there is an ascent direction
            g = np.array([(loglik(s, p0 + e) - loglik(s, p0 - e)) / 2e-5 for e in np.eye(npar) * 1e-5])
            if np.max(np.abs(np.where(np.abs(p0) < 0.85, g, 0))) > 1.0:
                c.check(ll[1] > ll[0] + 1e-6, 'first iteration does not move although the likelihood has a large gradient', 'stuck', gradient=g)
                ctx.count('ascents')
            ctx.distinct(kind, bool(num), npar, T, mf, [a for a in s.dep if s.dep[a]])
