"""Stochastic approximation EM: offline checker of the weighted trajectories
the maximiser receives."""
import itertools, math
import numpy as np
from ..core import pick
from ..trace import *
from ..trace import tv
from ..emgen import EMModel, sched, make_script, NPAR
from .c09 import snap, diff
from pyparticleest.simulator import Simulator
import pyparticleest.paramest.paramest as pe

KC = [X, ID, TS]
TOL = 1e-9


class Model(EMModel):
    est = None

    def maximize_weighted(self, straj, alltrajs, weights):
        # the filter result all genealogies come from
        self.filt = [(s.pa.part.copy(), np.array(s.pa.w, dtype=float, copy=True), None if s.ancestors is None else np.array(s.ancestors, copy=True)) for s in self.est.pt.traj]
        r = super(Model, self).maximize_weighted(straj, alltrajs, weights)
        for k in range(len(self.ev) - 1, -1, -1):
            if self.ev[k][0] == 'maxw':
                self.ev[k] = self.ev[k] + (self.filt,)
                break
        return r


def genealogies(filt):
    """all paths of the filter and their final weights"""
    T, N = len(filt), len(filt[-1][0])
    out = np.empty((T, N, filt[0][0].shape[1]))
    a = np.arange(N)
    for t in range(T - 1, -1, -1):
        out[t] = filt[t][0][a]
        if t:
            a = np.asarray(filt[t][2], dtype=int)[a]
    w = np.exp(norm(filt[-1][1]))
    return out, w / w.sum()


def keys(tr):
    return [tr[:, n][:, KC].tobytes() for n in range(tr.shape[1])]


def match(got, want, normalise):
    """assign received (key, weight) to expected ones; returns all ways found
    as sets of indices of the expected items that survived"""
    found = []
    byk, gk = {}, {}
    for i, (k, w) in enumerate(want):
        byk.setdefault(k, []).append(i)
    for k, w in got:
        gk.setdefault(k, []).append(w)
    # copies of the same trajectory: any of them may have survived
    opts = []
    for k, ws in gk.items():
        idx = byk.get(k, [])
        if len(idx) < len(ws):
            return [], 'unknown'
        o = []
        for by in (lambda i: (want[i][1], i)), (lambda i: i):
            o.append(tuple(sorted(sorted(idx, key=by)[-len(ws):])))
        if math.comb(len(idx), len(ws)) <= 30:
            o += list(itertools.combinations(idx, len(ws)))
        opts.append(list(dict.fromkeys(o)))
    tries = [[o[0] for o in opts], [o[min(1, len(o) - 1)] for o in opts]]
    tries = itertools.chain(tries, itertools.islice(itertools.product(*opts), 400))
    seen = set()
    for sel in tries:
        used = sorted(i for s in sel for i in s)
        if tuple(used) in seen:
            continue
        seen.add(tuple(used))
        f = 1.0 / sum(want[i][1] for i in used) if normalise else 1.0
        if all(np.allclose(sorted(ws), sorted(f * want[i][1] for i in s), rtol=1e-7, atol=1e-12) for ws, s in zip(gk.values(), sel)):
            found.append(used)
    return found, 'weights'


def rule(want, eps, pct):
    """(may be dropped, must be dropped) by the discarding rule; weights within
    rounding of the limits may go either way"""
    w = np.array([x[1] for x in want])
    q = np.percentile(w, pct)
    thr = [min(eps, np.max(np.hstack((w[w < q * (1 + s * TOL)], 0.0)))) for s in (-1, 1)]
    return w <= max(thr) * (1 + TOL), w <= min(thr) * (1 - TOL)


def gammas(rng, n):
    kind = str(rng.choice(['default', 'one', 'harm', 'pow', 'rand', 'mixed', 'zero']))
    if kind == 'default':
        return None
    g = {'one': np.ones(n), 'harm': 1.0 / (1 + np.arange(n)), 'pow': (1.0 + np.arange(n)) ** -0.6, 'rand': rng.uniform(0.05, 0.95, size=n),
         'mixed': np.where(rng.rand(n) < 0.3, 1.0, rng.uniform(0.05, 0.9, size=n)), 'zero': np.where(rng.rand(n) < 0.3, 0.0, rng.uniform(0.05, 0.9, size=n))}[kind]
    if kind == 'zero':
        g[0] = max(g[0], 0.3)
    return g


def run_main(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ('SAEM', 'PSAEM', 'PSAEM2', 'PSAEM')[c.idx % 4]
            iters = pick(rng, [1, 2, 3, 5, 9], [25])
            cond = rng.rand() < (0.3 if kind == 'SAEM' else 0.9)
            filt = str(rng.choice(['cpf', 'cpfas', 'cpfyas', 'csiras'] if cond else ['pf', 'apf', 'pfy', 'sir']))
            smoother = str(rng.choice(['ancestor', 'full', 'mcmc', 'mhips', 'rs']))
            T = pick(rng, [1, 2, 4], [10])
            mf = True if filt in ('pfy', 'cpfyas') else bool(rng.rand() < 0.5)
            M, rb, mxt, eps, pct = 1, False, 0, 0.0, 0
            nump, numw = sched(rng, 2, 10, iters, 0.35 if kind == 'SAEM' else 0.6)
            if kind == 'SAEM':
                numt, trajw = sched(rng, 1, 6, iters)
                if rng.rand() < 0.2:
                    trajw = [1] * iters
                    numt = 1
            else:
                if kind == 'PSAEM':
                    M = pick(rng, [1, 1, 1, 3], [10])
                    rb = bool(rng.rand() < 0.4)
                    mxt = int(rng.choice([0, 0, 1, 3, 7]))
                trajw = [M] * iters
                if rng.rand() < 0.6:
                    eps = float(rng.choice([1e-3, 0.03, 0.1, 0.5, 10.0]))
                    pct = float(rng.choice([0, 10, 50, 90]))
            opts = {'R': 2} if kind != 'PSAEM' and smoother in ('mcmc', 'mhips') else None
            cfg = dict(filter=filt, smoother=smoother, mf=mf, pseed=int(rng.randint(2 ** 31)))
            g = gammas(rng, iters)
            c.note(kind=kind, iters=iters, nump=nump, M=M, rb=rb, max_traj=mxt, eps=eps, pct=pct, T=T, gamma=None if g is None else g.tolist(), **cfg)
            script = make_script(rng, iters + 3)
            m = Model(Params(np.random.RandomState(cfg['pseed']), sharp=float(rng.choice([0.3, 5.0]))), script, rng.uniform(-1, 1, size=(5, NPAR)).tolist() if rng.rand() < 0.5 else None)
            u = [np.array([100.0 + t, rng.normal()]) for t in range(T + 1)]
            y = [np.array([200.0 + t + (0 if mf else 1), 2 * rng.normal()]) for t in range(T + (1 if mf else 0))]
            L = T + 1
            ct = cond_traj(rng, L)
            fopt = {'cond_traj': ct} if cond else None
            p0 = rng.uniform(-1, 1, size=NPAR)
            given = dict(u=u, y=y, p0=p0, fopt=fopt, opts=opts, nump=nump)
            before = snap(given)
            est = {'SAEM': pe.ParamEstimationSAEM, 'PSAEM': pe.ParamEstimationPSAEM, 'PSAEM2': pe.ParamEstimationPSAEM2}[kind](m, u, y)
            m.est = est
            asked = []

            def agen(it):
                asked.append((it, len([1 for e in m.ev if e[0] == 'maxw'])))
                return float(g[len(asked) - 1]) if len(asked) <= len(g) else 0.5
            kw = {} if g is None else dict(alpha_gen=agen)
            stop = int(rng.randint(iters)) if kind == 'PSAEM' and rng.rand() < 0.3 else None
            rep, simcb = [], []

            def cb(params, Q, cur_iter):
                rep.append((np.array(params, dtype=float).ravel(), cur_iter))
                return True if stop is not None and len(rep) == stop + 1 else None
            if stop is None and rng.rand() < 0.3:
                cb = None
            cbs = (lambda e: (simcb.append((e, e.straj, len([1 for x in m.ev if x[0] == 'maxw']))), None)[1]) if rng.rand() < 0.7 else None
            kw.update(max_iter=iters, callback=cb, callback_sim=cbs, meas_first=mf, filter=filt, filter_options=fopt, smoother=smoother)
            if kind == 'SAEM':
                out = est.maximize(p0, nump, numt, smoother_options=opts, **kw)
            else:
                kw.update(discard_eps=eps, discard_percentile=pct)
                if kind == 'PSAEM':
                    kw.update(M=M, raoblackwell=rb, max_traj=mxt)
                else:
                    kw.update(smoother_options=opts)
                out = est.maximize(p0, nump, **kw)
            d = diff(before, snap(given))
            c.check(d is None, 'estimation modified the data or options of the caller', 'modified', what=d)
            done = iters if stop is None else stop + 1
            # --- parameters and schedule
            last, cur, sims, maxs = np.array(p0, dtype=float), None, [], []
            for e in m.ev:
                if e[0] in ('set', 'trial'):
                    cur = e[1]
                elif e[0] == 'sim':
                    c.check(len(sims) == len(maxs), 'several simulations in one iteration', 'simcount')
                    c.close(cur, last, 'simulation does not use the current parameters', 1e-12, 0, 'current', iteration=len(sims))
                    sims.append((e, cur))
                elif e[0] == 'maxw':
                    c.check(len(sims) == len(maxs) + 1, 'maximisation without a simulation before', 'maxcount')
                    last = np.array(script[len(maxs)])
                    maxs.append(e)
            if not c.check(len(maxs) == done and len(sims) == done, 'wrong number of iterations', 'iters', got=len(maxs), want=done, stopped=stop):
                continue
            c.close(np.ravel(out[0]), last, 'returned parameters are not those of the last maximisation', 1e-12, 0, 'returned')
            if g is not None:
                c.check([a[0] for a in asked] == list(range(done)) and [a[1] for a in asked] == list(range(done)), 'step sizes not requested once per iteration in order', 'gamma', asked=asked)
            if cb is not None:
                c.check(len(rep) == done, 'callback not called once per iteration', 'callback:count', got=len(rep))
                for i, (p, k) in enumerate(rep[:done]):
                    c.close(p, script[i], 'callback got other parameters than the maximiser returned', 1e-12, 0, 'callback:params', iteration=i)
                    c.check(k - rep[0][1] == i and rep[0][1] in (0, 1), 'iteration numbers reported are not consecutive', 'callback:iter', got=k, iteration=i)
            if cbs is not None:
                c.check(len(simcb) == done and all(e is est and st is maxs[i][1] and k == i for i, (e, st, k) in enumerate(simcb)), 'simulation callback not called between simulation and maximisation', 'callsim', got=len(simcb))
            # --- weights
            want = []
            prev = [s.pa.part.copy() for s in ct]
            for i, e in enumerate(maxs):
                straj, alltr, w, filt_ = e[2], e[3], e[4], e[5]
                c.check(len(filt_[0][0]) == numw[i] and len(straj[0]) == trajw[i], 'wrong number of particles or trajectories', 'counts', iteration=i)
                # conditioning
                if cond:
                    src = prev if kind != 'SAEM' else [s.pa.part for s in ct]
                    okc = any(all(np.array_equal(filt_[t][0][-1][[X, ID]], src[t][k][[X, ID]]) for t in range(L)) for k in range(len(src[0])))
                    c.check(okc, 'filter not conditioned on the trajectory of the previous iteration', 'conditioning', iteration=i)
                    ctx.count('conditioned_runs')
                # replay
                fo = None if not cond else {'cond_traj': ctcopy(src)}
                m2 = EMModel(Params(np.random.RandomState(cfg['pseed']), sharp=m.p.sharp), None)
                m2.next_id = 1.0
                st = np.random.get_state()
                m2.set_params(sims[i][1])
                ref = Simulator(m2, u, y)
                np.random.set_state(sims[i][0][2])
                ref.simulate(numw[i], trajw[i], filter=filt, filter_options=fo, smoother=smoother, smoother_options=opts, meas_first=mf)
                np.random.set_state(st)
                c.check(all(np.array_equal(a[:, [X, TS]], b.pa.part[:, [X, TS]]) for a, b in zip(straj, ref.straj.traj)) and len(straj) == len(ref.straj.traj),
                        'trajectories are not those of a run of the simulator with the requested settings', 'replay', iteration=i)
                prev = straj
                if rb:
                    new, nw = genealogies(filt_)
                else:
                    new = np.stack(straj)
                    nw = np.ones(new.shape[1]) / new.shape[1]
                gam = (pe.alpha_gen(i) if g is None else float(g[i])) if i else 1.0
                want = [(k, v * (1.0 - gam)) for k, v in want] + [(k, v * gam) for k, v in zip(keys(new), nw)]
                c.check(alltr.ndim == 3 and alltr.shape[0] == L and alltr.shape[1] == len(w) == w.size and np.all(w >= 0), 'shapes of trajectories and weights do not agree', 'shape', iteration=i, trajs=alltr.shape, weights=w.shape)
                norml = kind != 'SAEM'
                c.close(np.sum(w), 1.0, 'weights do not sum to one', 1e-9, 1e-9, 'sum', iteration=i)
                got = list(zip(keys(alltr), w))
                ways, why = match(got, want, norml)
                if not ways:
                    c.check(False, 'trajectory that no iteration produced' if why == 'unknown' else 'weights do not follow the recursion (or are paired with other trajectories)', 'match:' + why,
                            iteration=i, got=sorted(w)[-8:], want=sorted(x[1] for x in want)[-8:])
                    break
                may, must = rule(want, eps, pct) if norml else (np.zeros(len(want), dtype=bool), np.zeros(len(want), dtype=bool))
                wts = np.array([x[1] for x in want])
                must = must | (wts == 0.0)
                may = may | (wts <= 1e-300)
                best = None
                for used in ways:
                    left = set(range(len(want))) - set(used)
                    # dropped for space: only if that many newer ones are kept
                    space = [j for j in left if mxt and not may[j] and sum(1 for k in used if k > j) >= mxt]
                    bad = [j for j in left if not may[j] and j not in space]
                    # identical trajectories can stand in for each other
                    bad = [j for j in bad if not any(want[k][0] == want[j][0] and abs(want[k][1] - want[j][1]) < 1e-12 and may[k] for k in used)]
                    kept = [j for j in used if must[j]]
                    if best is None or len(bad) + len(kept) < best[0]:
                        best = (len(bad) + len(kept), used, bad, kept, space)
                _, used, bad, kept, space = best
                ctx.count('dropped_for_space', len(space))
                c.check(not mxt or len(used) <= mxt, 'more trajectories kept than allowed', 'max_traj', kept=len(used), allowed=mxt)
                c.check(not bad, 'trajectory dropped against the discarding rules', 'dropped', iteration=i, weights=[wts[j] for j in bad])
                c.check(not kept, 'trajectory kept that the discarding rules remove', 'kept', iteration=i, weights=[wts[j] for j in kept])
                f = 1.0 / wts[used].sum() if norml else 1.0
                want = [(want[j][0], want[j][1] * f) for j in used]
                ctx.count('iterations')
                ctx.count('trajectories', len(used))
                ctx.count('discarded', len(wts) - len(used))
                ctx.distinct(kind, filt, smoother, i, len(used), len(wts), M, rb, mxt, eps, pct, mf)
    for c in ctx.cases(n + 1):
        if c.idx == n:
            with c:
                a = np.array([pe.alpha_gen(i) for i in range(5000)], dtype=float)
                c.check(np.all((a > 0) & (a <= 1)) and np.all(np.diff(a) <= 0) and a[0] == 1.0, 'default step sizes are not a non-increasing sequence in (0,1] starting at one', 'alpha')
                k = np.log(a[2000] / a[4900]) / np.log((4900.0 - 100) / (2000 - 100))
                c.check(0.5 < k <= 1.0, 'default step sizes do not decrease at a rate for which stochastic approximation converges', 'alpha:rate', exponent=k)


def ctcopy(parts):
    tr = np.empty((len(parts),), dtype=object)
    for t, p in enumerate(parts):
        tr[t] = TrajectoryStep(ParticleApproximation(p), np.zeros(len(p), dtype=int))
    return tr
