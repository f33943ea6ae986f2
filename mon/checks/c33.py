"""End-to-end calibration: inferred paths have the joint distribution of the truth."""
import numpy as np
from ..joint import *
from pyparticleest.filter import ParticleApproximation, TrajectoryStep


def draw(rng, kinds, idx, Tmax=4):
    kind = kinds[idx % len(kinds)]
    T = int(rng.choice(range(Tmax + 1)))
    mf = T == 0 or bool(rng.rand() < 0.5)
    j = make(kind, rng, T)
    j.simulate(rng, float(rng.choice([0, 0.3])), mf)
    return kind, T, mf, j


def loop(ctx, n, kinds, step, name, minimum=300, bias=0.0, Tmax=4):
    """n runs, pooled, judged in one more case"""
    pool = Pool()
    for c in ctx.cases(n + 1):
        with c:
            if c.idx == n:
                pool.judge(c, minimum, bias)
                continue
            kind, T, mf, j = draw(c.rng, kinds, c.idx, Tmax)
            if T == 0 and j.y[0] is None:
                continue
            c.note(kind=kind, T=T, meas_first=mf)
            label, path, moved = step(c, j, mf)
            pool.add(label, j, path)
            ctx.count('paths')
            ctx.count('moved', int(moved))
            ctx.distinct(name, label, T, mf, moved, j.lxi, [y is None for y in j.y])


def cond_steps(path):
    tr = np.empty(len(path), dtype=object)
    for t, x in enumerate(path):
        tr[t] = TrajectoryStep(ParticleApproximation(np.array(x, dtype=float).reshape(1, -1)), np.zeros(1, dtype=int))
    return tr


def sel(j, pa):
    return [np.array(s.pa.part[0, :j.lxi], dtype=float) for s in pa]


def run_mh(ctx, n=400, kinds=('nlg', 'mixed', 'hier')):
    """Metropolis-Hastings smoothers started from the true path"""
    def step(c, j, mf):
        meth = ['mhips', 'mhips_reduced'][c.rng.randint(2)]
        R = int(c.rng.choice([1, 2, 4]))
        c.note(method=meth, R=R)
        pt = run(j, 1, mf, pre=bool(c.rng.rand() < 0.3))
        for t in range(j.T + 1):
            pt[t].pa.part[:, :j.lxi] = j.path[t]
        st = pt.perform_smoothing(1, method=meth, smoother_options={'R': R})
        path = sel(j, st.traj)
        return j.kind + ' ' + meth, path, any(np.any(a != b) for a, b in zip(path, j.path))
    loop(ctx, n, kinds, step, 'mh')


def run_cond(ctx, n=400, kinds=('nlg',)):
    """conditional particle filters conditioned on the true path"""
    def step(c, j, mf):
        filt = ['cpf', 'cpfas'][c.rng.randint(2)]
        meth = ['ancestor', 'full'][c.rng.randint(2)]
        c.note(filter=filt, method=meth)
        pt = run(j, 2, mf, filt=filt, options={'cond_traj': cond_steps(j.path)}, pre=bool(c.rng.rand() < 0.3))
        st = pt.perform_smoothing(1, method=meth)
        path = sel(j, st.traj)
        return filt + ' ' + meth, path, any(np.any(a != b) for a, b in zip(path, j.path))
    loop(ctx, n, kinds, step, 'cond')


METHODS = {'nlg': [('pf', 'full', 80), ('apf', 'full', 80), ('pf', 'ancestor', 150), ('pf', 'mhbp', 60), ('pf', 'rs', 60), ('pf', 'rsas', 60), ('pf', 'mcmc', 60)],
           'mixed': [('pf', 'full', 60), ('pf', 'ancestor', 80), ('apf', 'full', 60)],
           'marg': [('pf', 'full', 60), ('pf', 'ancestor', 80)],
           'hier': [('pf', 'full', 60), ('pf', 'ancestor', 80)]}


def run_pipe(ctx, n=300, kinds=('nlg',), bias=0.05):
    """filter with many particles, then smoother"""
    def step(c, j, mf):
        filt, meth, N = METHODS[j.kind][c.rng.randint(len(METHODS[j.kind]))]
        res = float(c.rng.choice([0.5, 0.67, 1.0]))
        c.note(filter=filt, method=meth, N=N, res=res)
        pt = run(j, N, mf, filt=filt, res=res, pre=bool(c.rng.rand() < 0.3))
        st = pt.perform_smoothing(1, method=meth, smoother_options={'R': 30} if meth in ('mcmc', 'mhbp', 'rsas') else {})
        return j.kind + ' ' + filt, sel(j, st.traj), True
    loop(ctx, n, kinds, step, 'pipe', bias=bias, Tmax=3)
