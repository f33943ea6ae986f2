"""Analytic gradients against numerical differentiation of the evaluations."""
import numpy as np
from ..core import pick
from ..pargen import *
from ..pargen import _PL


def numgrad(f, p):
    """central differences with two extrapolation steps"""
    p = np.array(p, dtype=float)
    g = np.zeros(len(p))
    for k in range(len(p)):
        d = []
        for h in (2e-2, 1e-2, 5e-3):
            e = np.zeros(len(p))
            e[k] = h
            d.append((f(p + e) - f(p - e)) / (2 * h))
        a, b = (4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3
        g[k] = (16 * b - a) / 15
    return g


def cmp(c, m, p, free, both, what, names, red=np.sum):
    """free(): value without gradient, both(): (value, gradient)"""
    def f(q):
        m.set_params(q)
        return float(red(free()))
    m.set_params(p)
    v0 = float(red(free()))
    m.set_params(p)
    v, g = both()
    c.close(red(np.asarray(v, dtype=float)), v0, 'value returned with the %s gradient differs from the gradient-free value' % what, key='value:' + what, rtol=1e-8, atol=1e-8)
    ng = numgrad(f, p)
    m.set_params(p)
    sc = max(1.0, np.abs(ng).max(initial=0.0), abs(v0))
    c.close(np.ravel(g), ng, 'gradient of the %s term is not the derivative of its value' % what, key='grad:' + what, rtol=1e-5, atol=2e-6 * sc, dependent=names)
    c.ctx.count('gradients_compared', len(p))


class _St(object):
    pass


def run_main(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['lin', 'mix', 'marg'][int(rng.choice(3, p=[0.45, 0.4, 0.15]))]
            allm = ['A', 'f', 'Q', 'C', 'h', 'R', 'z0', 'P0'] if kind == 'lin' else ['A', 'f', 'Q', 'C', 'h', 'R', 'z0', 'Pz0', 'xi0', 'Pxi0']
            r = rng.rand()
            want = None if r < 0.5 else ([allm[c.idx % len(allm)]] if r < 0.9 else allm)
            s = (lin_spec if kind == 'lin' else mix_spec)(rng, want)
            m = {'lin': LinGrad, 'mix': MixGrad, 'marg': MargGrad}[kind](s, rng)
            N = pick(rng, [1, 2, 5], [20])
            dep = [a for a in s.dep if s.dep[a]]
            c.note(kind=kind, dependent=dep, hooks=[a for a in s.dyn if s.dyn[a]], N=N, npar=s.np, lz=s.lz, lxi=getattr(s, 'lxi', 0))
            s.prep = bool(rng.rand() < 0.3)
            part, nxt = rand_smoothed(rng, s, N)
            p = s.point(rng)
            u, t, y = rng.normal(size=1), rng.randint(4), rng.normal(size=s.ly)
            keep = part.copy(), nxt.copy(), y.copy()
            if not (kind == 'marg'):
                cmp(c, m, p, lambda: m.eval_logp_xnext(part, nxt, u, t), lambda: m.eval_logp_xnext_val_grad(part, nxt, u, t), 'transition', dep)
                cmp(c, m, p, lambda: m.eval_logp_y(part, y, t), lambda: m.eval_logp_y_val_grad(part, y, t), 'measurement', dep)
                cmp(c, m, p, lambda: m.eval_logp_x0(part, 0.0), lambda: m.eval_logp_x0_val_grad(part, 0.0), 'initial', dep, red=np.mean)
                c.check(all(np.array_equal(a, b) for a, b in zip(keep, (part, nxt, y))), 'evaluation modified the estimates', 'mut')
            # over whole smoothed trajectories
            if rng.rand() < 0.5 or kind == 'marg':
                mf = bool(rng.rand() < 0.5)
                T = pick(rng, [1, 3], [9])
                simulate(s, rng, T, p, miss=float(rng.choice([0, 0.3])))
                if not mf:
                    s.y[0] = None
                m.set_params(p)
                M = 1 if kind == 'lin' else pick(rng, [1, 3], [11])
                st = run_smooth(s, m, 1 if kind == 'lin' else 5, M, mf)
                p2 = s.point(rng)
                c.note(T=T, meas_first=mf, M=M)
                cmp(c, m, p2, lambda: m.eval_logp_xnext_fulltraj(st, st.u, st.t), lambda: m.eval_logp_xnext_val_grad_fulltraj(st, st.u, st.t), 'transition (trajectory)', dep)
                cmp(c, m, p2, lambda: m.eval_logp_y_fulltraj(st, st.y, st.t), lambda: m.eval_logp_y_val_grad_fulltraj(st, st.y, st.t), 'measurement (trajectory)', dep)
                cmp(c, m, p2, lambda: m.eval_logp_x0(st.traj[0].pa.part, st.t[0]), lambda: m.eval_logp_x0_val_grad(st.traj[0].pa.part, st.t[0]), 'initial (trajectory)', dep, red=np.mean)
            ctx.distinct(kind, tuple(dep), tuple(a for a in s.dyn if s.dyn[a]), N, s.np, s.lz)


def run_sweep(ctx, n=40):
    """the gradient test utility: the curves of a parameter sweep are the terms
    and derivatives of its one simulation, at the swept parameter values"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pyparticleest.paramest.gradienttest import GradientTest
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['lin', 'mix', 'marg'][int(rng.choice(3, p=[0.4, 0.4, 0.2]))]
            s = (lin_spec if kind == 'lin' else mix_spec)(rng, None)
            m = {'lin': LinGrad, 'mix': MixGrad, 'marg': MargGrad}[kind](s, rng)
            s.prep = False
            T = pick(rng, [1, 3], [8])
            simulate(s, rng, T, s.point(rng), miss=float(rng.choice([0, 0.3])))
            s.y[0] = None
            p = s.point(rng)
            whole = rng.rand() < 0.25
            if whole:
                p = np.round(p)
            given = p.astype(int) if whole else p
            k = int(rng.randint(s.np))
            vals = p[k] + np.sort(rng.uniform(-0.6, 0.6, size=int(rng.choice([1, 2, 5, 14]))))
            analytic = bool(rng.rand() < 0.7)
            M = 1 if kind == 'lin' else pick(rng, [1, 3], [11])
            c.note(kind=kind, T=T, M=M, param=k, whole=whole, vals=vals, analytic=analytic, dependent=[a for a in s.dep if s.dep[a]])
            gt = GradientTest(m, [s.u[t] for t in range(T)], [s.feed(t) for t in range(1, T + 1)])
            gt.set_params(given)
            gt.test(k, vals.tolist() if rng.rand() < 0.3 else vals, num=1 if kind == 'lin' else 5, nums=M, analytic_grad=analytic)
            est = np.array([x.pa.part for x in gt.straj.traj])
            terms = dict(plot_x0=lambda q: ref_x0(s, est[0], q).mean(),
                         plot_xn=lambda q: sum(ref_xnext(s, est[t], est[t + 1], s.u[t], t, q).mean() for t in range(T)),
                         plot_y=lambda q: sum(ref_y(s, est[t], s.y[t], t, q).mean() for t in range(T + 1) if s.y[t] is not None))
            for nm, f in terms.items():
                g = getattr(gt, nm)
                c.close(np.ravel(g.params), vals, 'swept parameter values', key='sweep:values')
                c.check((g.diff is not None) == analytic, 'gradient curve', 'sweep:analytic')
                at = []
                for v in vals:
                    q = p.astype(float).copy()
                    q[k] = v
                    at.append(q)
                want = np.array([f(q) for q in at])
                c.check(np.shape(g.vals) == (len(vals),), 'shape of the curve', 'sweep:shape')
                c.close(g.vals - g.vals[0], want - want[0], 'curve of the sweep differs from the terms of the log-likelihood', key='sweep:' + nm, rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()))
                if analytic:
                    wg = np.array([numgrad(f, q)[k] for q in at])
                    c.close(np.ravel(g.diff), wg, 'derivatives reported with the sweep', key='sweep:grad:' + nm, rtol=1e-5, atol=1e-5 * (1 + np.abs(wg).max() + np.abs(want).max()))
                ctx.count('sweep_points', len(vals))
                if rng.rand() < 0.2:
                    g.plot(3)
                    lines = plt.figure(3).gca().lines
                    c.check(np.array_equal(np.ravel(lines[0].get_xdata()), vals) and np.array_equal(lines[0].get_ydata(), g.vals), 'plotted curve', 'sweep:plot')
                    ks = [i for i in range(len(vals)) if i % 10 == 1] if analytic else []
                    c.check(len(lines) == 1 + len(ks), 'plotted tangents', 'sweep:plot', got=len(lines))
                    for i, l in zip(ks, lines[1:]):
                        x, y = np.ravel(l.get_xdata()).astype(float), np.ravel(l.get_ydata()).astype(float)
                        c.close([x.mean(), y.mean(), (y[1] - y[0])], [vals[i], g.vals[i], g.diff[i] * (x[1] - x[0])], 'plotted tangent', key='sweep:plot', rtol=1e-6, atol=1e-6 * (1 + np.abs(g.vals).max()))
                    plt.close('all')
                    ctx.count('plots')
            ctx.distinct('sweep', kind, T, M, k, whole, analytic, len(vals))
