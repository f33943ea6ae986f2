"""Reproducibility and independence of runs: the same job is executed alone,
after other jobs, on a used model, interleaved with others and in another
process; every execution must leave the same record."""
import os, pickle, random, subprocess, sys, warnings
import numpy as np
from ..core import pick
from ..anyrun import *
from ..emgen import EMModel, NPAR
from .. import pargen, core
from .c09 import snap, diff
from pyparticleest.simulator import Simulator
import pyparticleest.paramest.paramest as pe


def ambient():
    """process wide settings a library has no business changing"""
    return (sorted(np.geterr().items()), np.get_printoptions(), len(warnings.filters), os.getcwd(), random.getstate())


def settings(job):
    return snap([job.options, job.opts, job.u, job.y])


def run_main(ctx, n=60):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            jobs = [Job(rng, KINDS[c.idx % len(KINDS)])] + [Job(rng) for _ in range(int(rng.randint(1, 4)))]
            seeds = [int(rng.randint(2 ** 31)) for _ in jobs]
            # the same option dictionaries may serve several runs
            for j in jobs[1:]:
                for meth in j.opts:
                    if meth in jobs[0].opts and rng.rand() < 0.7:
                        j.opts[meth] = jobs[0].opts[meth]
                        ctx.count('shared_options')
            c.note(jobs=[j.describe() for j in jobs])
            given = [settings(j) for j in jobs]
            amb = ambient()
            refs, models = [], []
            for j, s in zip(jobs, seeds):
                m = j.make()
                refs.append(j.run(m, s))
                models.append(m)
            hist = []
            bad = False
            for step in range(int(rng.randint(3, 8))):
                k = int(rng.randint(len(jobs)))
                how = str(rng.choice(['again', 'used', 'used', 'interleaved', 'object']))
                hist.append((k, how))
                c.note(history=hist)
                random.seed(int(rng.randint(2 ** 31)))
                np.random.seed(int(rng.randint(2 ** 31)))
                amb = amb[:-1] + (random.getstate(),)
                if how == 'again':
                    ok = same_run(c, jobs[k].run(jobs[k].make(), seeds[k]), refs[k], 'run repeated on a new model', 'repeat')
                elif how == 'used':
                    # (a model may carry on recording; what it computes stays)
                    ok = same_run(c, jobs[k].run(models[k], seeds[k]), refs[k], 'run repeated on a used model', 'used')
                elif how == 'object':
                    # the same job twice, the second beginning before the first ends, on one model
                    ok = interleave(c, rng, [jobs[k], jobs[k]], [models[k], models[k]], [seeds[k], seeds[k]], [refs[k], refs[k]], 'samemodel')
                else:
                    l = int(rng.randint(len(jobs)))
                    mm = [models[k], jobs[l].make()]
                    ok = interleave(c, rng, [jobs[k], jobs[l]], mm, [seeds[k], seeds[l]], [refs[k], refs[l]], 'interleaved')
                ctx.count(how)
                if not ok:
                    bad = True
                    break
                ctx.distinct(*(jobs[k].key() + (how,)))
            if bad:
                continue
            # different seeds give different results unless there is nothing to draw
            o = jobs[0].run(jobs[0].make(), seeds[0] ^ 1)
            if jobs[0].kind not in ('ltv', 'plin') and jobs[0].T > 0 and o[-1][0] != 'exception':
                c.check(any(a[1].shape != b[1].shape or not np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == 'f') for a, b in zip(o[:-1], refs[0][:-1])), 'result does not depend on the seed', 'seed')
                ctx.count('other_seeds')
            for j, g in zip(jobs, given):
                d = diff(g, settings(j))
                c.check(d is None, 'run modified options or data given to it', 'settings', what=d)
            c.check(ambient() == amb, 'run changed process wide settings', 'ambient')
            ctx.count('histories')


def interleave(c, rng, jobs, models, seeds, refs, key):
    """advance the runs in random order, each with its own generator state"""
    outs = [[] for _ in jobs]
    gens, states = [], []
    for j, m, s, o in zip(jobs, models, seeds, outs):
        gens.append(j.steps(m, o))
        np.random.seed(s)
        states.append(np.random.get_state())
    live = list(range(len(jobs)))
    while live:
        i = live[int(rng.randint(len(live)))]
        np.random.set_state(states[i])
        try:
            next(gens[i])
        except StopIteration:
            live.remove(i)
        states[i] = np.random.get_state()
    return all([same_run(c, o, r, 'run interleaved with another one', key) for o, r in zip(outs, refs)])


def estimation(c, rng, kind):
    """-> function running one whole estimation, returning a comparable record"""
    T = pick(rng, [1, 3], [10])
    mf = bool(rng.rand() < 0.5)
    seed = int(rng.randint(2 ** 31))
    if kind in ('lin', 'linnum', 'mix', 'marg'):
        s = (pargen.mix_spec if kind in ('mix', 'marg') else pargen.lin_spec)(rng, None, 2)
        pargen.simulate(s, rng, T, s.point(rng))
        p0 = s.point(rng)
        cls = dict(lin=pargen.LinGrad, linnum=pargen.LinNum, mix=pargen.MixGrad, marg=pargen.MargGrad)[kind]

        def make():
            m = cls(s, np.random.RandomState(seed))
            m.set_param_bounds([(-0.9, 0.9)] * 2)
            return m
        N, M = (1, 1) if kind[:3] == 'lin' else (6, 3)
        u, y = s.u, s.y if mf else s.y[1:]
        call = lambda e, opts: e.maximize(p0, N, M, max_iter=2, meas_first=mf, smoother='full', **opts)
        opts = {}
        cls_e = pe.ParamEstimation
    else:
        ps = int(rng.randint(2 ** 31))
        script = rng.uniform(-1, 1, size=(8, NPAR)).tolist()
        make = lambda: EMModel(Params(np.random.RandomState(ps)), script)
        u = [np.array([100.0 + t, rng.normal()]) for t in range(T + 1)]
        y = [np.array([200.0 + t, rng.normal() * 2]) for t in range(T + 1)]
        p0 = rng.uniform(-1, 1, size=NPAR)
        L = T + 1 if mf else T + 2
        ct = cond_traj(rng, L)
        cls_e = dict(em=pe.ParamEstimation, saem=pe.ParamEstimationSAEM, psaem=pe.ParamEstimationPSAEM)[kind]
        if kind == 'em':
            opts = dict(smoother=str(rng.choice(['full', 'mhips', 'mcmc'])), smoother_options={'R': 2})
            call = lambda e, o: e.maximize(p0, [4, 6], 3, max_iter=3, meas_first=mf, **o)
        elif kind == 'saem':
            opts = dict(smoother='full') if rng.rand() < 0.5 else {}
            call = lambda e, o: e.maximize(p0, 5, 3, max_iter=3, meas_first=mf, **o)
        else:
            opts = dict(filter_options={'cond_traj': ct}, filter=str(rng.choice(['cpfas', 'cpf'])))
            call = lambda e, o: e.maximize(p0, 5, max_iter=3, meas_first=mf, **o)

    def go(m=None, e=None):
        m = m if m is not None else make()
        if hasattr(m, 'nmax'):
            m.nmax = 0
        e = e if e is not None else cls_e(m, u, y)
        np.random.seed(seed)
        rep = []
        o = dict(opts, callback=lambda params, Q, cur_iter: (rep.append(np.array(params, dtype=float).ravel()), None)[1])
        r = call(e, o)
        cols = [X, TS] if isinstance(m, EMModel) else slice(None)
        out = [('reported', np.array(rep)), ('returned', np.array(r[0], dtype=float).ravel())]
        out += [('smoothed %d' % t, x.pa.part[:, cols].copy()) for t, x in enumerate(e.straj.traj)]
        out += [('filtered %d' % t, x.pa.part[:, cols].copy()) for t, x in enumerate(e.pt.traj)]
        out.append(('generator', np.random.get_state()[1].copy()))
        return out, m, e
    return go, lambda: snap([opts, u, y, p0])


EST = ['em', 'saem', 'psaem', 'lin', 'linnum', 'mix', 'marg']


def run_est(ctx, n=40):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kinds = [EST[c.idx % len(EST)], str(rng.choice(EST))]
            c.note(kinds=kinds)
            gos = [estimation(c, rng, k) for k in kinds]
            given = [g[1]() for g in gos]
            refs = []
            for g, _ in gos:
                refs.append(g())
            for step in range(3):
                k = int(rng.randint(2))
                how = str(rng.choice(['again', 'used', 'object']))
                c.note(step=(k, how))
                ref, m, e = refs[k]
                tol = 1e-8 if kinds[k] in ('em', 'saem', 'psaem') else 1e-5
                got = gos[k][0](*dict(again=(None, None), used=(m, None), object=(m, e))[how])[0]
                if not same_run(c, got, ref, 'repeated estimation (%s)' % how, 'est:' + how, tol=tol):
                    break
                ctx.count('estimations_' + how)
                ctx.count('estimations')
                ctx.distinct(kinds[k], kinds[1 - k], how)
            for g, s in zip(gos, given):
                d = diff(s, g[1]())
                c.check(d is None, 'estimation modified options or data given to it', 'settings', what=d)


def record(seed, k):
    rng = np.random.RandomState(seed)
    job = Job(rng)
    return job.run(job.make(), int(rng.randint(2 ** 31))), job


def run_proc(ctx, n=3, per=25):
    """other processes, with other hash seeds and other things done before"""
    for c in ctx.cases(n):
        with c:
            seeds = [int(c.rng.randint(2 ** 31)) for _ in range(per)]
            c.note(jobs=per)
            mine = [record(s, k) for k, s in enumerate(seeds)]
            order = [int(i) for i in c.rng.permutation(per)]
            env = dict(os.environ, PYTHONHASHSEED=str(1 + int(c.rng.randint(2 ** 31))))
            r = subprocess.run([sys.executable, '-c', CHILD], input=pickle.dumps((sys.path, [seeds[i] for i in order])), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
            if r.returncode:
                raise RuntimeError('child process failed: ' + r.stderr.decode()[-2000:])
            theirs = pickle.loads(r.stdout[r.stdout.index(b'<<DATA>>') + 8:])
            for i, got in zip(order, theirs):
                c.note(job=mine[i][1].describe())
                same_run(c, got, mine[i][0], 'run in another process', 'process')
                ctx.count('process_runs')
                ctx.distinct('process', *mine[i][1].key())


CHILD = """
import sys, pickle
path, seeds = pickle.loads(sys.stdin.buffer.read())
sys.path[:] = path
from mon.checks import c32
out = [c32.record(s, 0)[0] for s in seeds]
sys.stdout.flush()
sys.stdout.buffer.write(b'<<DATA>>' + pickle.dumps(out))
"""
