"""Compiled against pure kernels: values, guard zones, sanitizers, whole runs."""
import importlib.util, os, shutil, subprocess, sys, tempfile, zlib
import numpy as np
from ..core import pick
import scipy.linalg
from .. import core
from ..dense import spd, psd
from .c28 import hard_cov

GUARD = 1.2345e300


class Pad(object):
    """arrays inside larger buffers: everything around them is NaN (reads of it
    would show in the results) or a sentinel; writes outside are detected"""

    def __init__(self, c, rng):
        self.c, self.rng, self.bufs = c, rng, []

    def arr(self, a, what, layout=None):
        a = np.asarray(a, dtype=float)
        layout = layout or str(self.rng.choice(['tight', 'tight', 'pad', 'fortran', 'strided', 'reversed']))
        if layout == 'tight':
            # exactly the allocation of the array
            v = a.copy()
            self.bufs.append((None, None, v, what))
            return v
        fill = np.nan if self.rng.rand() < 0.5 else GUARD
        if layout == 'pad':
            buf = np.full(a.size + 64, fill)
            v = buf[32:32 + a.size].reshape(a.shape)
        elif layout == 'fortran':
            buf = np.full(a.size + 64, fill)
            v = buf[32:32 + a.size].reshape(a.shape[::-1]).T
        else:
            st = 2 if layout == 'strided' else -1
            big = np.full(tuple((abs(st) * n + 4) for n in a.shape), fill)
            buf = big.ravel()
            v = big[tuple(slice(2, 2 + abs(st) * n, abs(st)) for n in a.shape)]
            if st < 0:
                v = v[tuple(slice(None, None, -1) for _ in a.shape)]
        v[...] = a
        mask = np.ones(buf.shape, dtype=bool)
        flag = np.zeros(buf.shape, dtype=bool)
        # positions belonging to the view
        save = v.copy()
        v[...] = 7.0
        mask = buf != 7.0
        v[...] = save
        self.bufs.append((buf, (mask, fill), v, what))
        return v

    def judge(self):
        for buf, m, v, what in self.bufs:
            if buf is None:
                continue
            mask, fill = m
            g = buf[mask]
            ok = np.all(np.isnan(g)) if np.isnan(fill) else np.all(g == fill)
            self.c.check(ok, 'memory outside the array was overwritten', 'guard:' + what, array=what, shape=v.shape)
            self.c.ctx.count('guard_zones')


def pure_copy(name):
    """the pure module, loaded again under another name"""
    p = os.path.join(core.LIB, 'utils', name + '.py')
    sp = importlib.util.spec_from_file_location('pure_' + name, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def run_kern(ctx, n=200, values=True):
    """values of both implementations on identical inputs of every shape"""
    import pyparticleest.utils.ckalman as ck
    import pyparticleest.utils.cmlnlg_compute as cm
    pk, pm = pure_copy('kalman'), pure_copy('mlnlg_compute')
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            N, lp = pick(rng, [0, 1, 2, 5, 17], [80, 300]), int(rng.choice([0, 1, 2, 4]))
            lxi, lz = int(rng.choice([0, 1, 2, 5])), int(rng.choice([1, 2, 3, 7]))
            d = lxi + lz
            c.note(N=N, params=lp, lxi=lxi, lz=lz)
            r = rng.normal
            A, Ag, fg = r(size=(N, d, lz)), r(size=(N, lp, d, lz)), r(size=(N, lp, d, 1))
            perr, Pn, zl = r(size=(N, d, 1)), r(size=(N, lz, lz)), r(size=(N, lz, 1))
            Pl = np.array([spd(rng, lz) for _ in range(N)]).reshape(N, lz, lz)
            M = r(size=(N, lz, lz))
            xn, f = r(size=(N, d, 1)), r(size=(N, d, 1))
            out0 = r(size=(N, lp, d, d))

            def both(name, args, outs, scratch=()):
                """args: (label, array or int); outs: positions of results"""
                res = []
                for mod in (cm, pm):
                    pad = Pad(c, rng)
                    vs = [pad.arr(a, '%s.%s' % (name, lab)) if isinstance(a, np.ndarray) else a for lab, a in args]
                    with np.errstate(all='ignore'):
                        getattr(mod, name)(*vs)
                    pad.judge()
                    res.append([np.array(vs[k]) for k in outs])
                    for k, (lab, a) in enumerate(args):
                        if isinstance(a, np.ndarray) and k not in outs and lab not in scratch:
                            c.check(np.array_equal(vs[k], a), 'kernel modified an input', 'input:%s.%s' % (name, lab))
                for a, b in zip(*res):
                    c.close(a, b, 'compiled and pure %s differ' % name, 1e-9, 1e-9, name)
                ctx.count('kernel_calls')

            both('compute_l2_grad_f', [('N', N), ('lenp', lp), ('dim', d), ('out', out0), ('perr', perr), ('f_grad', fg), ('tmp', r(size=(d, d)))], [3], ('tmp',))
            both('compute_l2_grad_A', [('N', N), ('lenp', lp), ('dim', d), ('out', out0), ('perr', perr), ('lxi', lxi), ('Pn', Pn), ('zl', zl), ('Pl', Pl), ('M', M),
                                       ('A', A), ('A_grad', Ag), ('tmp1', r(size=(d, d))), ('tmp2', r(size=(d, lz)))], [3], ('tmp1', 'tmp2'))
            both('compute_pred_err', [('N', N), ('dim', d), ('xn', xn), ('f', f), ('A', A), ('zl', zl), ('out', r(size=(N, d, 1)))], [6])
            both('compute_l2', [('N', N), ('lxi', lxi), ('dim', d), ('perr', perr), ('Pn', Pn), ('A', A), ('Pl', Pl), ('M', M), ('out', r(size=(N, d, d)))], [8])
            S, dS, B, dB = spd(rng, d), r(size=(d, d)), r(size=(d, d)), r(size=(d, d))
            cho = scipy.linalg.cho_factor(S)
            c.close(cm.compute_logprod_derivative(cho, dS, B, dB), pm.compute_logprod_derivative(cho, dS, B, dB), 'compiled and pure compute_logprod_derivative differ', 1e-9, 1e-9, 'logprod')
            ctx.distinct(N, lp, lxi, lz)

            # --- Kalman primitives
            k = int(rng.choice([1, 2, 3]))
            D = int(rng.choice([1, 2, 6]))
            S = spd(rng, D)
            errs = r(size=(N, D, 1))
            cho = scipy.linalg.cho_factor(S, lower=bool(rng.rand() < 0.5))
            Sl = np.array([spd(rng, D) for _ in range(N)]).reshape(N, D, D)
            s1 = np.array([[10.0 ** rng.uniform(-3, 3)]])
            calls = [('lognormpdf_cho_vec', (errs, cho)), ('lognormpdf_vec', (errs[:, :, 0], Sl)), ('lognormpdf_scalar', (r(size=N), s1))]
            if N:
                calls += [('lognormpdf', (errs[0], S)), ('lognormpdf_cho', (errs[0], cho))]
            for nm, args in calls:
                a, b = np.asarray(getattr(ck, nm)(*args)), np.asarray(getattr(pk, nm)(*args))
                c.check(a.shape == b.shape and a.dtype == b.dtype, 'compiled and pure %s return different types' % nm, nm + ':type', compiled=(a.shape, str(a.dtype)), pure=(b.shape, str(b.dtype)))
                c.close(a, b, 'compiled and pure %s differ' % nm, 1e-9, 1e-9, nm)
            A, f, Q = r(size=(lz, lz)), r(size=(lz, 1)), spd(rng, lz)
            C, h, R = r(size=(k, lz)), r(size=(k, 1)), spd(rng, k)
            y, z, P, zn, Pn = r(size=(k, 1)), r(size=(lz, 1)), spd(rng, lz), r(size=(lz, 1)), spd(rng, lz, 0.05, 0.2)
            C, h = (C if rng.rand() < 0.8 else None), (h if rng.rand() < 0.6 else None)
            ff = f if rng.rand() < 0.7 else None
            res = []
            for mod in (ck, pk):
                kf = mod.KalmanSmoother(lz, A=A, C=C, Q=Q, R=R, f_k=ff, h_k=h)
                o = list(kf.predict(z, P))
                for form in ('measure', 'full', 'scalar', 'inplace'):
                    a, b = z.copy(), P.copy()
                    if form == 'measure':
                        o.append(kf.measure(y, a, b))
                    elif form == 'full':
                        o.append(kf.measure_full(y, a, b, C, h, R))
                    elif form == 'scalar':
                        if k == 1:
                            o.append(kf.measure_full_scalar(y, a, b, C, h, R))
                    else:
                        o += list(kf.predict_full_inplace(a, b, A, f, Q))
                    o += [a, b]
                o.append(kf.measurement_diff(y, z, C, h))
                o += list(kf.smooth(z, P, zn, Pn, A, f, Q))
                res.append([np.asarray(v) for v in o])
            for i, (a, b) in enumerate(zip(*res)):
                c.check(a.shape == b.shape, 'compiled and pure Kalman filter return different shapes', 'kalman:shape', position=i, compiled=a.shape, pure=b.shape)
                c.close(a, b, 'compiled and pure Kalman filter differ', 1e-9, 1e-9, 'kalman', position=i)
            ctx.count('kalman_sets')


def work(seed):
    """one whole run: filter, smoother, objective and gradient; everything the
    caller can see"""
    from .. import pargen
    rng = np.random.RandomState(seed)
    np.random.seed(seed)
    kind = ['lin', 'mix', 'marg'][seed % 3]
    s = (pargen.lin_spec if kind == 'lin' else pargen.mix_spec)(rng, None, int(rng.choice([1, 2, 3])))
    m = {'lin': pargen.LinGrad, 'mix': pargen.MixGrad, 'marg': pargen.MargGrad}[kind](s, rng)
    T = pick(rng, [1, 2, 5], [14])
    pargen.simulate(s, rng, T, s.point(rng), miss=float(rng.choice([0, 0.3])))
    mf = bool(rng.rand() < 0.5)
    m.set_params(s.point(rng))
    N, M = (1, 1) if kind == 'lin' else (pick(rng, [2, 6], [40]), pick(rng, [1, 4], [20]))
    from pyparticleest.filter import ParticleTrajectory
    meth = str(rng.choice(['full', 'ancestor'] + (['mcmc'] if kind != 'lin' else [])))
    pt = ParticleTrajectory(m, N)
    if mf:
        pt.measure(s.y[0])
    for t in range(s.T):
        pt.forward(s.u[t], s.y[t + 1])
    out = [np.array(x.pa.part) for x in pt.traj] + [np.array(x.pa.w, dtype=float) for x in pt.traj]
    st = pt.perform_smoothing(M, method=meth)
    est = [np.array(x.pa.part) for x in st.traj]
    out += est
    a = est[0].copy()
    v, g = m.eval_logp_x0_val_grad(a, 0)
    out += [np.sum(v), np.ravel(g), np.sum(m.eval_logp_x0(a.copy(), 0))]
    for t in range(T):
        v, g = m.eval_logp_xnext_val_grad(est[t].copy(), est[t + 1].copy(), s.u[t], t)
        out += [np.sum(v), np.ravel(g), np.sum(m.eval_logp_xnext(est[t].copy(), est[t + 1].copy(), s.u[t], t))]
    for t in range(T + 1):
        if s.y[t] is not None:
            v, g = m.eval_logp_y_val_grad(est[t].copy(), s.y[t], t)
            out += [np.sum(v), np.ravel(g), np.sum(m.eval_logp_y(est[t].copy(), s.y[t], t))]
    return (kind, N, M, T, meth, mf, m.s.np), [np.asarray(x, dtype=float) for x in out]


def dump(seeds, path):
    """in the pure configuration: results of the same runs"""
    d = {}
    for s in seeds:
        try:
            for i, x in enumerate(work(s)[1]):
                d['%d/%d' % (s, i)] = x
        except Exception as e:
            d['%d/err' % s] = np.frombuffer(repr(e)[:300].encode(), dtype=np.uint8)
    np.savez(path, **d)


def run_models(ctx, n=40):
    base = 1000003 * ctx.seed + 7919 * ((zlib.crc32(ctx.shard.encode()) % 1000))
    seeds = [int((base + i * 3 + i % 3) % (2 ** 31)) for i in range(n)]
    if ctx.only is not None:
        seeds = seeds[:ctx.only + 1]
    d = tempfile.mkdtemp(prefix='c27-')
    path = os.path.join(d, 'pure.npz')
    code = 'import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True\nimport warnings; warnings.simplefilter("ignore")\nfrom mon import core\ncore.use_config("pure")\nimport numpy as np; np.seterr(all="ignore")\nfrom mon.checks import c27\nc27.dump(%r, %r)\n' % (
        os.path.dirname(os.path.dirname(os.path.dirname(os.path.realpath(__file__)))), seeds, path)
    p = subprocess.run([sys.executable, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
    if p.returncode:
        ctx.errors.append('pure run failed: ' + p.stdout.decode(errors='replace')[-2000:])
        return
    pure = dict(np.load(path))
    shutil.rmtree(d)
    for c in ctx.cases(n):
        with c:
            s = seeds[c.idx]
            if '%d/err' % s in pure:
                want = bytes(pure['%d/err' % s]).decode(errors='replace')
                try:
                    work(s)
                    got = None
                except Exception as e:
                    got = repr(e)[:300]
                c.check(got is not None, 'run fails with the pure kernels only', 'fails:pure', pure=want)
                ctx.count('failing_runs')
                continue
            desc, out = work(s)
            c.note(run=desc)
            k = sum(1 for x in pure if x.startswith('%d/' % s))
            if not c.check(k == len(out), 'runs with compiled and pure kernels return a different number of results', 'models:len'):
                continue
            for i, x in enumerate(out):
                w = pure['%d/%d' % (s, i)]
                if not c.check(x.shape == w.shape, 'runs with compiled and pure kernels differ in shape', 'models:shape', position=i):
                    break
                fin = np.isfinite(w)
                if not c.check(np.array_equal(fin, np.isfinite(x)), 'runs with compiled and pure kernels differ in finiteness', 'models:finite', position=i):
                    break
                if not c.close(x[fin], w[fin], 'runs with compiled and pure kernels differ', 1e-6, 1e-7, 'models', position=i):
                    break
            ctx.count('runs_compared')
            ctx.count('arrays_compared', len(out))
            ctx.distinct(*desc)


def run_san(ctx, n=60, probe=False):
    """whole runs under the sanitizers; reports end the process, which the
    driver turns into a violation"""
    import pyparticleest.utils.cmlnlg_compute as cm
    for c in ctx.cases(n):
        with c:
            try:
                desc, out = work(int(c.seed % (2 ** 31)))
                ctx.distinct('san', *desc)
            except Exception:
                ctx.count('san_failing_runs')
            c.ctx.evals += 1
            ctx.count('san_runs')
