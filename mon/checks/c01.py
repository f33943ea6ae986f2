"""Resampling: systematic, unbiased, weight reset, effective sample size."""
import copy
import numpy as np
from scipy.stats import binomtest
from pyparticleest.filter import sample, ParticleApproximation
from ..core import Pits, P_REJECT, pick
from ..trace import TraceModel, Params, neff, norm, NCOL


def weights(rng, n):
    kind = rng.randint(8)
    if kind == 0:
        w = np.ones(n)
    elif kind == 1:
        w = rng.dirichlet(np.ones(n) * 0.3) if n > 1 else np.ones(1)
    elif kind == 2:
        w = np.exp(rng.uniform(-40, 0, size=n))
    elif kind == 3:
        w = rng.uniform(size=n) * (rng.uniform(size=n) < 0.4)
    elif kind == 4:
        w = np.zeros(n)
        w[rng.randint(n)] = 1.0
    elif kind == 5:
        w = np.exp(rng.uniform(-700, 300, size=n))
    elif kind == 6:
        w = rng.randint(0, 4, size=n).astype(float)
    else:
        w = rng.uniform(size=n)
        w[-1 - rng.randint(min(n, 3)):] = 0.0
        w[:rng.randint(min(n, 3))] = 0.0
    if not np.any(w > 0):
        w[rng.randint(n)] = 1.0
    if rng.rand() < 0.5:
        w = w / w.sum()
    if rng.rand() < 0.2:
        w = w * 10.0 ** rng.uniform(-20, 20)
    return w


def counts_ok(c, p, idx, n, what, **kw):
    cnt = np.bincount(idx, minlength=len(p))
    e = n * p
    eps = 1e-8 * (1 + n)
    c.check(np.all(cnt >= np.floor(e - eps)) and np.all(cnt <= np.ceil(e + eps)), what + ': index counts are not floor or ceil of the expectation',
            'counts', counts=cnt, expected=e, **kw)
    c.check(not np.any(cnt[p == 0]), what + ': index of zero weight drawn', 'zero', counts=cnt, p=p, **kw)
    return cnt


def run_main(ctx, n=2000):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            N = pick(rng, [1, 2, 3, 4, 7, 20, 100, 500], [5000, 30000], 0.01)
            k = int(rng.choice([1, 2, 3, N, 2 * N + 1, 50]))
            w = weights(rng, N)
            c.note(N=N, n=k, w=w if N < 10 else None)
            p = w / w.sum()
            # counts and indicators are weights as well
            wi, how = w, 'float'
            if rng.rand() < 0.3:
                how = str(rng.choice(['int', 'bool', 'list', 'intlist', 'strided']))
                if how in ('int', 'intlist', 'bool'):
                    m = rng.randint(0, 5, size=N) if how != 'bool' else rng.randint(0, 2, size=N)
                    m[rng.randint(N)] = 1
                    wi = m.astype([np.int64, np.int32, np.uint8][rng.randint(3)]) if how != 'bool' else m.astype(bool)
                    w = m.astype(float)
                    p = w / w.sum()
                elif how == 'strided':
                    wi = np.vstack((w, w[::-1])).T[:, 0]
                if how.endswith('list'):
                    wi = wi.tolist()
                c.ctx.count('other_weight_types')
            c.note(how=how)
            w0 = copy.deepcopy(wi)
            idx = np.asarray(sample(wi, k))
            c.check(np.array_equal(wi, w0), 'sample() modified the weights passed in', 'mutated')
            if not c.check(idx.shape == (k,) and np.issubdtype(idx.dtype, np.integer) and np.all(idx >= 0) and np.all(idx < N), 'sample() did not return n indices', 'shape', idx=idx):
                continue
            counts_ok(c, p, idx, k, 'sample')
            # approximation
            lw = np.log(np.where(p > 0, p, 1))
            lw[p == 0] = -np.inf
            off = float(rng.choice([0.0, 3.7, -1e3, 1e5, -1e6]))
            part = rng.normal(size=(N, 3))
            part[:, 0] = np.arange(N)
            part0, lw0 = part.copy(), (lw + off).copy()
            pa = ParticleApproximation(part, lw + off)
            tm = TraceModel(Params(rng))
            pp = np.exp((lw + off) - np.max(lw + off))
            pp = pp / pp.sum()
            ne = pa.calc_Neff()
            c.close(ne, 1.0 / np.sum(pp ** 2), 'effective sample size is not 1/sum p^2', rtol=1e-9, key='neff')
            c.check(1 - 1e-9 <= ne <= N * (1 + 1e-9), 'effective sample size outside [1,N]', 'neff-range', neff=ne)
            c.check(np.array_equal(pa.w, lw0) and np.array_equal(pa.part, part0), 'computing the effective sample size changed the approximation', 'neff-mut')
            pb = ParticleApproximation(part, lw + off + 1024.0)
            c.close(pb.calc_Neff(), ne, 'effective sample size changes with a constant added to the log-weights', rtol=1e-6, key='neff-shift')
            b = pa.find_best_particles(int(min(N, 3)))
            c.check(np.all(pa.w[b[1:]] <= pa.w[b[:-1]]) and (N <= 3 or np.all(pa.w[b[-1]] >= np.delete(pa.w, b))) and len(set(b)) == min(N, 3),
                    'best particles are not those of largest weight', 'best', b=b)
            M = [None, k, N][rng.randint(3)]
            ind = np.asarray(pa.resample(tm, M) if M is not None else pa.resample(tm))
            m = N if M is None else M
            if not c.check(ind.shape == (m,), 'resample() did not return one index per particle', 'rs-shape', shape=ind.shape):
                continue
            counts_ok(c, pp, ind, m, 'resample')
            c.check(np.array_equal(pa.part, part0[ind]), 'resampled particles are not the copies named by the indices', 'rs-part')
            c.check(len(pa.w) == m and np.all(np.isfinite(pa.w)) and np.ptp(pa.w) == 0 and len(pa) == m and pa.num == m, 'weights not equal after resampling', 'rs-w', w=pa.w)
            c.check(np.array_equal(part, part0), 'resampling altered the original particles', 'rs-mut')
            pa.part[0, 1] += 1.0
            c.check(np.array_equal(part, part0), 'resampled particles share memory with the originals', 'rs-alias')
            c.close(pa.calc_Neff(), m, 'effective sample size after resampling is not the number of particles', rtol=1e-9, key='neff-after')
            c.ctx.distinct(N, k, off, round(float(ne) / N, 1), M is None)
            c.ctx.count('draws', k + m)


def run_bias(ctx, n=40, reps=3000):
    """expected number of copies of each index; whole draws by transform"""
    pits = Pits(np.random.RandomState(ctx.seed))
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            N = int(rng.choice([2, 3, 4, 6, 11]))
            k = int(rng.choice([1, 2, 3, N, N + 1, 2 * N + 1]))
            w = weights(rng, N)
            w[w < 1e-3 * w.max()] = 0
            p = w / w.sum()
            c.note(N=N, n=k, p=p)
            via = rng.randint(3) if k == 1 else rng.randint(2)
            tm = TraceModel(Params(rng))
            tot = np.zeros(N)
            f = np.floor(k * p + 1e-12)
            for _ in range(reps):
                if via == 0:
                    i = sample(w, k)
                elif via == 1:
                    pa = ParticleApproximation(np.arange(N, dtype=float).reshape(-1, 1), np.where(p > 0, np.log(np.where(p > 0, p, 1)), -np.inf) + 700.0)
                    i = pa.resample(tm, k)
                else:
                    pa = ParticleApproximation(np.arange(N, dtype=float).reshape(-1, 1), np.where(p > 0, np.log(np.where(p > 0, p, 1)), -np.inf) - 900.0)
                    i = np.array([int(pa.sample()[0])])
                cnt = np.bincount(np.asarray(i), minlength=N)
                tot += cnt
            # each count is floor + Bernoulli(fraction)
            for i in range(N):
                frac = k * p[i] - f[i]
                x = tot[i] - reps * f[i]
                if frac < 1e-9 or frac > 1 - 1e-9:
                    c.check(abs(tot[i] - reps * k * p[i]) < 1e-3, 'integer expectation not met exactly', 'bias-int', i=i, tot=tot[i])
                    continue
                ok = 0 <= x <= reps
                pv = binomtest(int(round(x)), reps, frac).pvalue if ok else 0.0
                c.check(pv > P_REJECT, 'expected number of copies is not n*p (p=%.2g)' % pv, 'bias', index=i, mean=tot[i] / reps, want=k * p[i], via=via)
            c.ctx.count('repeated_draws', reps)
            c.ctx.distinct('bias', N, k, via)
