"""Density of the sum of two uniforms."""
import numpy as np
from pyparticleest.utils.pdf import unifsum


def exact(p, a, b):
    """(a0,a1),(b0,b1) interval limits: convolution of the two boxes"""
    a0, a1 = sorted(a)
    b0, b1 = sorted(b)
    # density = |[p-b1,p-b0] intersect [a0,a1]| / (wa*wb)
    lo, hi = max(a0, p - b1), min(a1, p - b0)
    return max(0.0, hi - lo) / ((a1 - a0) * (b1 - b0))


def run_main(ctx, n=3000):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            scale = 10.0 ** rng.uniform(-3, 3)
            loc = float(rng.choice([0.0, 0.0, 1.0, -50.0])) * scale
            wa = scale
            wb = scale * float(rng.choice([1.0, 1.0, rng.uniform(0.1, 10), 1e-4, 1e4]))
            kind = rng.randint(3)
            a = [loc + rng.uniform(-2, 2) * scale]
            a.append(a[0] + wa)
            b = [loc * rng.uniform(-1, 1) + rng.uniform(-2, 2) * scale]
            b.append(b[0] + wb)
            if kind == 1:
                a, b = [float(np.round(v)) for v in a], [float(np.round(v)) for v in b]
                if a[0] == a[1]:
                    a[1] += 1
                if b[0] == b[1]:
                    b[1] += 1
            if rng.rand() < 0.5:
                a = a[::-1]
            if rng.rand() < 0.5:
                b = b[::-1]
            if rng.rand() < 0.3:
                a, b = b, a
            if kind == 2 and rng.rand() < 0.5:
                a, b = np.array(a), np.array(b)
            c.note(a=a, b=b)
            f = unifsum(a, b)
            sa, sb = sorted(a), sorted(b)
            lo, hi = sa[0] + sb[0], sa[1] + sb[1]
            w = hi - lo
            peak = 1.0 / max(sa[1] - sa[0], sb[1] - sb[0])
            mag = max(abs(v) for v in list(a) + list(b))
            # slope of the ramps times the rounding of locations
            tol = 1e-9 * peak + 64 * 2.3e-16 * mag * peak / min(sa[1] - sa[0], sb[1] - sb[0])
            wmin = min(sa[1] - sa[0], sb[1] - sb[0])
            ps = np.concatenate([rng.uniform(lo - 0.2 * w, hi + 0.2 * w, size=20), lo + wmin * rng.uniform(0, 1, size=8),
                                 hi - wmin * rng.uniform(0, 1, size=8), lo + wmin * np.array([1e-3, 0.5, 0.999, 1.0, 1.001]),
                                 [lo - 1e-3 * w, hi + 1e-3 * w, 0.5 * (lo + hi), lo - 100 * w, hi + 100 * w]])
            for p in ps:
                got, want = float(f(p)), exact(p, a, b)
                c.close(got, want, 'density differs from the exact one', rtol=1e-7, atol=tol, key='value', p=p)
                c.check(got >= 0, 'negative density', 'neg', p=p, got=got)
                if p < lo - 1e-6 * w or p > hi + 1e-6 * w:
                    c.check(got == 0.0, 'positive density outside the support', 'support', p=p, got=got)
                q = lo + hi - p
                c.close(float(f(q)), got, 'not symmetric about the centre', rtol=1e-6, atol=4 * tol, key='sym', p=p)
            # piecewise linear: trapezoidal rule on the breakpoints is exact
            br = np.array([lo, lo + wmin, hi - wmin, hi])
            x = np.sort(np.concatenate([br, np.linspace(lo, hi, 7)]))
            v = np.array([float(f(min(max(q, lo), hi))) for q in x])
            c.close(np.sum(0.5 * (v[1:] + v[:-1]) * np.diff(x)), 1.0, 'density does not integrate to one', rtol=1e-6, atol=tol * w + 1e-7, key='integral')
            ctx.count('points', len(ps))
            ctx.distinct(kind, round(float(np.log10(wb / wa)), 1), round(float(np.log10(scale))), a[0] < a[1], b[0] < b[1])
