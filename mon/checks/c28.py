"""Kalman primitives against dense conditioning."""
import numpy as np
from ..core import pick
import scipy.linalg
from ..dense import *


def kal(config):
    if config == 'ext':
        import pyparticleest.utils.ckalman as k
    else:
        import pyparticleest.utils.kalman as k
    return k


def hard_cov(rng, n):
    """strongly correlated / badly scaled covariance"""
    kind = rng.randint(4)
    S = spd(rng, n)
    if kind == 1:
        S = spd(rng, n, 10.0 ** -rng.uniform(2, 6), 1.0)
    elif kind == 2:
        d = 10.0 ** rng.uniform(-4, 4, size=n)
        S = d[:, None] * S * d[None, :]
    elif kind == 3 and n > 1:
        r = 1 - 10.0 ** -rng.uniform(2, 6)
        S = np.full((n, n), r) + (1 - r) * np.eye(n)
    return 0.5 * (S + S.T)


def run_main(ctx, n=400):
    k = kal(ctx.config)
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            lz, ly = int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 1, 2, 3]))
            # ---- log-densities
            d = int(rng.choice([1, 2, 3, 6]))
            N = pick(rng, [1, 2, 7], [60])
            S = hard_cov(rng, d)
            L = np.linalg.cholesky(S)
            errs = np.array([L @ rng.normal(size=d) * rng.choice([0.0, 1.0, 10.0]) for _ in range(N)])
            # forward error of any backward stable algorithm grows with the condition number after scaling
            D = np.sqrt(np.diag(S))
            cond = np.linalg.cond(S / np.outer(D, D))
            want = np.array([logpdf(e, S) for e in errs])
            tol = dict(rtol=1e-9, atol=1e-8 + 1e-13 * cond * (1 + 100 * d))
            c.note(d=d, cond=cond, lz=lz, ly=ly)
            cho = scipy.linalg.cho_factor(S) if rng.rand() < 0.5 else scipy.linalg.cho_factor(S, lower=True)
            S0, e0 = S.copy(), errs.copy()
            for i in range(N):
                c.close(k.lognormpdf(errs[i], S), want[i], 'lognormpdf (vector)', key='lognormpdf', **tol)
                c.close(k.lognormpdf(errs[i].reshape(-1, 1), S), want[i], 'lognormpdf (column)', key='lognormpdf', **tol)
                c.close(k.lognormpdf_cho(errs[i], cho), want[i], 'lognormpdf_cho (vector)', key='lognormpdf_cho', **tol)
                c.close(k.lognormpdf_cho(errs[i].reshape(-1, 1), cho), want[i], 'lognormpdf_cho (column)', key='lognormpdf_cho', **tol)
            c.close(k.lognormpdf_cho_vec(errs.reshape(N, d, 1), cho), want, 'lognormpdf_cho_vec (columns)', key='lognormpdf_cho_vec', **tol)
            c.close(k.lognormpdf_cho_vec(errs, cho), want, 'lognormpdf_cho_vec', key='lognormpdf_cho_vec', **tol)
            Sl = np.array([hard_cov(rng, d) for _ in range(N)])
            cm = max(np.linalg.cond(s / np.outer(np.sqrt(np.diag(s)), np.sqrt(np.diag(s)))) for s in Sl)
            el = np.array([np.linalg.cholesky(s) @ rng.normal(size=d) for s in Sl])
            c.close(k.lognormpdf_vec(el, Sl), [logpdf(e, s) for e, s in zip(el, Sl)], 'lognormpdf_vec', key='lognormpdf_vec', rtol=1e-9, atol=1e-8 + 1e-11 * cm)
            s1 = np.array([[10.0 ** rng.uniform(-6, 6)]])
            e1 = np.sqrt(s1[0, 0]) * rng.normal(size=N) * 3
            for shp in ((N,), (N, 1), (N, 1, 1)):
                c.close(k.lognormpdf_scalar(e1.reshape(shp), s1), [logpdf([e], s1) for e in e1], 'lognormpdf_scalar', key='lognormpdf_scalar')
            c.check(np.array_equal(S, S0) and np.array_equal(errs, e0), 'log-density functions modified their input', 'pdf-mut')

            # ---- covariances whose determinant is outside of the floating point range
            if rng.rand() < 0.4:
                dd = int(rng.choice([8, 20, 40]))
                SS = spd(rng, dd) * 10.0 ** (rng.choice([-1, 1]) * rng.uniform(8, 30))
                sc = np.sqrt(np.mean(np.diag(SS)))
                ee = np.linalg.cholesky(SS) @ rng.normal(size=dd)
                ww = logpdf(ee / sc, SS / sc ** 2) - dd * np.log(sc)
                cc = scipy.linalg.cho_factor(SS)
                tt = dict(rtol=1e-9, atol=1e-7)
                c.close(k.lognormpdf(ee, SS), ww, 'lognormpdf (extreme determinant)', key='lognormpdf', **tt)
                c.close(k.lognormpdf_cho(ee, cc), ww, 'lognormpdf_cho (extreme determinant)', key='lognormpdf_cho', **tt)
                c.close(k.lognormpdf_cho_vec(ee.reshape(1, dd, 1), cc), [ww], 'lognormpdf_cho_vec (extreme determinant)', key='lognormpdf_cho_vec', **tt)
                c.close(k.lognormpdf_vec(ee.reshape(1, dd), SS[None]), [ww], 'lognormpdf_vec (extreme determinant)', key='lognormpdf_vec', **tt)
                kf = k.KalmanSmoother(dd)
                za, Pa = np.zeros((dd, 1)), 0.5 * SS
                c.close(np.ravel(kf.measure_full(ee.reshape(-1, 1), za, Pa, np.eye(dd), None, 0.5 * SS)), [ww], 'measure_full log-likelihood (extreme determinant)', key='measure_full-ll', **tt)
                c.close(za / sc, 0.5 * ee / sc, 'measure_full mean (extreme determinant)', key='measure_full', rtol=1e-8, atol=1e-8)
                c.close(Pa / sc ** 2, 0.25 * SS / sc ** 2, 'measure_full covariance (extreme determinant)', key='measure_full', rtol=1e-8, atol=1e-8)
                ctx.count('extreme_determinants')

            # ---- filter primitives
            A, f, Q = rng.normal(size=(lz, lz)), rng.normal(size=(lz, 1)), spd(rng, lz)
            if rng.rand() < 0.3:
                Q = psd(rng, lz, max(lz - 1, 0))
            C, h, R = rng.normal(size=(ly, lz)), rng.normal(size=(ly, 1)), spd(rng, ly)
            z, P = rng.normal(size=(lz, 1)), spd(rng, lz)
            zn, Pn = rng.normal(size=(lz, 1)), spd(rng, lz, 0.05, 0.2)
            y = rng.normal(size=(ly, 1))
            useC, useh = rng.rand() < 0.8, rng.rand() < 0.6
            CC, hh = (C if useC else None), (h if useh else None)
            ctor = rng.rand() < 0.5
            if ctor:
                kf = k.KalmanSmoother(lz, A=A, C=CC, Q=Q, R=R, f_k=f, h_k=hh)
            else:
                kf = k.KalmanSmoother(lz)
                kf.set_dynamics(A=A, Q=Q, f_k=f)
                kf.set_dynamics(C=CC, R=R, h_k=hh)
            ins = [A, f, Q, C, h, R, y]
            copies = [v.copy() for v in ins]
            z0, P0 = z.copy(), P.copy()
            j = Joint().add('z', z, P).add('zn', f, Q, [('z', A)])
            t = dict(rtol=1e-8, atol=1e-8)
            for nm, (a, b) in (('predict', kf.predict(z, P)), ('predict_full', kf.predict_full(z, P, A, f, Q))):
                c.close(a, j.mean('zn'), nm + ' mean', key=nm, **t)
                c.close(b, j.cov('zn'), nm + ' covariance', key=nm, **t)
            c.check(np.array_equal(z, z0) and np.array_equal(P, P0), 'predict modified its input', 'predict-mut')
            zi, Pi = z.copy(), P.copy()
            r = kf.predict_full_inplace(zi, Pi, A, f, Q)
            c.close(zi, j.mean('zn'), 'in-place prediction mean', key='inplace', **t)
            c.close(Pi, j.cov('zn'), 'in-place prediction covariance', key='inplace', **t)
            jm = Joint().add('z', z, P).add('y', h if useh else np.zeros((ly, 1)), R, [('z', C)] if useC else [])
            c.close(kf.measurement_diff(y, z, CC, hh), y.ravel() - jm.mean('y'), 'measurement difference', key='measdiff', **t)
            post = jm.cond({'y': y})
            ll = jm.loglik({'y': y})
            forms = [('measure', lambda a, b: kf.measure(y, a, b)), ('measure_full', lambda a, b: kf.measure_full(y, a, b, CC, hh, R))]
            if ly == 1:
                forms.append(('measure_full_scalar', lambda a, b: kf.measure_full_scalar(y, a, b, CC, hh, R)))
            for nm, fn in forms:
                za, Pa = z.copy(), P.copy()
                got = fn(za, Pa)
                c.close(np.asarray(got).ravel(), [ll], nm + ' log-likelihood', key=nm + '-ll', **t)
                c.close(za, post.mean('z'), nm + ' mean', key=nm, **t)
                c.close(Pa, post.cov('z'), nm + ' covariance', key=nm, **t)
            # smoothing: z | data with z_next ~ N(zn,Pn) given the future
            zs, Ps, Ms = kf.smooth(z, P, zn, Pn, A, f, Q)
            Pp = j.cov('zn')
            J = j.cov('z', 'zn') @ np.linalg.inv(Pp)
            if np.linalg.cond(Pp) < 1e6:
                c.close(zs, z.ravel() + J @ (zn.ravel() - j.mean('zn')), 'smoothed mean', key='smooth', rtol=1e-6, atol=1e-7)
                c.close(Ps, P + J @ (Pn - Pp) @ J.T, 'smoothed covariance', key='smooth', rtol=1e-6, atol=1e-7)
                c.close(Ms, J @ Pn, 'smoothed cross covariance', key='smooth', rtol=1e-6, atol=1e-7)
            c.check(np.array_equal(z, z0) and np.array_equal(P, P0) and all(np.array_equal(a, b) for a, b in zip(ins, copies)), 'primitives modified their inputs', 'mut')
            # states in very different units
            if rng.rand() < 0.5:
                D = 2.0 ** rng.randint(-16, 17, size=lz)
                Di = 1.0 / D
                col = D[:, None]
                As, fs, Qs, zs_, Ps_ = col * A * Di, col * f, col * Q * D, col * z, col * P * D
                if np.linalg.cond(Pp) < 1e6:
                    a, b, m = kf.smooth(zs_.copy(), Ps_.copy(), col * zn, col * Pn * D, As, fs, Qs)
                    c.close(a * Di[:, None], z.ravel() + J @ (zn.ravel() - j.mean('zn')), 'smoothed mean (other units)', key='smooth:units', rtol=1e-5, atol=1e-6)
                    c.close(Di[:, None] * b * Di, P + J @ (Pn - Pp) @ J.T, 'smoothed covariance (other units)', key='smooth:units', rtol=1e-5, atol=1e-6)
                    c.close(Di[:, None] * m * Di, J @ Pn, 'smoothed cross covariance (other units)', key='smooth:units', rtol=1e-5, atol=1e-6)
                E = 2.0 ** rng.randint(-16, 17, size=ly)
                za, Pa = zs_.copy(), Ps_.copy()
                got = kf.measure_full(E[:, None] * y, za, Pa, None if CC is None else E[:, None] * C * Di, None if hh is None else E[:, None] * h, E[:, None] * R * E)
                c.close(np.asarray(got).ravel(), [ll - np.sum(np.log(E))], 'measure_full log-likelihood (other units)', key='measure_full-ll', rtol=1e-7, atol=1e-6)
                c.close(za * Di[:, None], post.mean('z'), 'measure_full mean (other units)', key='measure_full', rtol=1e-6, atol=1e-6)
                c.close(Di[:, None] * Pa * Di, post.cov('z'), 'measure_full covariance (other units)', key='measure_full', rtol=1e-6, atol=1e-6)
                ctx.count('rescaled')
            ctx.count('primitive_sets')
            ctx.distinct(lz, ly, d, N, useC, useh, ctor, int(np.log10(cond)))
