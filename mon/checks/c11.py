"""Scaling invariance: pairs of runs with the same randomness, one of them with
constants added to the log-likelihoods and transition log-densities of each
step; and degenerate magnitudes."""
import numpy as np
from ..core import pick
from ..trace import *

Q = 2.0 ** 20


class Shifted(Params):
    """log-densities on a grid so that adding an integer constant is exact"""

    def shift(self, rng, T, on, big):
        mags = [0.0, 1.0, 40.0, 800.0, 1e4, 1e6] if big else [0.0, 1.0, 40.0]

        def draw():
            return np.array([float(round(rng.choice([-1, 1]) * rng.choice(mags) * rng.uniform(0.5, 1))) for _ in range(T + 2)])
        self.oy, self.ox, self.o1 = draw(), draw(), draw()
        if not on:
            self.oy = self.ox = self.o1 = np.zeros(T + 2)
        return self

    def ll_y(self, x, y, t):
        return np.round(Params.ll_y(self, x, y, t) * Q) / Q + self.oy[int(tv(t))]

    def lp_x(self, x, xn, u, t):
        return np.round(Params.lp_x(self, x, xn, u, t) * Q) / Q + self.ox[int(tv(t))]

    def lp_max(self, u, t):
        return np.ceil(Params.lp_max(self, u, t) * Q) / Q + self.ox[int(tv(t))]

    def l1w(self, x, u, y, t):
        return np.round(Params.l1w(self, x, u, y, t) * Q) / Q + self.o1[int(tv(t))]

    def lq(self, *a):
        return np.round(Params.lq(self, *a) * Q) / Q


FILTERS = ['pf', 'apf', 'sir', 'pfy', 'cpf', 'cpfas', 'cpfyas', 'csiras', 'pf', 'apf']


def one(seed, cfg, on, meths, M):
    rng = np.random.RandomState(seed)
    p = Shifted(rng, sharp=cfg['sharp'], inf_prob=cfg['inf_prob']).shift(rng, cfg['T'], on, True)
    fo = {'cond_traj': cond_traj(rng, cfg['T'] + 1)} if cfg['filter'][0] == 'c' else {}
    np.random.seed(seed)
    tm = TraceModel(p, budget=10 ** 6)
    r = drive(cfg, rng, fo, tm=tm, model=tm)
    r.sm = []
    if not r.dead:
        for k, meth in enumerate(meths):
            opt = {'R': 3} if meth in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp', 'rs') else None
            np.random.seed(seed + 1 + k)
            st = r.pt.perform_smoothing(M, method=meth, smoother_options=opt)
            r.sm.append([s.pa.part[:, X].copy() for s in st.traj])
    return r


def run_main(ctx, n=200):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = FILTERS[c.idx % len(FILTERS)]
            cfg = gen_cfg(rng, filt)
            cfg['offset'] = 0.0
            if cfg['sharp'] > 20:
                cfg['sharp'] = 20.0
            all_ = ['ancestor', 'full', 'rs', 'rsas', 'mcmc', 'mhips', 'mhips_reduced', 'mhbp']
            meths = [all_[i] for i in rng.permutation(len(all_))[:3]]
            M = pick(rng, [1, 4], [30])
            c.note(methods=meths, M=M, **cfg)
            seed = c.seed & 0x7fffffff
            a, b = one(seed, cfg, False, meths, M), one(seed, cfg, True, meths, M)
            c.check(len(a.final) == len(b.final) and a.dead == b.dead, 'run ended early when constants were added', 'dead')
            c.check(a.flags == b.flags, 'resampling decisions change with constants added to the log-likelihoods', 'flags', a=a.flags, b=b.flags)
            ok = True
            for t, (s, v) in enumerate(zip(a.final, b.final)):
                ok = c.check(np.array_equal(s.anc, v.anc), 'ancestors change with constants added to the log-likelihoods', 'anc', step=t) and \
                    c.check(np.array_equal(s.part[:, X], v.part[:, X]), 'particles change with constants added to the log-likelihoods', 'part', step=t)
                if not ok:
                    break
                if np.any(np.isfinite(s.w)):
                    close_w(c, v.w, s.w, 'weights change with constants added to the log-likelihoods', key='weights', step=t)
                ctx.count('steps_compared')
            if ok:
                for meth, s, v in zip(meths, a.sm, b.sm):
                    c.check(all(np.array_equal(x, y) for x, y in zip(s, v)), 'smoothed trajectories change with constants added to the log-densities', 'smooth:' + meth, method=meth)
                    ctx.count('smoothings_compared')
            ctx.distinct(filt, cfg['N'], cfg['T'], cfg['res'], cfg['sharp'], cfg['inf_prob'], str(meths), cfg['prealloc'])


class Wild(Params):
    """log-likelihoods of arbitrary magnitude, chosen by the state"""

    def set(self, scale, zero, kind):
        self.scale, self.zero, self.kind = scale, zero, kind
        return self

    def wild(self, x, s=1.0):
        x = np.asarray(x, dtype=float)
        h = np.modf(np.abs(np.sin(x * 12.9898 + s) * 43758.5453))[0]
        k = np.modf(np.abs(np.sin(x * 78.233 + s) * 12543.123))[0]
        r = (h - 0.5) * 2 * self.scale
        if self.kind == 'pos':
            r = np.abs(r)
        elif self.kind == 'neg':
            r = -np.abs(r)
        return np.where(k < self.zero, -np.inf, r)

    def ll_y(self, x, y, t):
        return self.wild(x)

    def l1w(self, x, u, y, t):
        # look-ahead weights must not be zero where the likelihood is not
        h = self.wild(x, 3.0)
        return np.where(np.isfinite(h), h, 0.0)

    def lp_x(self, x, xn, u, t):
        h = self.wild(np.asarray(xn) + 0.3 * np.asarray(x), 5.0)
        return np.where(np.isfinite(h), h, 0.0)

    def lp_max(self, u, t):
        return self.scale


def run_wild(ctx, n=300):
    """never NaN, never all zero"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = FILTERS[c.idx % len(FILTERS)]
            cfg = gen_cfg(rng, filt)
            cfg['inf_prob'] = 0.0
            scale = float(rng.choice([1.0, 1e3, 1e6, 1e12, 1e100]))
            p = Wild(rng).set(scale, float(rng.choice([0.0, 0.0, 0.2, 0.8])), rng.choice(['both', 'pos', 'neg']).item())
            c.note(scale=scale, zero=p.zero, kind=p.kind, **cfg)
            tm = TraceModel(p, budget=10 ** 6)
            fo = {'cond_traj': cond_traj(rng, cfg['T'] + 1)} if filt[0] == 'c' else {}

            def on_step(r):
                t = len(r.pt.traj) - 1
                w = np.asarray(r.pt.traj[t].pa.w, dtype=float)
                alive = True
                if filt in ('pfy', 'cpfyas'):
                    base = np.zeros(len(w))
                else:
                    ll = sum((p.ll_y(r.pt.traj[t].pa.part[:, X], y, t) for y in r.meas_now(t) if y is not None), np.zeros(len(w)))
                    prev = np.zeros(len(w))
                    # the weights carried over, unless resampled
                    if t > 0 and np.array_equal(r.pt.traj[t].ancestors, np.arange(len(w))):
                        prev = np.where(np.isfinite(r.pt.traj[t - 1].pa.w), 0.0, -np.inf)
                    base = ll + prev
                    alive = np.any(np.isfinite(base))
                if not alive:
                    r.all_zero = True
                    return
                if getattr(r, 'all_zero', False):
                    return
                c.check(not np.any(np.isnan(w)) and not np.any(w == np.inf), 'weights became NaN or infinite', 'nan', step=t, w=w)
                c.check(np.any(np.isfinite(w)), 'all weights became zero', 'zero', step=t, w=w)
                with np.errstate(all='ignore'):
                    e = np.exp(w)
                    c.check(np.isfinite(e.sum()) and e.sum() > 0, 'weights cannot be normalised', 'normalise', step=t, w=w)
                ctx.count('steps_checked')
            try:
                r = drive_wild(cfg, rng, fo, tm, on_step)
            except Dead:
                continue
            if r.all_zero or filt in ('sir', 'csiras'):
                continue
            # smoothing works on such weights as well
            meth = ['ancestor', 'full', 'mcmc', 'mhbp'][rng.randint(4)]
            st = r.pt.perform_smoothing(3, method=meth, smoother_options={'R': 2} if meth in ('mcmc', 'mhbp') else None)
            for t, s in enumerate(st.traj):
                c.check(not np.any(np.isnan(s.pa.part[:, X])), 'NaN in a smoothed trajectory', 'smooth-nan', step=t)
                # a conditioned trajectory may have zero likelihood
                if meth in ('ancestor', 'full', 'mcmc') and filt[0] != 'c':
                    ids = list(r.pt.traj[t].pa.part[:, ID])
                    for i in s.pa.part[:, ID]:
                        j = ids.index(i) if i in ids else None
                        if c.check(j is not None, 'smoothed state is not a filter particle', 'smooth-member'):
                            c.check(np.isfinite(r.pt.traj[t].pa.w[j]), 'smoothed trajectory visits a particle of zero weight', 'smooth-zero', step=t, method=meth)
            ctx.distinct(filt, scale, p.zero, p.kind, cfg['N'], cfg['T'], cfg['res'], meth)


class Dead(Exception):
    pass


def drive_wild(cfg, rng, fo, tm, on_step):
    class R(object):
        pass
    from pyparticleest.filter import ParticleTrajectory
    r = R()
    r.all_zero = False
    u, y = gen_data(cfg, rng)
    meas = {}
    r.meas_now = lambda t: meas.get(t, [])
    r.pt = ParticleTrajectory(tm, cfg['N'], resample=cfg['res'], filter=cfg['filter'], filter_options=fo)
    if cfg['meas_first']:
        meas[0] = [y[0]]
        r.pt.measure(y[0])
        on_step(r)
    for t in range(cfg['T']):
        if r.all_zero:
            raise Dead()
        meas[t + 1] = [y[t + 1]]
        r.pt.forward(u[t], y[t + 1])
        on_step(r)
    return r
