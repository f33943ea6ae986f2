"""Complete runs of random models, filters and smoothers as comparable records."""
import copy
import numpy as np
from .core import pick
from .trace import *
from . import ltvgen, mlgen, pargen
from .checks import c17
from pyparticleest.filter import ParticleTrajectory

OPT = ('mcmc', 'mhips', 'mhips_reduced', 'mhbp')
KINDS = ('trace', 'nlg', 'ltv', 'mixed', 'hier', 'marg', 'plin', 'pmix', 'sir', 'minimal')


class MinimalModel(object):
    """the smallest model the bootstrap filter and backward simulation need:
    none of the optional methods"""

    def __init__(self, tm):
        self._tm = tm

    def create_initial_estimate(self, N):
        return self._tm.create_initial_estimate(N)

    def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
        return self._tm.sample_process_noise_full(ptraj, ancestors, ut, tt)

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        return self._tm.update_full(particles, traj, uvec, yvec, tvec, ancestors, noise)

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        return self._tm.measure_full(particles, traj, uvec, yvec, tvec, ancestors)

    def copy_ind(self, particles, new_ind=None):
        return self._tm.copy_ind(particles, new_ind)

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        return self._tm.logp_xnext_full(part=part, past_trajs=past_trajs, pind=pind, future_trajs=future_trajs, find=find, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        return part.copy()


class Job(object):
    def __init__(self, rng, kind=None):
        self.kind = kind or str(rng.choice(KINDS))
        k = self.kind
        T = self.T = pick(rng, [0, 1, 2, 2, 4, 4], [12, 20])
        self.N = pick(rng, [2, 5, 12], [40, 90])
        self.M = pick(rng, [1, 4], [15, 50])
        self.cols = slice(None)
        self.res = float(rng.choice([0.0, 0.67, 1.0]))
        self.pre = int(rng.choice([0, 0, 2]))
        self.mf = bool(rng.rand() < 0.5) or T == 0
        self.u = [rng.normal(size=1) for _ in range(T)]
        miss = float(rng.choice([0, 0.3]))
        seed = int(rng.randint(2 ** 31))
        self.filters = ['pf', 'apf']
        self.smoothers = ['full', 'ancestor', 'mcmc', 'rs', 'rsas']
        cond = ['cpf', 'cpfas']
        if k in ('trace', 'sir', 'minimal'):
            p = Params(rng, sharp=float(rng.choice([0.3, 5.0])))
            self.u = [np.array([100.0 + t, rng.normal()]) for t in range(T)]
            self.y = [None if k != 'sir' and rng.rand() < miss else np.array([200.0 + t, rng.normal() * 2]) for t in range(T + 1)]
            self.cols = [X, TS]
            self.smoothers += ['mhips', 'mhbp', 'mhips_reduced']
            if k == 'trace':
                self.filters += cond + ['pfy', 'cpfyas', 'csiras', 'sir'] if not any(v is None for v in self.y) else cond
                self.make = lambda: TraceModel(p)
            elif k == 'sir':
                self.filters, self.smoothers = ['sir', 'csiras'], []
                self.make = lambda: PureSIRModel(TraceModel(p))
            else:
                self.filters, self.smoothers = ['pf'], ['full', 'ancestor', 'mcmc']
                self.make = lambda: MinimalModel(TraceModel(p))
        elif k == 'nlg':
            s = c17.Spec(rng)
            self.make = lambda: c17.Model(copy.deepcopy(s), np.random.RandomState(seed))
            self.y = [None if rng.rand() < miss else rng.normal(size=(s.ly, 1)) for _ in range(T + 1)]
            self.filters += []
        elif k == 'ltv':
            s = ltvgen.System(rng, T, tv=bool(rng.rand() < 0.6), partial=bool(rng.rand() < 0.5))
            s.prep = bool(rng.rand() < 0.3)
            s.simulate(rng, ymiss=miss)
            self.N, self.M = 1, 1
            self.u, self.y = s.u, [s.feed(t) for t in range(len(s.y))]
            self.make = lambda: ltvgen.LTVModel(s, s.tv)
            self.filters, self.smoothers = ['pf'], ['full', 'ancestor', 'mcmc']
        elif k in ('plin', 'pmix'):
            s = (pargen.lin_spec if k == 'plin' else pargen.mix_spec)(rng, None, 2)
            pv = s.point(rng)
            s.prep = bool(rng.rand() < 0.3)
            pargen.simulate(s, rng, T, pv, miss=miss)
            cls = pargen.LinGrad if k == 'plin' else pargen.MixGrad

            def make():
                m = cls(s, np.random.RandomState(seed))
                m.set_params(pv)
                return m
            self.make = make
            self.u, self.y = s.u, [s.feed(t) for t in range(len(s.y))]
            self.spec = s
            if k == 'plin':
                self.N, self.M = 1, 1
            self.filters, self.smoothers = ['pf'], ['full', 'ancestor']
        else:
            s = mlgen.Mix(rng, T, hier=k == 'hier')
            s.prep = bool(rng.rand() < 0.3)
            s.simulate(rng, ymiss=miss)
            self.u, self.y = s.u, [s.feed(t) for t in range(len(s.y))]
            self.make = lambda: dict(mixed=mlgen.Mixed, hier=mlgen.Hier, marg=mlgen.Marg)[k](s)
            self.smoothers = ['ancestor', 'full', 'mcmc'] + ([] if k == 'marg' else ['rs', 'rsas', 'mhips', 'mhips_reduced', 'mhbp'])
            if k == 'hier':
                self.filters += []
        self.filt = str(rng.choice(self.filters))
        if self.filt in ('pfy', 'cpfyas'):
            self.mf, self.pre = True, 0
        if self.filt == 'csiras' or self.filt == 'sir':
            self.smoothers = [x for x in self.smoothers if x in ('full', 'ancestor', 'mcmc')]
        self.ctraj = cond_traj(rng, T + 1) if self.filt.startswith('c') else None
        self.plan = [str(rng.choice(self.smoothers)) for _ in range(int(rng.choice([1, 2])))] if self.smoothers else []
        self.opts = {m: {'R': int(rng.choice([1, 3]))} for m in self.plan if m in OPT and (m == 'mhips_reduced' or rng.rand() < 0.6)}
        for m in self.plan:
            if m not in OPT and rng.rand() < 0.5:
                self.opts[m] = {'rs': [{}, {'R': 3}], 'rsas': [{}, {'ratio': 1.5}]}.get(m, [{}, {}])[rng.randint(2)]
        self.options = {} if self.ctraj is None else {'cond_traj': self.ctraj}

    def describe(self):
        return dict(kind=self.kind, filter=self.filt, smoothers=self.plan, N=self.N, M=self.M, T=self.T, mf=self.mf, res=self.res, pre=self.pre)

    def key(self):
        return (self.kind, self.filt, tuple(self.plan), self.N, self.M, self.T, self.mf, self.pre)

    def run(self, model, seed, **kw):
        """list of (label, array); an exception ends the record"""
        np.random.seed(seed)
        out = []
        for _ in self.steps(model, out, **kw):
            pass
        return out

    def steps(self, model, out, keep=None):
        """the same run, handing back control between the public calls"""
        try:
            kw = dict(T=self.T + 1 + self.pre) if self.pre else {}
            if self.options:
                kw['filter_options'] = self.options
            pt = ParticleTrajectory(model, self.N, resample=self.res, filter=self.filt, **kw)
            if keep is not None:
                keep.append(pt)
            yield
            if self.mf:
                pt.measure(self.y[0])
                yield
            for t in range(self.T):
                out.append(('resampled', np.array(bool(pt.forward(self.u[t], self.y[t + 1])))))
                yield
            for t, s in enumerate(pt.traj):
                out += [('particles %d' % t, s.pa.part[:, self.cols].copy()), ('weights %d' % t, np.array(s.pa.w, dtype=float, copy=True)),
                        ('ancestors %d' % t, np.array(s.ancestors, dtype=int, copy=True))]
            for m in self.plan:
                st = pt.perform_smoothing(self.M, method=m, smoother_options=self.opts.get(m))
                yield
                if keep is not None:
                    keep.append(st)
                out += [('%s %d' % (m, t), s.pa.part[:, self.cols].copy()) for t, s in enumerate(st.traj)]
            out.append(('generator', np.random.get_state()[1].copy()))
        except Exception as e:
            out.append(('exception', np.array([type(e).__name__])))
            self.error = e


def same_run(c, a, b, what, key, tol=1e-8):
    """equal up to rounding: the linear algebra libraries may round differently
    depending on where in memory their operands happen to lie"""
    if not c.check([x[0] for x in a] == [x[0] for x in b], what + ': different results (one run failed)', key + ':kind', a=a[-1], b=b[-1]):
        return False
    for (la, x), (_, y) in zip(a, b):
        ok = x.shape == y.shape and x.dtype == y.dtype
        if ok and x.dtype.kind == 'f':
            ok = np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True)
        elif ok:
            ok = np.array_equal(x, y)
        if not c.check(ok, '%s: %s differ' % (what, la.split(' ')[0]), '%s:%s' % (key, la.split(' ')[0]), where=la, got=x, want=y):
            return False
    return True
