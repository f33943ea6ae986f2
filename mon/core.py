"""Worker side of the monitor framework: cases, verdict recording, counters."""
import json, math, os, sys, time, traceback, zlib
import numpy as np

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
LIB = os.path.join(REPO, 'pyparticleest')


class Stop(Exception):
    pass


class StepBudget(Exception):
    """Raised by instrumented models when the library does not terminate within
    the logical number of operations that bounds any correct execution."""


def jsonable(o, depth=0):
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in o][:200]
    if isinstance(o, np.ndarray):
        if o.size > 200:
            return 'array%s' % (o.shape,)
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        o = float(o)
        return o if math.isfinite(o) else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:300]


def pick(rng, usual, large, p=0.05):
    """one of the usual sizes, now and then a large one"""
    return int(rng.choice(large if rng.rand() < p else usual))


def bare(m, *hooks):
    """turn m into a model which does not override these hooks"""
    d = {}
    for h in hooks:
        d[h] = next(k.__dict__[h] for k in type(m).__mro__ if k.__module__.startswith('pyparticleest') and h in k.__dict__)
    if d:
        m.__class__ = type('Bare' + type(m).__name__, (type(m),), d)
    return m


class Case(object):
    def __init__(self, ctx, idx, seed):
        self.ctx = ctx
        self.idx = idx
        self.seed = seed
        self.rng = np.random.RandomState(seed)
        self.desc = {}
        self.failed = False

    def note(self, **kw):
        self.desc.update(kw)

    def fail(self, msg, key=None, **details):
        self.failed = True
        self.ctx._violation(self, msg, key or msg.split(':')[0], details)

    def check(self, cond, msg, key=None, **details):
        self.ctx.evals += 1
        if not cond:
            self.fail(msg, key, **details)
        return bool(cond)

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9, key=None, **details):
        """Numerical agreement; NaN and infinity never agree with anything but
        an equal infinity."""
        self.ctx.evals += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            if g.shape != w.shape:
                if g.size == w.size:
                    g = g.reshape(w.shape)
                else:
                    self.fail(msg + ' (shape %s, expected %s)' % (g.shape, w.shape), key, **details)
                    return False
            inf = np.isinf(w)
            ok = np.where(inf, g == w, np.abs(g - np.where(inf, 0, w)) <= atol + rtol * np.abs(np.where(inf, 0, w)))
            ok = ok & ~np.isnan(g)
        except Stop:
            raise
        except (TypeError, ValueError) as e:
            self.fail(msg + ' (not numeric: %s)' % e, key, got=got, **details)
            return False
        if not np.all(ok):
            i = np.argwhere(~ok)[0] if ok.ndim else ()
            self.fail(msg, key, index=list(map(int, i)), got=g[tuple(i)], want=w[tuple(i)],
                      maxabs=float(np.nanmax(np.abs(np.where(np.isinf(w), 0, g - np.where(np.isinf(w), 0, w))))), **details)
            return False
        return True

    # ---- context manager
    def __enter__(self):
        np.random.seed(self.seed & 0xffffffff)
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.ctx._done(self)
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, GeneratorExit, Stop)):
            return False
        frames = traceback.extract_tb(tb)
        lib = [f for f in frames if 'pyparticleest' in (f.filename or '') and '/verif/' not in (f.filename or '')]
        txt = ''.join(traceback.format_exception(et, ev, tb))[-3000:]
        if lib or issubclass(et, StepBudget):
            f = lib[-1] if lib else frames[-1]
            self.fail('unexpected %s: %s (in %s:%s)' % (et.__name__, str(ev)[:200], os.path.basename(f.filename), f.name),
                      key='exception:%s:%s:%s' % (et.__name__, os.path.basename(f.filename), f.name), traceback=txt)
            self.ctx._done(self)
            return True
        self.ctx.errors.append('case %s: harness error\n%s\n%s' % (self.idx, json.dumps(jsonable(self.desc))[:500], txt))
        if len(self.ctx.errors) >= 3:
            raise Stop()
        return True


class Ctx(object):
    MAXV = 8

    def __init__(self, prop, shard, params, config, seed, tier, only=None, budget=None):
        self.prop, self.shard, self.params, self.config = prop, shard, params, config
        self.seed, self.tier, self.only = seed, tier, only
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.ncases = 0
        self.counts = {}
        self.distinct_keys = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.keys_seen = {}

    def cases(self, n):
        for i in range(n):
            if self.only is not None and i != self.only:
                continue
            if self.only is None and self.budget and i > 0 and time.time() - self.t0 > self.budget:
                self.count('stopped_by_time_budget')
                break
            if len(self.violations) >= self.MAXV:
                break
            seed = zlib.crc32(('%s/%s/%s/%s' % (self.prop, self.shard, self.seed, i)).encode())
            yield Case(self, i, seed)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def distinct(self, *key):
        """A distinct, non-trivial execution was observed."""
        self.distinct_keys.add(zlib.crc32(repr(key).encode()) ^ (hash(len(repr(key))) << 32))

    def _violation(self, case, msg, key, details):
        n = self.keys_seen.get(key, 0)
        self.keys_seen[key] = n + 1
        if n >= 2:
            return
        self.violations.append(dict(key=key, msg=msg, case=case.idx, seed=self.seed, shard=self.shard,
                                    config=self.config, desc=jsonable(case.desc), details=jsonable(details)))
        if len(self.violations) >= self.MAXV:
            raise Stop()

    def _done(self, case):
        self.ncases += 1
        if len(self.samples) < 2 and case.desc:
            self.samples.append(jsonable(case.desc))

    def result(self):
        return dict(shard=self.shard, config=self.config, cases=self.ncases, evals=self.evals, counts=self.counts,
                    distinct=sorted(self.distinct_keys), samples=self.samples, violations=self.violations,
                    errors=self.errors, wall=time.time() - self.t0)


# ------------------------------------------------------------------ statistics
def chi2_p(obs, prob, n=None):
    """p-value of Pearson's chi-square with small cells pooled; cells of zero
    probability must be empty (p = 0 otherwise)."""
    from scipy.stats import chi2
    obs = np.asarray(obs, dtype=float).ravel()
    prob = np.asarray(prob, dtype=float).ravel()
    n = obs.sum() if n is None else n
    if np.any(obs[prob <= 0] > 0):
        return 0.0
    o = np.argsort(prob)
    obs, prob = obs[o], prob[o]
    eo, ee = [], []
    ao = ae = 0.0
    for a, b in zip(obs, prob * n):
        ao += a
        ae += b
        if ae >= 10:
            eo.append(ao)
            ee.append(ae)
            ao = ae = 0.0
    if ae > 0 and ee:
        eo[-1] += ao
        ee[-1] += ae
    if len(ee) < 2:
        return 1.0
    eo, ee = np.array(eo), np.array(ee)
    x = np.sum((eo - ee) ** 2 / ee)
    return float(chi2.sf(x, len(ee) - 1))


P_REJECT = 1e-9


def use_config(config, extdir=None):
    """Select the implementation of the numeric kernels before the library is
    imported."""
    sys.path.insert(0, REPO)
    if config == 'ext':
        import pyparticleest.utils
        pyparticleest.utils.__path__.append(extdir)
    else:
        sys.modules['pyparticleest.utils.ckalman'] = None
        sys.modules['pyparticleest.utils.cmlnlg_compute'] = None
    import pyparticleest
    assert os.path.realpath(pyparticleest.__file__).startswith(REPO), pyparticleest.__file__
    if config == 'ext':
        import pyparticleest.utils.ckalman as k
        import pyparticleest.utils.cmlnlg_compute as m
        assert k.__file__.startswith(extdir) and m.__file__.startswith(extdir), (k.__file__, m.__file__)


def uniform_p(us, bins=20):
    """smallest p-value of a chi-square and a Kolmogorov-Smirnov test of
    uniformity"""
    from scipy.stats import kstest
    us = np.asarray(us)
    o, _ = np.histogram(us, bins=bins, range=(0.0, 1.0))
    p1 = chi2_p(o, np.ones(bins) / bins)
    p2 = kstest(us, 'uniform').pvalue
    return min(p1, p2)


class Pits(object):
    """Randomised probability integral transforms of discrete draws: if index
    `a` was drawn with the probabilities `p`, u is uniform on [0,1].  Indices
    are put in order of decreasing p first, so that draws from other
    distributions cannot hide behind the exchangeability of particles."""

    def __init__(self, rng):
        self.rng = rng
        self.d = {}

    def add(self, label, p, a):
        p = np.asarray(p, dtype=float)
        p = p / p.sum()
        o = np.argsort(-p, kind='stable')
        k = int(np.nonzero(o == a)[0][0])
        cum = p[o][:k].sum()
        if p[o[k]] > 0.999999:
            return      # carries no information
        self.d.setdefault(label, []).append(min(1.0, cum + self.rng.rand() * p[o[k]]))

    def add_u(self, label, u):
        self.d.setdefault(label, []).append(u)

    def judge(self, c, min_n=60):
        for k, us in sorted(self.d.items()):
            if len(us) < min_n:
                continue
            p = uniform_p(us, bins=20 if len(us) >= 400 else 8)
            c.ctx.count('draws_tested', len(us))
            c.check(p > P_REJECT, 'draws do not follow the prescribed probabilities: %s (p=%.3g, n=%d)' % (k, p, len(us)),
                    'distribution:%s' % k, hist=np.histogram(us, bins=10, range=(0, 1))[0])
