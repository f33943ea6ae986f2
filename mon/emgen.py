"""Recording model and driver for the EM type estimators."""
import numpy as np
from .trace import *
from .trace import tv
from pyparticleest.simulator import Simulator

NPAR = 2


class EMModel(TraceModel):
    """tracing model with two parameters; the maximiser is scripted, every call
    is recorded in `ev` with copies of what it received"""

    def __init__(self, p, script, junk=None, budget=10 ** 7):
        super(EMModel, self).__init__(p, budget)
        self.base = (p.a, p.q)
        self.ev = []
        self.script = script
        self.junk = junk
        self.nmax = 0
        self.params = None
        self.fresh = False

    def set_params(self, params):
        self.log = []
        v = np.array(params, dtype=float).ravel()
        self.ev.append(('set', v))
        self.params = v
        self.p.a = self.base[0] * np.cos(v[0])
        self.p.q = self.base[1] * np.exp(0.3 * np.sin(v[1]))
        self.fresh = True

    def propose_smooth(self, *a, **k):
        self.inner = True       # may itself draw from the initial distribution
        try:
            return super(EMModel, self).propose_smooth(*a, **k)
        finally:
            self.inner = False

    inner = False

    def _start(self, N):
        if self.inner:
            return
        # first random operation of a simulation
        if self.fresh:
            self.ev.append(('sim', N, np.random.get_state()))
            self.fresh = False
        else:
            self.ev.append(('resim', N))

    def create_initial_estimate(self, N):
        self._start(N)
        return super(EMModel, self).create_initial_estimate(N)

    def propose_from_y(self, N, y, t):
        if tv(t) == 0:
            self._start(N)
        return super(EMModel, self).propose_from_y(N, y, t)

    def _next(self):
        k = self.nmax
        self.nmax += 1
        if self.junk is not None:
            # optimisers leave arbitrary trial values behind
            self.set_params(self.junk[k % len(self.junk)])
            self.ev[-1] = ('trial',) + self.ev[-1][1:]
        out = self.script[k]
        return np.array(out) if k % 2 else list(out)

    def maximize(self, straj):
        self.ev.append(('max', straj, [s.pa.part.copy() for s in straj.traj]))
        return self._next()

    def maximize_weighted(self, straj, alltrajs, weights):
        self.ev.append(('maxw', straj, [s.pa.part.copy() for s in straj.traj], np.array(alltrajs, copy=True), np.array(weights, dtype=float, copy=True)))
        return self._next()


def make_script(rng, n, p0=None):
    """scripted results of the maximisations; parameters may also stay put"""
    out = rng.uniform(-1, 1, size=(n, NPAR))
    if rng.rand() < 0.35:
        for k in range(n):
            if rng.rand() < 0.5:
                if k or p0 is not None:
                    out[k] = out[k - 1] if k else np.array(p0, dtype=float)
            elif rng.rand() < 0.3 and k:
                out[k, rng.randint(NPAR)] = out[k - 1, 0]
    return out.tolist()


def sched(rng, lo, hi, n, scalar=0.35):
    """schedule of particle numbers and the value meant for every iteration"""
    k = rng.rand()
    if k < scalar:
        v = int(rng.randint(lo, hi))
        return v, [v] * n
    m = int(rng.choice([1, max(1, n - 1), n or 1, n + 2]))
    v = [int(x) for x in rng.randint(lo, hi, size=m)]
    want = [v[min(i, m - 1)] for i in range(n)]
    form = rng.choice(3)
    return (v, tuple(v), np.array(v))[int(form)], want
