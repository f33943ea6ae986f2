"""Random linear (time-varying) systems for the LTV model."""
import numpy as np
from pyparticleest.models.ltv import LTV
from .dense import *
from .core import bare


class System(Fed):
    """Matrices of every step, sizes fixed."""

    def __init__(self, rng, T, tv=True, lz=None, ly=None, offsets=True, inputs=True, vardim=False, partial=False):
        self.T, self.tv = T, tv
        self.lz = lz = lz or int(rng.choice([1, 2, 3, 4]))
        self.ly = ly = ly or int(rng.choice([1, 2, 3]))
        self.offsets = offsets
        n = T + 1 if tv else 1
        self.A = [stable(rng, lz) for _ in range(n)]
        self.f = [rng.normal(size=(lz, 1)) if offsets else np.zeros((lz, 1)) for _ in range(n)]
        self.Q = [spd(rng, lz) for _ in range(n)]
        self.lys = [int(rng.randint(1, 4)) if vardim and tv else ly for _ in range(n)]
        self.C = [rng.normal(size=(k, lz)) for k in self.lys]
        self.h = [rng.normal(size=(k, 1)) if offsets else np.zeros((k, 1)) for k in self.lys]
        self.R = [spd(rng, k) for k in self.lys]
        self.B = rng.normal(size=(lz, 1)) if inputs else None
        self.z0, self.P0 = rng.normal(size=(lz, 1)), spd(rng, lz)
        self.ints = bool(rng.rand() < 0.15)
        if self.ints:
            self.A = [whole_trans(rng, X, T) for X in self.A]
            self.f, self.C, self.h = ([whole(X) for X in L] for L in (self.f, self.C, self.h))
            self.z0 = whole(self.z0)
            if rng.rand() < 0.5:
                self.P0, self.Q, self.R = whole_cov(rng, lz), [whole_cov(rng, lz) for _ in self.Q], [whole_cov(rng, k) for k in self.lys]
        self.bare = self.col = bool(rng.rand() < 0.5)
        self.detour = bool(rng.rand() < 0.4)
        # some matrices of some steps are those given to the constructor
        self.partial = partial and tv and not vardim
        if self.partial:
            self.B = None
            self.given = {}
            for a in 'AfQChR':
                L = getattr(self, a)
                d = L[0].copy()
                k = rng.choice([0.0, 0.3, 0.7, 1.0])
                self.given[a] = [rng.rand() < k for _ in L]
                for t in range(n):
                    if not self.given[a][t]:
                        L[t] = d
                self.default = dict(getattr(self, 'default', {}), **{a: d})
            if not offsets:
                self.given['f'] = self.given['h'] = [False] * n

    def at(self, L, t):
        return L[t if self.tv else 0]

    def simulate(self, rng, ymiss=0.0):
        z = self.z0 + np.linalg.cholesky(self.P0) @ rng.normal(size=(self.lz, 1))
        self.u = [rng.normal(size=1) if self.B is not None else None for _ in range(self.T)]
        ys = []
        for t in range(self.T + 1):
            k = self.lys[t if self.tv else 0]
            y = self.at(self.C, t) @ z + self.at(self.h, t) + np.linalg.cholesky(self.at(self.R, t)) @ rng.normal(size=(k, 1))
            ys.append(None if rng.rand() < ymiss else y.ravel())
            if t < self.T:
                z = self.at(self.A, t) @ z + self.foff(t) + np.linalg.cholesky(self.at(self.Q, t)) @ rng.normal(size=(self.lz, 1))
        self.y = ys
        self.round_y(rng)

    def foff(self, t):
        f = self.at(self.f, t)
        if self.B is not None:
            f = f + self.B * self.u[t][0]
        return f

    def joint(self, upto=None):
        j = Joint().add('z0', self.z0, self.P0)
        T = self.T if upto is None else upto
        for t in range(T + 1):
            if t:
                j.add('z%d' % t, self.foff(t - 1), self.at(self.Q, t - 1), [('z%d' % (t - 1), self.at(self.A, t - 1))])
            j.add('y%d' % t, self.at(self.h, t), self.at(self.R, t), [('z%d' % t, self.at(self.C, t))])
        return j


class LTVModel(LTV):
    """matrices either given to the constructor or returned per step"""

    def __init__(self, s, dynamic, ymode='col'):
        self.s, self.dynamic = s, dynamic
        self.lls = []
        self.params = np.zeros(1)
        if s.partial:
            kw = {k: v for k, v in s.default.items() if s.offsets or k not in 'fh'}
            super(LTVModel, self).__init__(z0=s.z0, P0=s.P0, **kw)
        elif dynamic:
            super(LTVModel, self).__init__(z0=s.z0, P0=s.P0)
        else:
            kw = {}
            if s.offsets:
                kw = dict(f=s.f[0], h=s.h[0])
            super(LTVModel, self).__init__(z0=s.z0, P0=s.P0, A=s.A[0], C=s.C[0], Q=s.Q[0], R=s.R[0], **kw)
        given = s.default if s.partial else {} if dynamic else dict(A=s.A[0], C=s.C[0], Q=s.Q[0], R=s.R[0], f=s.f[0], h=s.h[0])
        self.consts = {dict(f='f_k', h='h_k').get(k, k): np.array(v) for k, v in given.items() if s.offsets or k not in 'fh'}
        if not (s.partial or dynamic) and s.bare:
            bare(self, *(['get_pred_dynamics'] if s.B is None else []) + ([] if s.prep else ['get_meas_dynamics']))

    def set_params(self, params):
        self.params = params

    def some(self, names, t):
        t = int(round(float(t)))
        return tuple(getattr(self.s, a)[t].copy() if self.s.given[a][t] else None for a in names)

    def get_pred_dynamics(self, u, t):
        s = self.s
        if s.partial:
            return self.some('AfQ', t)
        if self.dynamic:
            t = int(round(float(t)))
            f = s.at(s.f, t)
            if s.B is not None:
                f = f + s.B * float(np.ravel(u)[0])
            return s.at(s.A, t), f, s.at(s.Q, t)
        if s.B is not None:
            return None, s.f[0] + s.B * float(np.ravel(u)[0]), None
        return None, None, None

    def get_meas_dynamics(self, y, t):
        s = self.s
        y = s.proc(y)
        if s.partial:
            return (y,) + self.some('ChR', t)
        if self.dynamic:
            t = int(round(float(t)))
            return y, s.at(s.C, t), s.at(s.h, t), s.at(s.R, t)
        return y, None, None, None

    def measure(self, particles, y, t):
        r = super(LTVModel, self).measure(particles=particles, y=y, t=t)
        self.lls.append((int(round(float(t))), np.array(r, copy=True)))
        return r


def detour(s, m):
    """use the model with other constant matrices, then put the right ones back"""
    if not m.consts:
        return
    st = np.random.get_state()
    m.kf.set_dynamics(**{k: v * (1.7 if k in ('Q', 'R') else 0.5) for k, v in m.consts.items()})
    p = m.create_initial_estimate(1)
    if s.y[0] is not None:
        m.measure(p, s.feed(0), 0)
    if s.T:
        m.update(p, s.u[0], 0, m.sample_process_noise(p, s.u[0], 0))
        if s.y[1] is not None:
            m.measure(p, s.feed(1), 1)
    m.kf.set_dynamics(**{k: np.copy(v) for k, v in m.consts.items()})
    del m.lls[:]
    np.random.set_state(st)


def run_sys(s, model, N, meas_first, prealloc=False, res=0.67, filt='pf'):
    from pyparticleest.filter import ParticleTrajectory
    if s.detour and hasattr(model, 'consts'):
        detour(s, model)
    kw = dict(T=s.T + 1 + int(prealloc > 1) * 3) if prealloc else {}
    pt = ParticleTrajectory(model, N, resample=res, filter=filt, **kw)
    if meas_first:
        pt.measure(s.feed(0))
    for t in range(s.T):
        pt.forward(s.u[t], s.feed(t + 1))
    return pt
