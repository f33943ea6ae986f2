"""Random mixed linear/nonlinear and hierarchical models with dense reference
computations given a nonlinear path."""
import math
import numpy as np
from .core import pick
from pyparticleest.models.mlnlg import MixedNLGaussianSampledInitialGaussian, MixedNLGaussianMarginalizedInitialGaussian
from pyparticleest.models.hierarchial import HierarchicalRSBase
from .dense import *
from .core import bare


def ti(t):
    return int(round(float(np.asarray(t).ravel()[0])))


def uv(u):
    return 0.0 if u is None else float(np.asarray(u).ravel()[0])


class Mix(Fed):
    """xi' = Axi z + fxi + vxi, z' = Az z + fz + vz, y = C z + h + e.  Every
    term is either constant or a function of (xi, u, t)."""
    NAMES = ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'C', 'h', 'R')

    def __init__(self, rng, T, hier=False, lxi=None, lz=None, ly=None, cross=None, noC=None, linear=False, noh=None, allconst=False):
        self.T, self.hier = T, hier
        self.flat = set()       # terms reported per particle although equal for all
        self.lxi = lxi or int(rng.choice([1, 1, 2]))
        self.lz = lz or int(rng.choice([1, 2, 3]))
        self.ly = ly or int(rng.choice([1, 1, 2, 3]))
        n, m, k = self.lxi, self.lz, self.ly
        self.base = dict(Axi=rng.normal(size=(n, m)) * 0.7, fxi=rng.normal(size=(n, 1)) * 0.5, Az=stable(rng, m), fz=rng.normal(size=(m, 1)) * 0.5,
                         C=rng.normal(size=(k, m)), h=rng.normal(size=(k, 1)))
        if hier:
            self.base['Axi'] = np.zeros((n, m))
        self.pert = {a: rng.normal(size=b.shape) * 0.4 for a, b in self.base.items()}
        self.off = {a: rng.uniform(0, 6) for a in self.NAMES}
        Q = spd(rng, n + m, 0.2, 1.2)
        self.cross = cross if cross is not None else rng.choice(['none', 'none', 'const', 'calc']).item()
        if hier:
            self.cross = 'none'
        if self.cross == 'none':
            Q[:n, n:] = 0
            Q[n:, :n] = 0
        self.Q = Q
        self.base['R'] = spd(rng, k, 0.2, 1.0)
        self.noC = bool(rng.rand() < 0.2) if noC is None else noC
        if hier:
            self.noC = False
        self.linear = linear      # no dependence on xi (then everything is jointly Gaussian)
        self.mode = {a: rng.choice(['const', 'calc']).item() for a in self.NAMES}
        if allconst:
            self.mode = {a: 'const' for a in self.NAMES}
        if (rng.rand() < 0.2 if noh is None else noh) and not self.noC:
            self.base['h'] = self.base['h'] * 0     # measurement without offset
            self.mode['h'] = 'none'
        # steps at which a varying term is left out, so that the stored value applies
        self.bare = self.col = bool(rng.rand() < 0.5)
        some = rng.rand() < 0.25
        self.skip = {a: set(t for t in range(T + 1) if some and rng.rand() < 0.5) for a in self.NAMES}
        self.ints = bool(rng.rand() < 0.15)
        if self.ints:
            for a in self.base:
                if a != 'R' and self.mode[a] == 'const':
                    self.base[a] = whole_trans(rng, self.base[a], T) if a == 'Az' else whole(self.base[a], 1 if a == 'Axi' else None)
        self.ctor = bool(rng.rand() < 0.6)
        self.detour = bool(rng.rand() < 0.4)
        self.xi0, self.z0 = rng.normal(size=n), rng.normal(size=m)
        self.Pxi0, self.Pz0 = spd(rng, n), spd(rng, m)
        if self.ints:
            self.xi0, self.z0 = whole(self.xi0), whole(self.z0)
            if rng.rand() < 0.5:
                self.Pxi0, self.Pz0 = whole_cov(rng, n), whole_cov(rng, m)
        self.known = ()         # initial covariances left at their default, zero
        # the initial linear states may depend on the initial nonlinear ones
        self.dep0 = bool(not linear and rng.rand() < 0.3)
        self.w0, self.off0 = rng.normal(size=m), rng.uniform(0, 6)
        if hier:
            self.fW = rng.normal(size=(n, n)) * 0.6
            self.hW = rng.normal(size=n)
        # nonlinear log-densities and bounds that are whole numbers
        self.intlog = bool(hier and rng.rand() < 0.15)
        # terms that are equal for groups of particles
        self.coarse = bool(rng.rand() < 0.25)

    def fix_initial(self, which):
        self.known = which
        for a in which:
            setattr(self, a, np.zeros_like(getattr(self, a)))

    # ----- the specification
    def z0of(self, xi):
        return self.z0 + self.w0 * math.sin(self.off0 + float(np.sum(xi))) if self.dep0 else self.z0

    def P0of(self, xi):
        return self.Pz0 * (1 + 0.5 * math.sin(1 + self.off0 + float(np.sum(xi)))) if self.dep0 else self.Pz0

    def calc(self, name, t):
        return self.mode[name] == 'calc' and t not in self.skip[name]

    def stored(self, name):
        return self.mode[name] == 'const' or (self.mode[name] == 'calc' and bool(self.skip[name]))

    def const(self, name):
        n = self.lxi
        return np.array({'Qxi': self.Q[:n, :n], 'Qz': self.Q[n:, n:]}[name] if name in ('Qxi', 'Qz') else self.base[name])

    def s(self, name, xi, u, t):
        x = 0.0 if self.linear else float(np.sum(xi))
        return math.sin(self.off[name] + (math.floor(x) if self.coarse else x) + 0.7 * t + 0.5 * uv(u))

    trend = {}      # growth of the varying covariances with time

    def grow(self, name, t):
        return math.exp(self.trend[name] * t) if name in self.trend else 1.0

    def get(self, name, xi, u, t):
        xi = np.asarray(xi, dtype=float).ravel()
        if name in ('Qxi', 'Qz', 'Qxiz', 'Qfull'):
            n = self.lxi
            a = self.grow('Qxi', t) * (1.0 + 0.4 * self.s('Qxi', xi, u, t)) if self.calc('Qxi', t) and 'Qxi' not in self.flat else 1.0
            b = self.grow('Qz', t) * (1.0 + 0.4 * self.s('Qz', xi, u, t)) if self.calc('Qz', t) and 'Qz' not in self.flat else 1.0
            Q = self.Q.copy()
            cx = Q[:n, n:].copy()
            Q[:n, :n] *= a * a
            Q[n:, n:] *= b * b
            if self.cross == 'calc':
                g = 0.5 * (1 + 0.9 * self.s('fz', xi, u, t))
                cx = cx * g * min(1.0, a) * min(1.0, b)
            elif self.cross == 'const':
                cx = cx * (0.6 * 0.6)       # stays valid for the smallest scalings
            Q[:n, n:] = cx
            Q[n:, :n] = cx.T
            return {'Qxi': Q[:n, :n], 'Qz': Q[n:, n:], 'Qxiz': cx, 'Qfull': Q}[name]
        v = self.base[name]
        if not self.calc(name, t):
            return v
        if name in self.flat:
            return v.copy()
        if name == 'R':
            return v * (1.0 + 0.4 * self.s(name, xi, u, t)) * self.grow('R', t)
        return v + self.pert[name] * self.s(name, xi, u, t)

    def getC(self, xi, t):
        return np.zeros((self.ly, self.lz)) if self.noC else self.get('C', xi, None, t)

    # nonlinear part of hierarchical models
    def hf(self, xi, u, t):
        x = np.asarray(xi, dtype=float).ravel()
        if self.linear:
            return self.fW @ x + 0.3 * math.cos(t) + 0.5 * uv(u)
        return np.sin(self.fW @ x) + 0.3 * math.cos(t) + 0.5 * uv(u)

    def hll(self, xi, y, t):
        x = np.asarray(xi, dtype=float).ravel()
        v = -0.5 * (float(np.ravel(y)[0]) - math.cos(float(self.hW @ x)) - 0.1 * t) ** 2
        return int(round(v)) if self.intlog else v

    def simulate(self, rng, ymiss=0.0):
        self.u = [rng.normal(size=1) if rng.rand() < 1.0 else None for _ in range(self.T)]
        n = self.lxi
        root = lambda P: np.linalg.cholesky(P) if P.any() else P
        xi = self.xi0 + root(self.Pxi0) @ rng.normal(size=n)
        z = self.z0of(xi) + root(self.P0of(xi)) @ rng.normal(size=self.lz)
        self.y, self.xipath = [], []
        for t in range(self.T + 1):
            self.xipath.append(xi)
            C, h, R = self.getC(xi, t), self.get('h', xi, None, t), self.get('R', xi, None, t)
            y = C @ z + h.ravel() + np.linalg.cholesky(R) @ rng.normal(size=self.ly)
            self.y.append(None if rng.rand() < ymiss else y)
            if t < self.T:
                u = self.u[t]
                v = np.linalg.cholesky(self.get('Qfull', xi, u, t)) @ rng.normal(size=n + self.lz)
                if self.hier:
                    xn = self.hf(xi, u, t) + np.linalg.cholesky(self.Q[:n, :n]) @ rng.normal(size=n)
                else:
                    xn = self.get('Axi', xi, u, t) @ z + self.get('fxi', xi, u, t).ravel() + v[:n]
                z = self.get('Az', xi, u, t) @ z + self.get('fz', xi, u, t).ravel() + v[n:]
                xi = xn
        self.round_y(rng)

    # ----- dense reference
    def joint(self, path, z0=None, P0=None, start=0, upto=None):
        """z_t, xi_t, y_t of steps start.. along the path, jointly Gaussian
        given that each step's coefficients use the path's own states.
        path[k] is the nonlinear state of step start+k."""
        n, m = self.lxi, self.lz
        j = Joint().add('z%d' % start, self.z0of(path[0]) if z0 is None else z0, self.P0of(path[0]) if P0 is None else P0)
        last = self.T if upto is None else upto
        for t in range(start, last + 1):
            xi = path[t - start]
            j.add('y%d' % t, self.get('h', xi, None, t), self.get('R', xi, None, t), [('z%d' % t, self.getC(xi, t))])
            if t < last:
                u = self.u[t]
                j.add('n%d' % t, np.zeros(n + m), self.get('Qfull', xi, u, t))
                Z = np.zeros
                if not self.hier:
                    j.add('xi%d' % (t + 1), self.get('fxi', xi, u, t), Z((n, n)), [('z%d' % t, self.get('Axi', xi, u, t)), ('n%d' % t, np.eye(n, n + m))])
                j.add('z%d' % (t + 1), self.get('fz', xi, u, t), Z((m, m)), [('z%d' % t, self.get('Az', xi, u, t)), ('n%d' % t, np.eye(n + m)[n:])])
        return j

    def obs(self, path, start=0, xi_upto=None, y_from=None, y_upto=None, y=None):
        """observations: nonlinear states start+1..xi_upto, measurements"""
        y = self.y if y is None else y
        xi_upto = self.T if xi_upto is None else xi_upto
        y_upto = xi_upto if y_upto is None else y_upto
        y_from = start if y_from is None else y_from
        o = {}
        if not self.hier:
            for t in range(start + 1, xi_upto + 1):
                o['xi%d' % t] = path[t - start]
        for t in range(y_from, y_upto + 1):
            if y[t] is not None:
                o['y%d' % t] = y[t]
        return o

    def describe(self):
        return dict(dep0=self.dep0, lxi=self.lxi, lz=self.lz, ly=self.ly, cross=self.cross, noC=self.noC, ctor=self.ctor, T=self.T,
                    calc=[a for a in self.NAMES if self.mode[a] == 'calc'], stored={a: sorted(self.skip[a]) for a in self.NAMES if self.mode[a] == 'calc' and self.skip[a]})


def _const_kw(s):
    kw = {}
    z = np.zeros(s.lxi)
    for a in ('Az', 'fz', 'Qz', 'C', 'R'):
        if s.stored(a) and not (a == 'C' and s.noC):
            kw[a] = s.const(a)
    return kw


class _Hooks(object):
    """linear parts shared by the mixed and hierarchical user models"""

    def get_lin_pred_dynamics(self, particles, u, t):
        s = self.s
        self.seen.append(('lin', ti(t), None if u is None else uv(u)))
        r = []
        for a in ('Az', 'fz', 'Qz'):
            r.append(None if not s.calc(a, ti(t)) else np.array([s.get(a, p[:s.lxi], u, ti(t)) for p in particles]))
        return tuple(r)

    def measure(self, particles, y, t):
        r = super(_Hooks, self).measure(particles=particles, y=y, t=t)
        self.lls.append((ti(t), particles[:, :self.s.lxi].copy(), np.array(r, copy=True).ravel()))
        return r


def rng_free(s):
    # leave the argument out, or pass explicit zeros
    return s.ctor


def _start(s, p):
    for r in p:
        r[s.lxi:s.lxi + s.lz] = s.z0of(r[:s.lxi])
        r[s.lxi + s.lz:] = np.ravel(s.P0of(r[:s.lxi]))


def rb_initial(s, xis):
    return np.array([np.reshape(s.z0of(x), (-1, 1)) for x in xis]), np.array([s.P0of(x) for x in xis])


class _MixedBase(_Hooks):
    def __init__(self, s):
        self.s = s
        self.lls, self.seen = [], []
        self.params = np.zeros(1)
        kw = self.consts = _const_kw(s)
        z = np.zeros(s.lxi)
        for a in ('Axi', 'fxi', 'Qxi'):
            if s.stored(a):
                kw[a] = s.const(a)
        if s.cross == 'const':
            kw['Qxiz'] = np.array(s.get('Qxiz', z, None, 0))
        if s.stored('h'):
            kw['h'] = s.base['h'].copy()
        init = dict(xi0=s.xi0.reshape(-1, 1), z0=s.z0.reshape(-1, 1), Pxi0=s.Pxi0, Pz0=s.Pz0)
        for a in s.known:
            if rng_free(s):
                del init[a]
        if s.ctor:
            super(_MixedBase, self).__init__(**dict(init, **kw))
        else:
            super(_MixedBase, self).__init__(**init)
            self.set_dynamics(**kw)
        if not s.dep0:
            bare(self, 'create_initial_estimate', 'get_rb_initial')
        if s.bare:
            one = lambda *names: all(s.mode[a] != 'calc' for a in names)
            bare(self, *[h for h, ok in (('get_nonlin_pred_dynamics', one('Axi', 'fxi', 'Qxi')), ('get_lin_pred_dynamics', one('Az', 'fz', 'Qz')), ('get_cross_covariance', s.cross != 'calc'),
                                         ('get_meas_dynamics', not s.prep and one('h', 'R') and (s.noC or one('C')))) if ok])

    def create_initial_estimate(self, N):
        p = super(_MixedBase, self).create_initial_estimate(N)
        _start(self.s, p)
        return p

    def get_rb_initial(self, xi0):
        return rb_initial(self.s, xi0)

    def get_nonlin_pred_dynamics(self, particles, u, t):
        s = self.s
        self.seen.append(('nonlin', ti(t), None if u is None else uv(u)))
        return tuple(None if not s.calc(a, ti(t)) else np.array([s.get(a, p[:s.lxi], u, ti(t)) for p in particles]) for a in ('Axi', 'fxi', 'Qxi'))

    def get_cross_covariance(self, particles, u, t):
        s = self.s
        if s.cross != 'calc':
            return None
        return np.array([s.get('Qxiz', p[:s.lxi], u, ti(t)) for p in particles])

    def get_meas_dynamics(self, particles, y, t):
        s = self.s
        if y is not None:
            y = s.proc(y)
        C = None if (s.noC or not s.calc('C', ti(t))) else np.array([s.get('C', p[:s.lxi], None, ti(t)) for p in particles])
        h = None if not s.calc('h', ti(t)) else np.array([s.get('h', p[:s.lxi], None, ti(t)) for p in particles])
        R = None if not s.calc('R', ti(t)) else np.array([s.get('R', p[:s.lxi], None, ti(t)) for p in particles])
        return y, C, h, R


class Mixed(_MixedBase, MixedNLGaussianSampledInitialGaussian):
    pass


class Marg(_MixedBase, MixedNLGaussianMarginalizedInitialGaussian):
    pass


class Hier(_Hooks, HierarchicalRSBase):
    def __init__(self, s):
        self.s = s
        self.lls, self.seen = [], []
        self.noises = []
        kw = self.consts = _const_kw(s)
        if s.stored('h'):
            kw['hz'] = s.base['h'].copy()
        super(Hier, self).__init__(len_xi=s.lxi, len_z=s.lz, **kw)
        if s.bare and all(s.mode[a] != 'calc' for a in ('Az', 'fz', 'Qz')):
            bare(self, 'get_lin_pred_dynamics')

    def create_initial_estimate(self, N):
        s = self.s
        p = np.zeros((N, s.lxi + s.lz + s.lz ** 2))
        p[:, :s.lxi] = s.xi0 + (np.linalg.cholesky(s.Pxi0) @ np.random.normal(size=(s.lxi, N))).T
        _start(s, p)
        return p

    def get_rb_initial(self, xi_initial):
        return rb_initial(self.s, xi_initial)

    def cond_sampled_initial(self, part, t):
        xi = part[:, :self.s.lxi]
        r = np.zeros_like(part)
        z, P = self.get_rb_initial(xi)
        self.set_states(r, xi, z, P)
        return r

    def sample_process_noise(self, particles, u, t):
        s = self.s
        return (np.linalg.cholesky(s.Q[:s.lxi, :s.lxi]) @ np.random.normal(size=(s.lxi, len(particles)))).T

    def calc_xi_next(self, particles, u, t, noise):
        s = self.s
        r = np.array([s.hf(p[:s.lxi], u, ti(t)) for p in particles]) + noise
        self.noises.append((ti(t), particles[:, :s.lxi].copy(), r.copy()))
        return r

    def logp_xnext_xi(self, particles, next_xi, u, t):
        s = self.s
        Q = s.Q[:s.lxi, :s.lxi]
        nx = np.broadcast_to(np.asarray(next_xi).reshape(-1, s.lxi), (len(particles), s.lxi))
        f = np.array([s.hf(p[:s.lxi], u, ti(t)) for p in particles])
        d = nx - f
        return -0.5 * (s.lxi * L2PI + np.linalg.slogdet(Q)[1] + np.sum(d * np.linalg.solve(Q, d.T).T, axis=1))

    def logp_xnext_xi_max(self, particles, u, t):
        s = self.s
        top = -0.5 * (s.lxi * L2PI + np.linalg.slogdet(s.Q[:s.lxi, :s.lxi])[1])
        self.loose = int(math.ceil(top)) - top if s.intlog else 0.0
        return np.full(len(particles), int(math.ceil(top)) if s.intlog else top)

    def measure_nonlin(self, particles, y, t):
        s = self.s
        return np.array([s.hll(p[:s.lxi], s.proc(y), ti(t)) for p in particles])

    def get_lin_meas_dynamics(self, particles, y, t):
        s = self.s
        return (s.proc(y),) + tuple(
            None if not s.calc(a, ti(t)) else np.array([s.get(a, p[:s.lxi], None, ti(t)) for p in particles]) for a in ('C', 'h', 'R'))

    def eval_1st_stage_weights(self, particles, u, y, t):
        return np.zeros(len(particles))

    # proposals for the Metropolis-Hastings smoothers
    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        if ptraj is not None:
            p = np.copy(ptraj[-1].pa.part[anc])
            return self.update(p, ut[cur_ind - 1], tt[cur_ind - 1], self.sample_process_noise(p, ut[cur_ind - 1], tt[cur_ind - 1]))
        return self.create_initial_estimate(len(find))

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        if ptraj is not None:
            return self.logp_xnext_xi(ptraj[-1].pa.part[anc], prop_part[:, :self.s.lxi], ut[cur_ind - 1], tt[cur_ind - 1])
        return self.eval_logp_x0(prop_part, tt[0])

    def eval_logp_x0(self, particles, t):
        s = self.s
        d = particles[:, :s.lxi] - s.xi0
        return -0.5 * np.sum(d * np.linalg.solve(s.Pxi0, d.T).T, axis=1)


def detour(s, m, N):
    """use the model with other constant matrices, then put the right ones back"""
    if not m.consts:
        return
    st = np.random.get_state()
    m.set_dynamics(**{k: v * (1.7 if k in ('Qxi', 'Qz', 'R') else 0.5) for k, v in m.consts.items()})
    p = m.create_initial_estimate(N)
    if s.y[0] is not None:
        m.measure(p, s.feed(0), 0)
    if s.T:
        q = np.copy(p)
        m.update(q, s.u[0], 0, m.sample_process_noise(q, s.u[0], 0))
        m.logp_xnext(p, q[:, :s.lxi + s.lz], s.u[0], 0)
        if s.y[1] is not None:
            m.measure(q, s.feed(1), 1)
    m.set_dynamics(**{k: np.copy(v) for k, v in m.consts.items()})
    for a in ('lls', 'seen', 'noises'):
        if hasattr(m, a):
            del getattr(m, a)[:]
    np.random.set_state(st)


def run_mix(s, model, N, mf, pre=0, res=0.67, filt='pf', filter_options=None):
    from pyparticleest.filter import ParticleTrajectory
    if s.detour and hasattr(model, 'consts'):
        detour(s, model, N)
    kw = dict(T=s.T + 1 + (3 if pre > 1 else 0)) if pre else {}
    pt = ParticleTrajectory(model, N, resample=res, filter=filt, filter_options=filter_options or {}, **kw)
    if mf:
        pt.measure(s.feed(0))
    for t in range(s.T):
        pt.forward(s.u[t], s.feed(t + 1))
    return pt


def paths_of(pt, lxi):
    """list over steps of (N, t+1, lxi) nonlinear paths by genealogy"""
    out = []
    cur = pt[0].pa.part[:, None, :lxi].copy()
    out.append(cur)
    for t in range(1, len(pt)):
        a = np.asarray(pt[t].ancestors, dtype=int)
        cur = np.concatenate([cur[a], pt[t].pa.part[:, None, :lxi]], axis=1)
        out.append(cur)
    return out


def setup(c, hier=False, **kw):
    rng = c.rng
    T = kw.pop('T', None)
    T = pick(rng, [0, 1, 2, 3, 5], [11, 18]) if T is None else T
    s = Mix(rng, T, hier=hier, **kw)
    s.prep = bool(rng.rand() < 0.3)
    s.simulate(rng, ymiss=float(rng.choice([0, 0, 0.35])))
    mf = bool(rng.rand() < 0.5) or T == 0
    if not mf:
        s.y[0] = None
    pre = int(rng.choice([0, 0, 1, 2]))
    c.note(hier=hier, meas_first=mf, prealloc=pre, missing=[t for t in range(T + 1) if s.y[t] is None], **s.describe())
    return s, mf, pre


def split(s, row):
    n, m = s.lxi, s.lz
    return row[:n], row[n:n + m], row[n + m:n + m + m * m].reshape(m, m)
