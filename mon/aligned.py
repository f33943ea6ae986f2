"""Built-in models whose user hooks know which step they are asked about.

Every nonlinear state drifts by STEP per time step, so the step of a particle
can be read off its state; inputs and measurements are looked up by value."""
import numpy as np
from pyparticleest.models.nlg import NonlinearGaussianInitialGaussian
from pyparticleest.models.mlnlg import MixedNLGaussianSampledInitialGaussian, MixedNLGaussianMarginalizedInitialGaussian
from pyparticleest.models.hierarchial import HierarchicalRSBase
from pyparticleest.models.ltv import LTV

STEP = 1000.0


class Log(object):
    """the run's data and what the hooks were asked"""

    def __init__(self, rng, T, tv, ymiss, uval):
        self.T, self.tv = T, np.asarray(tv, dtype=float)
        self.u = [None if not uval else np.array([10.0 + t + rng.rand()]) for t in range(T)]
        self.y = [None if rng.rand() < ymiss else np.array([rng.normal()]) for t in range(T + 1)]
        self.bad, self.n = [], {}

    def bug(self, fn, what, **kw):
        self.bad.append((fn, what, kw))

    def steps(self, fn, x):
        k = np.unique(np.round(np.asarray(x, dtype=float).reshape(len(x), -1)[:, 0] / STEP).astype(int))
        if len(k) != 1:
            self.bug(fn, 'particles of several steps', steps=k.tolist())
        return int(k[0])

    def see(self, fn, t, x=None, u=False, y=False):
        """step k according to the time stamp; state, input and measurement
        have to agree"""
        self.n[fn] = self.n.get(fn, 0) + 1
        if t is None:
            self.bug(fn, 'no time stamp')
            return 0
        k = np.nonzero(np.abs(self.tv - float(np.ravel(t)[0])) < 1e-9)[0]
        if len(k) != 1:
            self.bug(fn, 'unknown time stamp', t=t)
            return 0
        k = int(k[0])
        if x is not None:
            s = self.steps(fn, x)
            if s != k:
                self.bug(fn, 'time stamp is not that of the particles', time=k, particles=s)
        for nm, v, data in (('input', u, self.u), ('measurement', y, self.y)):
            if v is False:
                continue
            want = data[k] if k < len(data) else None
            if (v is None) != (want is None) or v is not None and not np.allclose(np.ravel(v), want):
                self.bug(fn, nm + ' of another step', time=k, got=v, want=want)
        return k


def _k(x):
    return np.round(x[:, :1] / STEP)


def drift(x, u):
    """next nonlinear states without noise"""
    k = _k(x)
    return 0.5 * (x - STEP * k) + STEP * (k + 1) + (0.0 if u is None else 0.01 * float(np.ravel(u)[0]))


class _Next(object):
    def logp_xnext(self, particles, next_part, u, t):
        k = self.log.see('logp_xnext', t, particles, u=u)
        if self.log.steps('logp_xnext', next_part) != k + 1:
            self.log.bug('logp_xnext', 'next states of another step', time=k)
        return super(_Next, self).logp_xnext(particles, next_part, u, t)

    def logp_xnext_max(self, particles, u, t):
        self.log.see('logp_xnext_max', t, particles, u=u)
        return super(_Next, self).logp_xnext_max(particles, u, t)


class Nlg(_Next, NonlinearGaussianInitialGaussian):
    def __init__(self, log, rng):
        self.log = log
        self.dyn = rng.rand(2) < 0.5
        super(Nlg, self).__init__(x0=np.zeros(1), Px0=np.eye(1), Q=np.eye(1), R=np.eye(1))

    def calc_f(self, particles, u, t):
        self.log.see('calc_f', t, particles, u=u)
        return drift(particles, u)

    def calc_Q(self, particles, u, t):
        k = self.log.see('calc_Q', t, particles, u=u)
        return np.tile(np.eye(1) * (1 + 0.1 * (k % 2)), (len(particles), 1, 1)) if self.dyn[0] else None

    def calc_g(self, particles, t):
        self.log.see('calc_g', t, particles)
        return particles - STEP * _k(particles)

    def calc_R(self, particles, t):
        k = self.log.see('calc_R', t, particles)
        return np.tile(np.eye(1) * (1 + 0.1 * (k % 2)), (len(particles), 1, 1)) if self.dyn[1] else None


class _Lin(object):
    def get_lin_pred_dynamics(self, particles, u, t):
        self.log.see('get_lin_pred_dynamics', t, particles, u=u)
        N = len(particles)
        return (np.tile(0.6 * np.eye(1), (N, 1, 1)), np.full((N, 1, 1), 0.1 if u is None else 0.01 * float(np.ravel(u)[0])), None)


class _Mixed(_Lin, _Next):
    def __init__(self, log, rng):
        self.log = log
        super(_Mixed, self).__init__(xi0=np.zeros((1, 1)), z0=np.zeros((1, 1)), Pxi0=np.eye(1), Pz0=np.eye(1), Axi=0.3 * np.eye(1), Qxi=np.eye(1), Qz=np.eye(1),
                                     Qxiz=0.2 * np.eye(1) if rng.rand() < 0.5 else None, R=np.eye(1), C=0.5 * np.eye(1))

    def get_nonlin_pred_dynamics(self, particles, u, t):
        self.log.see('get_nonlin_pred_dynamics', t, particles, u=u)
        return None, drift(particles[:, :1], u)[:, :, np.newaxis], None

    def get_cross_covariance(self, particles, u, t):
        self.log.see('get_cross_covariance', t, particles, u=u)
        return None

    def get_meas_dynamics(self, particles, y, t):
        self.log.see('get_meas_dynamics', t, particles, y=y)
        x = particles[:, :1]
        return (None if y is None else np.asarray(y).reshape(-1, 1)), None, (x - STEP * _k(x))[:, :, np.newaxis], None


class Mixed(_Mixed, MixedNLGaussianSampledInitialGaussian):
    pass


class Marg(_Mixed, MixedNLGaussianMarginalizedInitialGaussian):
    pass


class Hier(_Lin, _Next, HierarchicalRSBase):
    def __init__(self, log, rng):
        self.log = log
        super(Hier, self).__init__(len_xi=1, len_z=1, Qz=np.eye(1), C=np.eye(1), R=np.eye(1))

    def create_initial_estimate(self, N):
        p = np.zeros((N, 3))
        p[:, 0] = np.random.normal(size=N)
        p[:, 2] = 1.0
        return p

    def get_rb_initial(self, xi_initial):
        self.log.see('get_rb_initial', self.log.tv[0], xi_initial)
        N = len(xi_initial)
        return np.zeros((N, 1, 1)), np.ones((N, 1, 1))

    def sample_process_noise(self, particles, u, t):
        self.log.see('sample_process_noise', t, particles, u=u)
        return np.random.normal(size=(len(particles), 1))

    def calc_xi_next(self, particles, u, t, noise):
        self.log.see('calc_xi_next', t, particles, u=u)
        return drift(particles[:, :1], u) + noise

    def logp_xnext_xi(self, particles, next_xi, u, t):
        k = self.log.see('logp_xnext_xi', t, particles, u=u)
        if self.log.steps('logp_xnext_xi', next_xi) != k + 1:
            self.log.bug('logp_xnext_xi', 'next states of another step', time=k)
        return -0.5 * (np.asarray(next_xi)[:, 0] - drift(particles[:, :1], u)[:, 0]) ** 2

    def logp_xnext_xi_max(self, particles, u, t):
        self.log.see('logp_xnext_xi_max', t, particles, u=u)
        return np.zeros(len(particles))

    def measure_nonlin(self, particles, y, t):
        self.log.see('measure_nonlin', t, particles, y=y)
        x = particles[:, :1]
        return -0.5 * (x - STEP * _k(x))[:, 0] ** 2

    def get_lin_meas_dynamics(self, particles, y, t):
        self.log.see('get_lin_meas_dynamics', t, particles, y=y)
        return np.asarray(y).reshape(-1, 1), None, None, None


class Ltv(LTV):
    def __init__(self, log, rng):
        self.log = log
        super(Ltv, self).__init__(z0=np.zeros((1, 1)), P0=np.eye(1), A=np.eye(1), C=np.eye(1), Q=np.eye(1), R=np.eye(1))

    def get_pred_dynamics(self, u, t):
        k = self.log.see('get_pred_dynamics', t, u=u)
        return 0.5 * np.eye(1), np.full((1, 1), 0.1 if u is None else 0.01 * float(np.ravel(u)[0])), (1 + 0.1 * (k % 2)) * np.eye(1)

    def get_meas_dynamics(self, y, t):
        k = self.log.see('get_meas_dynamics', t, y=y)
        return np.asarray(y).reshape(-1, 1), None, None, (1 + 0.1 * (k % 2)) * np.eye(1)


KINDS = dict(
    nlg=(Nlg, ['pf', 'cpf', 'cpfas', 'apf'], ['full', 'rs', 'rsas', 'mcmc', 'ancestor', 'mhips', 'mhbp', 'mhips_reduced']),
    mixed=(Mixed, ['pf'], ['full', 'rs', 'rsas', 'mcmc', 'ancestor', 'mhips', 'mhbp', 'mhips_reduced']),
    marg=(Marg, ['pf'], ['full', 'mcmc', 'ancestor']),
    hier=(Hier, ['pf'], ['full', 'rs', 'rsas', 'mcmc', 'ancestor']),
    ltv=(Ltv, ['pf'], ['full', 'mcmc', 'ancestor']))
