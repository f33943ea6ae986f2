"""A small discrete hidden Markov model with time and input dependent
transitions: every distribution the algorithms target can be enumerated."""
import itertools
import numpy as np
import pyparticleest.interfaces as interfaces


class HMM(object):
    """Pure description and exact computations.  Step t has input u[t] in
    {0,1}; measurement y[t] in {0..K-1} or None."""

    def __init__(self, rng, T, S=2, K=2, zeros=0.0, ymiss=0.0, flat=0.5, meas_first=True):
        self.T, self.S, self.K = T, S, K           # states at t = 0..T
        self.P0 = self._st(rng, (S,), flat)
        self.P = self._st(rng, (T, 2, S, S), flat)     # P[t,u,x,xn]
        self.G = self._st(rng, (T + 1, S, K), flat)    # G[t,x,y]
        if zeros:
            # forbid some transitions, keeping the cycle x -> x possible
            for t in range(T):
                for u in range(2):
                    for x in range(S):
                        if rng.rand() < zeros and S > 1:
                            z = (x + 1 + rng.randint(S - 1)) % S
                            self.P[t, u, x, z] = 0
            self.P /= self.P.sum(-1, keepdims=True)
        self.u = rng.randint(2, size=T)
        self.y = [None if rng.rand() < ymiss else int(rng.randint(K)) for _ in range(T + 1)]
        self.meas_first = meas_first
        if not meas_first:
            self.y[0] = None

    @staticmethod
    def _st(rng, shape, flat):
        a = rng.uniform(size=shape) + flat
        return a / a.sum(-1, keepdims=True)

    # user visible samples: floats in arrays of shape (1,)
    def usig(self):
        return [np.array([float(v)]) for v in self.u]

    def ysig(self):
        return [None if v is None else np.array([float(v)]) for v in self.y]

    def g(self, t):
        return np.ones(self.S) if self.y[t] is None else self.G[t, :, self.y[t]]

    def p(self, t):
        return self.P[t, self.u[t]]

    def filt(self, flat0=False):
        out = []
        a = (np.ones(self.S) if flat0 else self.P0) * self.g(0)
        out.append(a / a.sum())
        for t in range(self.T):
            a = (out[-1] @ self.p(t)) * self.g(t + 1)
            out.append(a / a.sum())
        return out

    def paths(self):
        return list(itertools.product(range(self.S), repeat=self.T + 1))

    def joint(self, flat0=False):
        pr = []
        for x in self.paths():
            v = (1.0 if flat0 else self.P0[x[0]]) * self.g(0)[x[0]]
            for t in range(self.T):
                v *= self.p(t)[x[t], x[t + 1]] * self.g(t + 1)[x[t + 1]]
            pr.append(v)
        pr = np.array(pr)
        return pr / pr.sum()

    def code(self, xs):
        """index into paths() of integer trajectories of shape (T+1, M)"""
        xs = np.asarray(xs, dtype=int)
        r = np.zeros(xs.shape[1], dtype=int)
        for t in range(self.T + 1):
            r = r * self.S + xs[t]
        return r


def cat(p, rows=None):
    """one draw per row of p"""
    p = np.atleast_2d(p)
    c = np.cumsum(p, axis=1)
    u = np.random.uniform(size=len(p))[:, None] * c[:, -1:]
    return np.minimum((u >= c).sum(1), p.shape[1] - 1)


def ix(a):
    return np.asarray(a, dtype=float).reshape(len(a), -1)[:, 0].astype(int)


def lg(a):
    with np.errstate(divide='ignore'):
        return np.log(a)


class HMMModel(interfaces.ParticleFiltering, interfaces.FFBSiRS, interfaces.AuxiliaryParticleFiltering,
               interfaces.SIR, interfaces.SampleProposer, interfaces.FFProposeFromMeasure):
    """proposal: 'dyn' draws smoothing proposals from the dynamics, 'unif'
    uniformly, 'future' from the dynamics times transition to the future state,
    'meas' from dynamics times likelihood."""

    def __init__(self, h, rng, proposal='dyn', exact=None):
        self.h = h
        self.Q = HMM._st(rng, (h.T, 2, h.S, h.K, h.S), 0.2)
        self.W1 = rng.uniform(0.3, 2.0, size=(h.T, h.S, h.K))
        self.proposal = proposal
        self.exact = exact      # trajectories (T+1, N): filter pretends to have found exactly these
        self.smoothing = False

    def U(self, u):
        return int(np.asarray(u).ravel()[0])

    def T_(self, t):
        return int(round(float(np.asarray(t).ravel()[0])))

    def PT(self, u, t):
        return self.h.P[self.T_(t), self.U(u)]

    def col(self, x):
        return np.asarray(x, dtype=float).reshape(-1, 1)

    def create_initial_estimate(self, N):
        if self.exact is not None and not self.smoothing:
            return self.col(self.exact[0])
        return self.col(cat(np.tile(self.h.P0, (N, 1))))

    def sample_process_noise(self, particles, u, t):
        if self.exact is not None and not self.smoothing:
            return self.exact[self.T_(t) + 1]
        return cat(self.PT(u, t)[ix(particles)])

    def update(self, particles, u, t, noise):
        particles[:, 0] = noise
        return particles

    def measure(self, particles, y, t):
        if self.exact is not None and not self.smoothing:
            return np.zeros(len(particles))
        return lg(self.h.G[self.T_(t), ix(particles), self.U(y)])

    def logp_xnext(self, particles, next_part, u, t):
        return lg(self.PT(u, t)[ix(particles), ix(next_part)])

    def logp_xnext_max(self, particles, u, t):
        return float(np.log(np.max(self.PT(u, t)[ix(particles)])))

    def eval_1st_stage_weights(self, particles, u, y, t):
        return np.log(self.W1[self.T_(t), ix(particles), self.U(y)])

    def qsample(self, particles, u, y, t):
        return self.col(cat(self.Q[self.T_(t), self.U(u), ix(particles), self.U(y)]))

    def logp_q(self, particles, next_part, u, y, t):
        return np.log(self.Q[self.T_(t), self.U(u), ix(particles), self.U(y), ix(next_part)])

    def propose_from_y(self, N, y, t):
        p = self.h.G[self.T_(t), :, self.U(y)]
        return self.col(cat(np.tile(p / p.sum(), (N, 1))))

    def eval_logp_x0(self, particles, t):
        return lg(self.h.P0[ix(particles)])

    # ---- smoothing proposals
    def _qs(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        n = len(find)
        S = self.h.S
        if self.proposal == 'unif':
            return np.ones((n, S)) / S
        if ptraj is not None:
            q = self.PT(ut[cur_ind - 1], tt[cur_ind - 1])[ix(ptraj[-1].pa.part[anc])]
        else:
            q = np.tile(self.h.P0, (n, 1))
        if self.proposal == 'future' and future_trajs is not None:
            q = q * (self.PT(ut[cur_ind], tt[cur_ind])[:, ix(future_trajs[0].pa.part[find])].T + 0.05)
        if self.proposal == 'meas' and yt[cur_ind] is not None:
            q = q * self.h.G[self.T_(tt[cur_ind])][:, self.U(yt[cur_ind])]
        if self.proposal != 'dyn':
            q = q + 0.02
        return q / q.sum(1, keepdims=True)

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        return self.col(cat(self._qs(ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind)))

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        q = self._qs(ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind)
        return lg(q[np.arange(len(q)), ix(prop_part)])


class HMMSIR(interfaces.SIR):
    def __init__(self, m):
        for n in ('measure', 'qsample', 'logp_q', 'logp_xnext', 'create_initial_estimate'):
            setattr(self, n, getattr(m, n))


def run_filter(h, model, N, filt, res=0.67, filter_options=None, prealloc=False):
    from pyparticleest.filter import ParticleTrajectory
    kw = dict(T=h.T + 1) if prealloc else {}
    pt = ParticleTrajectory(model, N, resample=res, filter=filt, filter_options=filter_options or {}, **kw)
    y, u = h.ysig(), h.usig()
    if h.meas_first:
        pt.measure(y[0])
    for t in range(h.T):
        pt.forward(u[t], y[t + 1])
    return pt


def states(traj):
    """(T+1, M) integer states of a smoothed trajectory object"""
    return np.array([ix(s.pa.part) for s in traj])


def cond_steps(path):
    from pyparticleest.filter import ParticleApproximation, TrajectoryStep
    tr = np.empty(len(path), dtype=object)
    for t, x in enumerate(path):
        tr[t] = TrajectoryStep(ParticleApproximation(np.array([[float(x)]])), np.zeros(1, dtype=int))
    return tr
