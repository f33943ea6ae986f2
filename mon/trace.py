"""Lineage tracing workload: a model whose particles carry unique identities,
an engine driving the public filter interface, and offline oracles over the
recorded steps.

Particle columns: 0 x (state), 1 id, 2 id of parent, 3 number of measurements
absorbed by this particle (mutated in place by measure), 4 time step.
"""
import math
import numpy as np
import pyparticleest.interfaces as interfaces
from pyparticleest.filter import ParticleTrajectory, ParticleApproximation, TrajectoryStep
from .core import StepBudget

X, ID, PAR, NM, TS = range(5)
NCOL = 5
NOPARENT = -1.0


def tv(t):
    """time/input value carried in u and y samples"""
    return float(np.asarray(t).ravel()[0])


class Params(object):
    """Pure functions defining the model; both the model and the oracle use
    them, every one of them depends on the time step / input / measurement so
    that any misalignment changes the numbers."""

    def __init__(self, rng, sharp=1.0, inf_prob=0.0, use_u=True, offset=0.0, lpoffset=0.0):
        self.a = rng.uniform(0.3, 0.95)
        self.om = rng.uniform(0.5, 1.5)
        self.q = rng.uniform(0.5, 1.5)
        self.sharp = sharp
        self.inf_prob = inf_prob
        self.use_u = use_u
        self.offset = offset
        self.lpoffset = lpoffset
        self.k1 = rng.uniform(0.2, 1.0)
        self.k2 = 0.0       # dependence on the state before the last one

    def eff(self, x, xprev):
        """what dynamics and measurements of a model with memory depend on"""
        return x + self.k2 * np.sin(3.0 * xprev)

    def uval(self, u):
        return 0.0 if u is None else float(np.asarray(u).ravel()[1])

    def f(self, x, u, t):
        return self.a * x + math.cos(self.om * tv(t)) + 0.7 * self.uval(u)

    def sig(self, t):
        return self.q * (1.0 + 0.3 * math.sin(1.0 + tv(t)))

    def lp_x(self, x, xn, u, t):
        s = self.sig(t)
        return -0.5 * ((xn - self.f(x, u, t)) / s) ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi) + self.lpoffset

    def lp_max(self, u, t):
        return -math.log(self.sig(t)) - 0.5 * math.log(2 * math.pi) + self.lpoffset

    def ll_y(self, x, y, t):
        yv = float(np.asarray(y).ravel()[1])
        r = -0.5 * self.sharp * (yv - x - 0.1 * tv(t)) ** 2 + self.offset
        if self.inf_prob:
            # a deterministic part of the line has zero likelihood
            frac = np.modf(np.abs(np.asarray(x, dtype=float)) * 7.31)[0]
            r = np.where(frac < self.inf_prob, -np.inf, r)
        return r

    def lp_future(self, xe, x, xn, x2, ut, yt, tt, k):
        """log-density of everything later that depends on the state of step k"""
        r = self.lp_x(xe, xn, ut[k], tt[k])
        if self.k2:
            en = self.eff(xn, x)
            if yt[k + 1] is not None:
                r = r + self.ll_y(en, yt[k + 1], tt[k + 1])
            if x2 is not None:
                r = r + self.lp_x(en, x2, ut[k + 1], tt[k + 1])
        return r

    def l1w(self, x, u, y, t):
        yv = float(np.asarray(y).ravel()[1])
        return -0.5 * self.sharp * self.k1 * (yv - self.f(x, u, t)) ** 2 + 0.01 * tv(t) + self.offset

    # proposal for the SIR filter
    def qmean(self, x, u, y, t):
        yv = float(np.asarray(y).ravel()[1])
        return 0.5 * self.f(x, u, t) + 0.4 * yv

    def lq(self, x, xn, u, y, t):
        s = 1.3 * self.sig(t)
        return -0.5 * ((xn - self.qmean(x, u, y, t)) / s) ** 2 - math.log(s)

    def lp_x0(self, x):
        return -0.5 * x ** 2 + self.lpoffset


class TraceModel(interfaces.ParticleFiltering, interfaces.FFBSiRS, interfaces.AuxiliaryParticleFiltering,
                 interfaces.SampleProposer, interfaces.FFProposeFromMeasure):
    """Complete model; all calls are recorded in self.log as tuples."""

    def __init__(self, params, budget=10 ** 7):
        self.p = params
        self.next_id = 1.0
        self.log = []
        self.ops = 0
        self.budget = budget

    def _op(self, n):
        self.ops += n
        if self.ops > self.budget:
            raise StepBudget('more than %d particle operations' % self.budget)

    def new_ids(self, n):
        r = self.next_id + np.arange(n)
        self.next_id += n
        return r

    def rows(self, x, parents, ts):
        n = len(x)
        out = np.empty((n, NCOL))
        out[:, X] = x
        out[:, ID] = self.new_ids(n)
        out[:, PAR] = parents
        out[:, NM] = 0
        out[:, TS] = ts
        return out

    # ---- filtering
    def create_initial_estimate(self, N):
        self._op(N)
        r = self.rows(np.random.normal(size=N), NOPARENT, 0)
        self.log.append(('init', N, r.copy()))
        return r

    def sample_process_noise(self, particles, u, t):
        n = len(particles)
        self._op(n)
        noise = np.empty((n, 2))
        noise[:, 0] = np.random.normal(size=n) * self.p.sig(t)
        noise[:, 1] = particles[:, ID]
        self.log.append(('noise', u, t, particles.copy(), noise.copy()))
        return noise

    def update(self, particles, u, t, noise):
        self._op(len(particles))
        before = particles.copy()
        particles[:] = self.rows(self.p.f(particles[:, X], u, t) + noise[:, 0], before[:, ID], before[:, TS] + 1)
        self.log.append(('update', u, t, before, noise.copy(), particles.copy()))
        return particles

    def measure(self, particles, y, t):
        self._op(len(particles))
        before = particles.copy()
        ll = np.array(self.p.ll_y(particles[:, X], y, t), dtype=float)
        particles[:, NM] += 1
        self.log.append(('measure', y, t, before, ll.copy()))
        return ll

    # ---- the interfaces for models with memory (only different if p.k2 is set)
    def _eff(self, part, past, pind):
        if past is None or len(past) == 0:
            return part[:, X]
        return self.p.eff(part[:, X], past[-1].pa.part[np.asarray(pind, dtype=int), X])

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        if not self.p.k2:
            return super(TraceModel, self).update_full(particles=particles, traj=traj, uvec=uvec, yvec=yvec, tvec=tvec, ancestors=ancestors, noise=noise)
        self._op(len(particles))
        before = particles.copy()
        x = self._eff(before, traj[:-1], traj[-1].ancestors[ancestors])
        particles[:] = self.rows(self.p.f(x, uvec[-1], tvec[-1]) + noise[:, 0], before[:, ID], before[:, TS] + 1)
        self.log.append(('update', uvec[-1], tvec[-1], before, noise.copy(), particles.copy()))
        return particles

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        if not self.p.k2:
            return super(TraceModel, self).measure_full(particles=particles, traj=traj, uvec=uvec, yvec=yvec, tvec=tvec, ancestors=ancestors)
        self._op(len(particles))
        before = particles.copy()
        ll = np.array(self.p.ll_y(self._eff(before, traj, ancestors), yvec[-1], tvec[-1]), dtype=float)
        particles[:, NM] += 1
        self.log.append(('measure', yvec[-1], tvec[-1], before, ll.copy()))
        return ll

    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        if not self.p.k2:
            return super(TraceModel, self).logp_xnext_singlestep(part=part, past_trajs=past_trajs, pind=pind, future_parts=future_parts, find=find,
                                                                 ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
        self._op(len(part))
        return self.p.lp_x(self._eff(part, past_trajs, pind), future_parts[find][:, X], ut[cur_ind], tt[cur_ind])

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        if not self.p.k2:
            return super(TraceModel, self).logp_xnext_full(part=part, past_trajs=past_trajs, pind=pind, future_trajs=future_trajs, find=find,
                                                           ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
        self._op(len(part))
        xn = future_trajs[0].pa.part[find][:, X]
        x2 = future_trajs[1].pa.part[find][:, X] if len(future_trajs) > 1 else None
        return self.p.lp_future(self._eff(part, past_trajs, pind), part[:, X], xn, x2, ut, yt, tt, cur_ind)

    # ---- smoothing
    def logp_xnext(self, particles, next_part, u, t):
        self._op(max(len(particles), len(next_part)))
        lp = self.p.lp_x(particles[:, X], next_part[:, X], u, t)
        self.log.append(('lpx', u, t, particles.copy(), next_part.copy(), lp.copy()))
        return lp

    def logp_xnext_max(self, particles, u, t):
        self.log.append(('lpmax', u, t, particles.copy()))
        return self.p.lp_max(u, t)

    def eval_1st_stage_weights(self, particles, u, y, t):
        self._op(len(particles))
        w = self.p.l1w(particles[:, X], u, y, t)
        self.log.append(('l1w', u, y, t, particles.copy(), w.copy()))
        return w

    def qsample(self, particles, u, y, t):
        n = len(particles)
        self._op(n)
        xn = self.p.qmean(particles[:, X], u, y, t) + 1.3 * self.p.sig(t) * np.random.normal(size=n)
        r = self.rows(xn, particles[:, ID], particles[:, TS] + 1)
        self.log.append(('qsample', u, y, t, particles.copy(), r.copy()))
        return r

    def logp_q(self, particles, next_part, u, y, t):
        self._op(len(particles))
        lq = self.p.lq(particles[:, X], next_part[:, X], u, y, t)
        self.log.append(('lq', u, y, t, particles.copy(), next_part.copy(), lq.copy()))
        return lq

    def propose_from_y(self, N, y, t):
        self._op(N)
        yv = float(np.asarray(y).ravel()[1])
        r = self.rows(yv + np.random.normal(size=N), NOPARENT, tv(t))
        self.log.append(('propy', N, y, t, r.copy()))
        return r

    def eval_logp_x0(self, particles, t):
        self._op(len(particles))
        self.log.append(('lpx0', t, particles.copy()))
        return self.p.lp_x0(particles[:, X])

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        if ptraj is not None:
            part = np.copy(ptraj[-1].pa.part[anc])
            noise = self.sample_process_noise(part, ut[cur_ind - 1], tt[cur_ind - 1])
            r = self.update(part, ut[cur_ind - 1], tt[cur_ind - 1], noise)
        else:
            r = self.create_initial_estimate(len(find))
        self.log.append(('propsmooth', ptraj is None, cur_ind, r.copy()))
        return r

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        if ptraj is not None:
            r = self.logp_xnext(ptraj[-1].pa.part[anc], prop_part, ut[cur_ind - 1], tt[cur_ind - 1])
        else:
            r = self.eval_logp_x0(prop_part, tt[0])
        self.log.append(('lpprop', ptraj is None, cur_ind, prop_part.copy(), r.copy()))
        return r


class PureSIRModel(interfaces.SIR):
    """Only what the SIR interface documents (no measure_full etc)."""

    def __init__(self, tm):
        self._tm = tm
        for n in ('measure', 'qsample', 'logp_q', 'logp_xnext', 'create_initial_estimate'):
            setattr(self, n, getattr(tm, n))


# ---------------------------------------------------------------- the engine
class Step(object):
    def __init__(self, s):
        self.part = np.array(s.pa.part, copy=True)
        self.w = np.array(s.pa.w, dtype=float, copy=True)
        self.anc = None if s.ancestors is None else np.array(s.ancestors, copy=True)

    def same(self, o):
        return (np.array_equal(self.part, o.part) and np.array_equal(self.w, o.w) and
                ((self.anc is None and o.anc is None) or (self.anc is not None and o.anc is not None and np.array_equal(self.anc, o.anc))))


def cond_traj(rng, T, ids=-1000.0):
    tr = np.empty((T,), dtype=object)
    for t in range(T):
        part = np.zeros((1, NCOL))
        part[0] = [rng.normal(), ids - t, -7, 0, t]
        tr[t] = TrajectoryStep(ParticleApproximation(part), np.zeros(1, dtype=int))
    return tr


def gen_cfg(rng, filt, big=False, memory=False):
    """A hostile random configuration."""
    T = int(rng.choice([1, 2, 3, 4, 6, 9, 14] + ([40] if big else [])))
    if filt in ('cpf', 'cpfas', 'cpfyas', 'csiras'):
        N = int(rng.choice([2, 3, 5, 10, 30]))
    else:
        N = int(rng.choice([1, 2, 3, 5, 10, 30, 100]))
    cfg = dict(filter=filt, T=T, N=N,
               res=float(rng.choice([0.0, 0.2, 0.5, 0.67, 0.95, 1.0, 1.5])),
               sharp=float(rng.choice([0.0, 0.3, 1.0, 20.0, 400.0])),
               inf_prob=float(rng.choice([0.0, 0.0, 0.1])),
               ymiss=float(rng.choice([0.0, 0.0, 0.3, 0.6])),
               use_u=bool(rng.rand() < 0.7), meas_first=bool(rng.rand() < 0.5),
               extra=float(rng.choice([0.0, 0.0, 0.3])),
               prealloc=rng.choice(['none', 'none', 'exact', 'long']).item(),
               offset=float(rng.choice([0.0, 0.0, 0.0, 300.0, -300.0])))
    if filt in ('sir', 'csiras', 'pfy', 'cpfyas'):
        cfg['ymiss'] = 0.0      # these filters need y to propose
        cfg['extra'] = 0.0
    if filt in ('csiras', 'cpfyas', 'cpf', 'cpfas'):
        cfg['extra'] = 0.0
    if filt in ('pfy', 'cpfyas'):
        cfg['meas_first'] = True    # the initial estimate comes from y
        cfg['inf_prob'] = 0.0
    if memory and filt not in ('sir', 'csiras'):
        # models with memory (depending on more than the last state)
        cfg['memory'] = float(rng.choice([0.0, 0.8]))
    return cfg


class Run(object):
    pass


def gen_data(cfg, rng, zeros=True):
    T = cfg['T']
    u = [np.array([100.0 + t, rng.normal()]) if cfg['use_u'] else None for t in range(T)]
    y = [None if rng.rand() < cfg['ymiss'] else np.array([200.0 + t, 2 * rng.normal()]) for t in range(T + 1)]
    # values that are exactly zero are data like any other
    for v in (u, y) if zeros else ():
        for k in np.flatnonzero(rng.rand(len(v)) < 0.05):
            if v[k] is not None:
                v[k] = np.zeros(2)
    return u, y


def drive(cfg, rng, filter_options=None, model=None, on_step=None, tm=None, data=None):
    """Runs the filter of `cfg`, returns a Run with snapshots of every step as
    it was when it became complete and at the end."""
    r = Run()
    if tm is None:
        tm = TraceModel(Params(rng, sharp=cfg['sharp'], inf_prob=cfg['inf_prob'], offset=cfg['offset']), budget=10 ** 6)
    r.p = tm.p
    r.p.k2 = cfg.get('memory', 0.0)
    r.tm = tm
    r.cfg = cfg
    T, N = cfg['T'], cfg['N']
    if model is None:
        model = PureSIRModel(tm) if cfg['filter'] in ('sir', 'csiras') else tm
    r.model = model
    r.u, r.y = data if data is not None else gen_data(cfg, rng)
    r.u_orig = [None if v is None else v.copy() for v in r.u]
    r.y_orig = [None if v is None else v.copy() for v in r.y]
    r.filter_options = filter_options if filter_options is not None else {}
    kw = {}
    if cfg['prealloc'] != 'none':
        kw['T'] = T + 1 if cfg['prealloc'] == 'exact' else T + 5
    r.pt = ParticleTrajectory(model, N, resample=cfg['res'], filter=cfg['filter'], filter_options=r.filter_options, **kw)
    r.flags = []
    r.meas = {}          # step -> list of measurements applied there
    r.steps = []         # snapshot once a step is complete (all its measurements seen)
    r.pre = []           # snapshot right after forward (before extra measurements)

    def snap():
        for k in range(len(r.steps), len(r.pt.traj)):
            r.steps.append(None)
        if len(r.pt.traj):
            r.steps[len(r.pt.traj) - 1] = Step(r.pt.traj[-1])
            if on_step:
                on_step(r)

    # a weight vector of all zeros is not a valid history: the driver gives up
    def dead():
        return len(r.pt.traj) and not np.any(np.isfinite(r.pt.traj[-1].pa.w))

    r.dead = False
    if cfg['meas_first']:
        r.pt.measure(r.y[0])
        r.meas.setdefault(0, []).append(r.y[0])
        snap()
    for t in range(T):
        if dead():
            r.dead = True
            break
        if len(r.pt.traj) and rng.rand() < cfg['extra']:
            y2 = np.array([300.0 + t, rng.normal()])
            r.pt.measure(y2)
            r.meas.setdefault(t, []).append(y2)
            snap()
            if dead():
                r.dead = True
                break
        before = len(r.pt.traj)
        r.flags.append(r.pt.forward(r.u[t], r.y[t + 1]))
        if before == 0:
            # the first step was created inside forward
            r.steps.append(Step(r.pt.traj[0]))
        r.meas.setdefault(t + 1, []).append(r.y[t + 1])
        snap()
    if dead():
        r.dead = True
    r.final = [Step(s) for s in r.pt.traj]
    return r


def norm(w):
    """log-weights up to a common constant"""
    w = np.asarray(w, dtype=float)
    m = np.max(w)
    return w - m if np.isfinite(m) else w


def neff(w):
    e = np.exp(norm(w))
    e = e / e.sum()
    return 1.0 / np.sum(e ** 2)


WTOL = dict(rtol=1e-9, atol=2e-7)


def close_w(c, got, want, msg, **kw):
    """compare log-weights up to a constant; very negative ones only have to
    agree to relative precision"""
    got, want = norm(got), norm(want)
    return c.close(got, want, msg, rtol=1e-8, atol=1e-6, **kw)


def lineage(c, prev, cur, t, exclude_last=False):
    """structural part common to all filters; returns ancestors or None"""
    anc = cur.anc
    n = len(cur.part)
    if not c.check(anc is not None and anc.shape == (n,), 'ancestors missing or of wrong shape at step %d' % t, 'anc-shape'):
        return None
    if not c.check(np.all(anc == np.asarray(anc, dtype=int)) and np.all(anc >= 0) and np.all(anc < len(prev.part)), 'ancestor index out of range', 'anc-range', step=t):
        return None
    anc = np.asarray(anc, dtype=int)
    c.check(cur.part.shape == prev.part.shape and cur.w.shape == (n,), 'number of particles changed', 'npart', step=t)
    c.check(np.all(cur.part[:, TS] == t), 'particle at step %d was not propagated the right number of times' % t, 'tstep', ts=cur.part[:, TS])
    ids = cur.part[:, ID]
    c.check(len(set(ids)) == n, 'two particles of a step share an identity (not propagated individually)', 'dup-id', step=t, ids=ids)
    return anc


def propagation(c, r, prev, cur, t, anc, sel):
    """particles `sel` are the model's propagation of their recorded ancestor
    with noise drawn for exactly that ancestor"""
    p, part, pp = r.p, cur.part[sel], prev.part[anc[sel]]
    c.check(np.array_equal(part[:, PAR], pp[:, ID]), 'recorded ancestor is not the particle that was propagated', 'parent', step=t,
            parents=part[:, PAR], recorded=pp[:, ID])
    f = p.f(xeff(r, t - 1)[anc[sel]], r.u[t - 1], t - 1)
    # find the update event that produced these identities
    want = dict()
    for e in r.tm.log:
        if e[0] == 'update' and len(e[5]) and e[5][0, TS] == t:
            for i, row in enumerate(e[5]):
                want[row[ID]] = e[4][i]
    nz = np.array([want.get(i, [np.nan, np.nan]) for i in part[:, ID]])
    c.close(part[:, X], f + nz[:, 0], 'particle is not f(ancestor, u_t, t) + noise', rtol=1e-9, atol=1e-9, key='propagate', step=t)
    c.check(np.array_equal(nz[:, 1], pp[:, ID]), 'noise was drawn for another particle', 'noise-owner', step=t)


def xeff(r, t):
    """what the dynamics from step t on depend on, for every particle"""
    x = r.steps[t].part[:, X]
    if t == 0 or not r.p.k2:
        return x
    return r.p.eff(x, r.steps[t - 1].part[np.asarray(r.steps[t].anc, dtype=int), X])


def meas_ll(r, t, k0=0):
    """sum of log-likelihoods of the measurements applied at step t (from the
    k0-th one)"""
    ll = np.zeros(len(r.steps[t].part))
    for y in r.meas.get(t, [])[k0:]:
        if y is not None:
            ll = ll + r.p.ll_y(xeff(r, t), y, t)
    return ll


def nmeas(r, t):
    return sum(1 for y in r.meas.get(t, []) if y is not None)
