"""Every call into the model refers to the right step: online monitor on all
model entry points, the samples carry their own step number."""
import numpy as np
from ..core import pick
from ..trace import *


def tag(v):
    """step number carried by an input or measurement"""
    return int(np.asarray(v).ravel()[0]) % 100


class AlignModel(TraceModel):
    """parents: verify the index arrays against the parents recorded in the
    particles (not meaningful where particles are proposed without parent)."""

    def __init__(self, params, budget=10 ** 6):
        super(AlignModel, self).__init__(params, budget=budget)
        self.bad = []
        self.T = None           # set once filtering is complete
        self.last = None        # last step, where it is not known when filtering ends
        self.u = self.y = None
        self.parents = True
        self.ncalls = {}
        self.missing = set()

    def bug(self, fn, what, **kw):
        self.bad.append((fn, what, kw))

    def seen(self, fn):
        self.ncalls[fn] = self.ncalls.get(fn, 0) + 1

    def ck_u(self, fn, u, t):
        if self.p.use_u:
            if u is None or tag(u) != t or not np.array_equal(u, self.u[t]):
                self.bug(fn, 'input of another step', want=t, got=u)
        elif u is not None:
            self.bug(fn, 'input although there is none', got=u)

    def ck_y(self, fn, y, t):
        if y is None:
            self.bug(fn, 'evaluated for a missing measurement', want=t)
        elif tag(y) != t or int(np.ravel(y)[0]) // 100 not in (2, 3):
            self.bug(fn, 'measurement of another step', want=t, got=y)

    def ck_t(self, fn, t, want):
        if tv(t) != want:
            self.bug(fn, 'time of another step', want=want, got=tv(t))

    def step(self, fn, part, what='particles'):
        ts = np.unique(np.asarray(part)[:, TS])
        if len(ts) != 1:
            self.bug(fn, '%s of different steps mixed' % what, ts=ts)
        return int(ts[0])

    def hist(self, fn, past, pind, part, t, parents=True):
        """past trajectory: steps 0..t-1; index array: parents of the particles"""
        n = 0 if past is None else len(past)
        if n != t:
            self.bug(fn, 'past trajectory has wrong length', want=t, got=n)
            return
        if n == 0:
            return
        for k in (0, n - 1):
            if np.any(past[k].pa.part[:, TS] != k):
                self.bug(fn, 'past trajectory is of another step', want=k, got=past[k].pa.part[:, TS])
        if pind is None or len(pind) != len(part):
            self.bug(fn, 'index array of wrong length', want=len(part), got=None if pind is None else len(pind))
            return
        if self.parents and parents:
            par = np.asarray(part)[:, PAR]
            own = past[-1].pa.part[np.asarray(pind, dtype=int), ID]
            if np.any((par >= 0) & (par != own)):
                self.bug(fn, 'index array does not point to the ancestors of the particles', step=t, parents=par, indexed=own)

    def fut(self, fn, ft, find, n, t):
        if ft is None:
            if self.T is not None and t != self.T:
                self.bug(fn, 'no future trajectory', step=t)
            return
        if self.T is not None and len(ft) != self.T - t:
            self.bug(fn, 'future trajectory has wrong length', step=t, got=len(ft), want=self.T - t)
        for k in (0, len(ft) - 1):
            if np.any(ft[k].pa.part[:, TS] != t + 1 + k):
                self.bug(fn, 'future trajectory is of another step', want=t + 1 + k, got=ft[k].pa.part[:, TS])
        if find is None or len(find) != n:
            self.bug(fn, 'future index of wrong length', step=t)

    def vecs(self, fn, ut, yt, tt, t):
        self.ck_t(fn, tt[t], t)
        if (self.T is None or t < self.T) and t != self.last:
            self.ck_u(fn, ut[t], t)
        if yt is not None and yt[t] is not None and tag(yt[t]) != t:
            self.bug(fn, 'measurement history of another step', want=t, got=yt[t])
        if yt is not None and yt[t] is None and self.y[t] is not None and t not in self.missing:
            self.bug(fn, 'measurement history lost a measurement', want=t)

    # ---- interfaces seen by models depending on the whole history
    def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
        fn = 'sample_process_noise_full'
        self.seen(fn)
        t = self.step(fn, ptraj[-1].pa.part, 'ptraj[-1]')
        if len(ptraj) != t + 1:
            self.bug(fn, 'past trajectory has wrong length', want=t + 1, got=len(ptraj))
        self.ck_t(fn, tt[-1], t)
        self.ck_u(fn, ut[-1], t)
        if len(ut) != t + 1 or len(tt) != t + 1:
            self.bug(fn, 'history has wrong length', want=t + 1, got=(len(ut), len(tt)))
        return super(AlignModel, self).sample_process_noise_full(ptraj=ptraj, ancestors=ancestors, ut=ut, tt=tt)

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        fn = 'update_full'
        self.seen(fn)
        t = self.step(fn, particles)
        if len(traj) != t + 1 or self.step(fn, traj[-1].pa.part, 'traj[-1]') != t:
            self.bug(fn, 'past trajectory is of another step', want=t, got=len(traj) - 1)
        elif not np.array_equal(traj[-1].pa.part[np.asarray(ancestors, dtype=int), ID], particles[:, ID]):
            self.bug(fn, 'ancestors are not those of the particles', step=t)
        if not (len(uvec) == len(yvec) == len(tvec) == t + 1):
            self.bug(fn, 'history has wrong length', want=t + 1, got=(len(uvec), len(yvec), len(tvec)))
        else:
            self.vecs(fn, uvec, yvec, tvec, t)
        return super(AlignModel, self).update_full(particles=particles, traj=traj, uvec=uvec, yvec=yvec, tvec=tvec, ancestors=ancestors, noise=noise)

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        fn = 'measure_full'
        self.seen(fn)
        t = self.step(fn, particles)
        self.ck_t(fn, tvec[-1], t)
        self.ck_y(fn, yvec[-1], t)
        if len(yvec) != t + 1 or len(tvec) != t + 1:
            self.bug(fn, 'history has wrong length', want=t + 1, got=(len(yvec), len(tvec)))
        if uvec is not None:
            if len(uvec) > t + 1:
                self.bug(fn, 'inputs of later steps', step=t, got=len(uvec))
            # while filtering the input of the current step is not known yet
            for k in range(min(len(uvec), t if self.T is None or t >= self.T else t + 1)):
                self.ck_u(fn, uvec[k], k)
        self.hist(fn, traj, ancestors, particles, t)
        return super(AlignModel, self).measure_full(particles=particles, traj=traj, uvec=uvec, yvec=yvec, tvec=tvec, ancestors=ancestors)

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        fn = 'logp_xnext_full'
        self.seen(fn)
        t = self.step(fn, part)
        if cur_ind != t:
            self.bug(fn, 'cur_ind is not the step of the particles', want=t, got=cur_ind)
        else:
            self.vecs(fn, ut, yt, tt, t)
            self.hist(fn, past_trajs, pind, part, t)
            self.fut(fn, future_trajs, find, len(part), t)
        return super(AlignModel, self).logp_xnext_full(part=part, past_trajs=past_trajs, pind=pind, future_trajs=future_trajs, find=find,
                                                       ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)

    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        fn = 'logp_xnext_singlestep'
        self.seen(fn)
        t = self.step(fn, part)
        if cur_ind != t:
            self.bug(fn, 'cur_ind is not the step of the particles', want=t, got=cur_ind)
        else:
            self.vecs(fn, ut, yt, tt, t)
            self.hist(fn, past_trajs, pind, part, t)
            if self.step(fn, future_parts, 'future particles') != t + 1:
                self.bug(fn, 'future particles of another step', want=t + 1)
            if len(find) != len(part):
                self.bug(fn, 'future index of wrong length', want=len(part), got=len(find))
        return super(AlignModel, self).logp_xnext_singlestep(part=part, past_trajs=past_trajs, pind=pind, future_parts=future_parts, find=find,
                                                             ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)

    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        fn = 'logp_xnext_max_full'
        self.seen(fn)
        t = self.step(fn, part)
        if cur_ind != t:
            self.bug(fn, 'cur_ind is not the step of the particles', want=t, got=cur_ind)
        else:
            self.vecs(fn, uvec, yvec, tvec, t)
            self.hist(fn, past_trajs, pind, part, t)
        return super(AlignModel, self).logp_xnext_max_full(part=part, past_trajs=past_trajs, pind=pind, uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind)

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        fn = 'sample_smooth'
        self.seen(fn)
        t = self.step(fn, part)
        if cur_ind != t:
            self.bug(fn, 'cur_ind is not the step of the particles', want=t, got=cur_ind)
        else:
            self.vecs(fn, ut, yt, tt, t)
            self.hist(fn, ptraj, anc, part, t)
            if future_trajs is not None:
                self.fut(fn, future_trajs, find, len(part), t)
        return super(AlignModel, self).sample_smooth(part=part, ptraj=ptraj, anc=anc, future_trajs=future_trajs, find=find, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)

    def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        fn = 'cond_predict_single_step'
        self.seen(fn)
        t = self.step(fn, part)
        if cur_ind != t:
            self.bug(fn, 'cur_ind is not the step of the particles', want=t, got=cur_ind)
        else:
            self.vecs(fn, ut, yt, tt, t)
            self.hist(fn, past_trajs, pind, part, t)
            if self.step(fn, future_parts, 'future particles') != t + 1:
                self.bug(fn, 'future particles of another step', want=t + 1)
            elif self.parents:
                fp = future_parts[np.asarray(find, dtype=int)]
                if np.any((fp[:, PAR] >= 0) & (fp[:, PAR] != part[:, ID])):
                    self.bug(fn, 'particles are not the ancestors of the future ones', step=t)
        return super(AlignModel, self).cond_predict_single_step(part=part, past_trajs=past_trajs, pind=pind, future_parts=future_parts, find=find,
                                                                ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)

    def cond_sampled_initial(self, part, t):
        fn = 'cond_sampled_initial'
        self.seen(fn)
        self.ck_t(fn, t, 0)
        if self.step(fn, part) != 0:
            self.bug(fn, 'particles of another step')
        return super(AlignModel, self).cond_sampled_initial(part, t)

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        fn = 'propose_smooth'
        self.seen(fn)
        t = 0 if ptraj is None else len(ptraj)
        if cur_ind != t or (ptraj is not None and self.step(fn, ptraj[-1].pa.part) != t - 1):
            self.bug(fn, 'past trajectory is of another step', cur_ind=cur_ind, got=t)
        else:
            self.vecs(fn, ut, yt, tt, t)
            self.fut(fn, future_trajs, find, len(find), t)
        return super(AlignModel, self).propose_smooth(ptraj=ptraj, anc=anc, future_trajs=future_trajs, find=find, yt=yt, ut=ut, tt=tt, cur_ind=cur_ind)

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        fn = 'logp_proposal'
        self.seen(fn)
        t = self.step(fn, prop_part)
        if cur_ind != t:
            self.bug(fn, 'cur_ind is not the step of the particles', want=t, got=cur_ind)
        else:
            self.vecs(fn, ut, yt, tt, t)
            if t > 0:
                self.hist(fn, ptraj, anc, prop_part, t)
            elif ptraj is not None:
                self.bug(fn, 'past trajectory at the initial step')
            self.fut(fn, future_trajs, find, len(prop_part), t)
        return super(AlignModel, self).logp_proposal(prop_part=prop_part, ptraj=ptraj, anc=anc, future_trajs=future_trajs, find=find, yt=yt, ut=ut, tt=tt, cur_ind=cur_ind)

    # ---- interfaces seen by Markov models
    def sample_process_noise(self, particles, u, t):
        fn = 'sample_process_noise'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        return super(AlignModel, self).sample_process_noise(particles=particles, u=u, t=t)

    def update(self, particles, u, t, noise):
        fn = 'update'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        return super(AlignModel, self).update(particles=particles, u=u, t=t, noise=noise)

    def measure(self, particles, y, t):
        fn = 'measure'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_y(fn, y, k)
        return super(AlignModel, self).measure(particles=particles, y=y, t=t)

    def logp_xnext(self, particles, next_part, u, t):
        fn = 'logp_xnext'
        self.seen(fn)
        k = self.step(fn, particles)
        if self.step(fn, next_part, 'next particles') != k + 1:
            self.bug(fn, 'next particles of another step', want=k + 1)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        return super(AlignModel, self).logp_xnext(particles=particles, next_part=next_part, u=u, t=t)

    def logp_xnext_max(self, particles, u, t):
        fn = 'logp_xnext_max'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        return super(AlignModel, self).logp_xnext_max(particles=particles, u=u, t=t)

    def eval_1st_stage_weights(self, particles, u, y, t):
        fn = 'eval_1st_stage_weights'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        self.ck_y(fn, y, k + 1)
        return super(AlignModel, self).eval_1st_stage_weights(particles=particles, u=u, y=y, t=t)

    def qsample(self, particles, u, y, t):
        fn = 'qsample'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        self.ck_y(fn, y, k + 1)
        return super(AlignModel, self).qsample(particles=particles, u=u, y=y, t=t)

    def logp_q(self, particles, next_part, u, y, t):
        fn = 'logp_q'
        self.seen(fn)
        k = self.step(fn, particles)
        self.ck_t(fn, t, k)
        self.ck_u(fn, u, k)
        self.ck_y(fn, y, k + 1)
        if self.step(fn, next_part, 'next particles') != k + 1:
            self.bug(fn, 'next particles of another step', want=k + 1)
        return super(AlignModel, self).logp_q(particles=particles, next_part=next_part, u=u, y=y, t=t)

    def propose_from_y(self, N, y, t):
        fn = 'propose_from_y'
        self.seen(fn)
        self.ck_y(fn, y, int(tv(t)))
        if len(self.y) <= int(tv(t)) or y is not None and not np.array_equal(y, self.y[int(tv(t))]):
            self.bug(fn, 'measurement of another step', t=t, y=y)
        return super(AlignModel, self).propose_from_y(N=N, y=y, t=t)

    def eval_logp_x0(self, particles, t):
        fn = 'eval_logp_x0'
        self.seen(fn)
        self.ck_t(fn, t, 0)
        if self.step(fn, particles) != 0:
            self.bug(fn, 'particles of another step')
        return super(AlignModel, self).eval_logp_x0(particles=particles, t=t)


BSI = ['full', 'rs', 'rsas', 'mcmc']
FILTERS = ['pf', 'apf', 'pf', 'cpf', 'cpfas', 'sir', 'csiras', 'pfy', 'cpfyas']


def run_main(ctx, n=300):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = FILTERS[c.idx % len(FILTERS)]
            cfg = gen_cfg(rng, filt)
            cfg['inf_prob'] = 0.0
            cfg['sharp'] = float(rng.choice([0.0, 0.3, 1.0, 20.0]))
            c.note(**cfg)
            fo = {'cond_traj': cond_traj(rng, cfg['T'] + 1)} if filt[0] == 'c' else {}
            m = AlignModel(Params(rng, sharp=cfg['sharp'], use_u=cfg['use_u'], offset=cfg['offset']))
            m.parents = filt not in ('pfy', 'cpfyas')
            m.u, m.y = data = gen_data(cfg, rng, zeros=False)
            if not cfg['meas_first']:
                m.missing.add(0)
            r = drive(cfg, rng, fo, model=m, tm=m, data=data)

            def report(phase):
                for fn, what, kw in m.bad[:3]:
                    c.fail('%s: %s (during %s)' % (fn, what, phase), 'align:%s:%s' % (fn, what), **kw)
                c.ctx.evals += sum(m.ncalls.values())
                for k, v in m.ncalls.items():
                    ctx.count('call:' + k, v)
                    ctx.count('calls', v)
                m.bad, m.ncalls = [], {}
            report('filter ' + filt)
            if any(np.any(np.isnan(s.w)) for s in r.final):
                continue
            m.T = len(r.final) - 1
            M = pick(rng, [1, 3, 8], [40])
            meths = ['ancestor'] + BSI + ['mhips', 'mhips_reduced', 'mhbp']
            for meth in [meths[i] for i in rng.permutation(len(meths))[:3]]:
                opt = {'R': int(rng.choice([1, 2, 4]))} if meth in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp', 'rs') else None
                # during several MHIPS passes parents of later states are replaced
                m.parents = filt not in ('pfy', 'cpfyas') and meth not in ('mhips', 'mhips_reduced')
                r.pt.perform_smoothing(M, method=meth, smoother_options=opt)
                report('smoother ' + meth)
                ctx.count('smoothings')
                ctx.distinct(filt, meth, cfg['T'], cfg['N'], M, cfg['use_u'], cfg['prealloc'], cfg['meas_first'], cfg['ymiss'], cfg['extra'])


def run_sim(ctx, n=150):
    """the same through the Simulator, which slices the data of the user"""
    from pyparticleest.simulator import Simulator
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = FILTERS[c.idx % len(FILTERS)]
            cfg = gen_cfg(rng, filt)
            cfg.update(inf_prob=0.0, extra=0.0, prealloc='none', sharp=float(rng.choice([0.0, 0.3, 1.0])))
            if filt in ('pfy', 'cpfyas'):
                cfg['meas_first'] = True
            mf, T = cfg['meas_first'], cfg['T']
            if T == 0 and not mf:
                continue
            m = AlignModel(Params(rng, sharp=cfg['sharp'], use_u=cfg['use_u'], offset=cfg['offset']))
            m.parents = filt not in ('pfy', 'cpfyas')
            m.u, m.y = gen_data(cfg, rng, zeros=False)
            if not mf:
                m.missing.add(0)
            given = list(m.u)
            if cfg['use_u'] and rng.rand() < 0.5:
                given += [np.array([900.0 + k, rng.normal()]) for k in range(int(rng.choice([1, 3])))]      # the last steps need no input
                ctx.count('spare_inputs')
            u = given if cfg['use_u'] else None
            y = list(m.y) if mf else list(m.y[1:])
            fo = {'cond_traj': cond_traj(rng, T + 1)} if filt[0] == 'c' else None
            meth = str(rng.choice(['ancestor'] + BSI + ['mhips', 'mhbp']))
            c.note(smoother=meth, spare=len(given) - len(m.u), **cfg)
            if meth in ('mhips',):
                m.parents = False
            s = Simulator(m, u, y)
            m.last = T
            for rep in range(2):
                M = int(rng.choice([0, 1, 3]))
                s.simulate(cfg['N'], M, filter=filt, filter_options=fo, smoother=meth, smoother_options={'R': 2} if meth in ('mcmc', 'mhips', 'mhbp') else None, res=cfg['res'], meas_first=mf)
                for fn, what, kw in m.bad[:3]:
                    c.fail('%s: %s (simulator with %s and %s)' % (fn, what, filt, meth), 'sim:%s:%s' % (fn, what), **kw)
                c.ctx.evals += sum(m.ncalls.values())
                for k, v in m.ncalls.items():
                    ctx.count('sim:' + k, v)
                ctx.count('sim_calls', sum(m.ncalls.values()))
                c.check(len(s.pt.traj) == T + 1, 'simulation has the wrong number of steps', 'sim:steps', got=len(s.pt.traj), want=T + 1)
                # every transition and every measurement was processed
                if filt not in ('sir', 'csiras', 'pfy', 'cpfyas') and T:
                    c.check(m.ncalls.get('measure_full', 0) >= sum(v is not None for v in y), 'measurements were not evaluated', 'sim:skipped', calls=dict(m.ncalls))
                m.bad, m.ncalls = [], {}
            ctx.count('simulations')
            ctx.distinct('sim', filt, meth, T, cfg['N'], cfg['use_u'], mf, len(given) - len(m.u))


def run_builtin(ctx, n=100):
    """hooks of the built-in models: state, input, measurement and time stamp
    of every call belong together, whatever the time stamps are"""
    from pyparticleest.filter import ParticleTrajectory
    from .. import aligned
    names = sorted(aligned.KINDS)
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = names[c.idx % len(names)]
            cls, filts, meths = aligned.KINDS[kind]
            T = pick(rng, [0, 1, 2, 3, 5], [14, 25])
            log = aligned.Log(rng, T, np.arange(T + 1), float(rng.choice([0, 0.3])), bool(rng.rand() < 0.8))
            mf = bool(rng.rand() < 0.5) or T == 0
            if not mf:
                log.y[0] = None
            elif T == 0 and log.y[0] is None:
                log.y[0] = np.zeros(1)
            filt = str(rng.choice(filts))
            m = cls(log, rng)
            N = pick(rng, [2, 5, 12], [60])
            pre = bool(rng.rand() < 0.3)
            c.note(kind=kind, filt=filt, T=T, N=N, meas_first=mf, prealloc=pre, inputs=log.u and log.u[0] is not None, missing=[t for t in range(T + 1) if log.y[t] is None])

            def report(phase):
                for fn, what, kw in log.bad[:3]:
                    c.fail('%s: %s (%s model, during %s)' % (fn, what, kind, phase), 'builtin:%s:%s' % (fn, what), **kw)
                c.ctx.evals += sum(log.n.values())
                ctx.count('builtin_calls', sum(log.n.values()))
                log.bad, log.n = [], {}
            fo = {}
            if filt[0] == 'c':
                p0 = ParticleTrajectory(m, N, resample=0.67)
                if mf:
                    p0.measure(log.y[0])
                for t in range(T):
                    p0.forward(log.u[t], log.y[t + 1])
                fo = {'cond_traj': p0.perform_smoothing(1, method='full').traj}
                report('pf')
            pt = ParticleTrajectory(m, N, resample=float(rng.choice([0.0, 0.67, 1.0])), filter=filt, filter_options=fo, **(dict(T=T + 1) if pre else {}))
            if mf:
                pt.measure(log.y[0])
            for t in range(T):
                pt.forward(log.u[t], log.y[t + 1])
            report('filter ' + filt)
            for meth in [meths[i] for i in rng.permutation(len(meths))[:3]]:
                st = pt.perform_smoothing(int(rng.choice([1, 3])), method=meth, smoother_options={'R': int(rng.choice([1, 3]))} if meth not in ('full', 'ancestor', 'rsas') else None)
                report('smoother ' + meth)
                if kind != 'ltv':
                    for t in range(T + 1):
                        c.check(log.steps('traj', st.traj[t].pa.part) == t, 'smoothed state is of another step', 'builtin:traj', step=t)
                    log.bad = []
                ctx.count('builtin_smoothings')
                ctx.distinct(kind, filt, meth, T, N, pre, mf)
