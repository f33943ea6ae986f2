"""Immutability monitors: snapshots of stored steps and user data are compared
bit for bit after every operation."""
import numpy as np
from ..trace import *
from .. import ltvgen, mlgen
from .c17 import Spec, Model as NlgModel


def snap(o, path='', out=None, depth=0):
    """copies of every array reachable through lists, dicts and attributes"""
    out = {} if out is None else out
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for i, v in enumerate(o):
                snap(v, '%s[%d]' % (path, i), out, depth + 1)
        else:
            out[path] = o.copy()
    elif isinstance(o, dict):
        for k in o:
            snap(o[k], '%s[%r]' % (path, k), out, depth + 1)
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            snap(v, '%s[%d]' % (path, i), out, depth + 1)
    elif o is None or isinstance(o, (int, float, str, bool, np.generic)):
        out[path] = o
    elif depth < 4 and hasattr(o, '__dict__') and type(o).__name__ in ('TrajectoryStep', 'ParticleApproximation', 'System', 'Mix', 'Nlg', 'Spec'):
        for k, v in vars(o).items():
            snap(v, '%s.%s' % (path, k), out, depth + 1)
    return out


def diff(a, b):
    if set(a) != set(b):
        return 'different items: %s' % sorted(set(a) ^ set(b))[:5]
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            if not (isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == 'f')):
                return k
        elif not (x is y or x == y or (x != x and y != y)):
            return k
    return None


def steps(pt):
    return [dict(part=s.pa.part.copy(), w=np.array(s.pa.w, copy=True), anc=None if s.ancestors is None else np.array(s.ancestors, copy=True)) for s in pt.traj]


def same(c, before, after, what, key):
    for t, (a, b) in enumerate(zip(before, after)):
        for k in a:
            ok = (a[k] is None and b[k] is None) or (a[k] is not None and b[k] is not None and np.array_equal(a[k], b[k], equal_nan=k != 'anc'))
            if not c.check(ok, '%s changed the stored %s of step' % (what, {'part': 'particles', 'w': 'weights', 'anc': 'ancestors'}[k]), '%s:%s' % (key, k), step=t):
                return


def smoothings(c, rng, pt, meths, M, userdata, cols=slice(None)):
    """repeated smoothing; the same seed must give the same result whatever was
    smoothed in between"""
    ref = steps(pt)
    vec = snap([pt.uvec, pt.yvec, pt.tvec])
    first = {}
    given = {}
    for meth in meths:
        opt = {'R': 2} if meth in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp') else [None, {}, {'rs': {'R': 2}, 'rsas': {'ratio': 1.5}}.get(meth, {})][rng.randint(3)]
        opt = given.setdefault(meth, opt)
        o2 = None if opt is None else dict(opt)
        np.random.seed(c.seed & 0xffffffff)
        st = pt.perform_smoothing(M, method=meth, smoother_options=opt)
        c.check(len(pt.traj) == len(ref), 'smoothing changed the number of filter steps', 'smooth:len')
        same(c, ref, steps(pt), 'smoothing (%s)' % meth, 'smooth')
        d = diff(vec, snap([pt.uvec, pt.yvec, pt.tvec]))
        c.check(d is None, 'smoothing changed the stored inputs, measurements or times', 'smooth:vec', what=d)
        c.check(opt == o2, 'smoothing modified the option dictionary', 'smooth:options')
        d = diff(userdata[0], snap(userdata[1]))
        c.check(d is None, 'user data modified by smoothing', 'user:smooth', what=d, method=meth)
        got = [s.pa.part[:, cols].copy() for s in st.traj]
        if meth in first:
            c.check(all(np.allclose(a, b, rtol=1e-8, atol=1e-8, equal_nan=True) for a, b in zip(got, first[meth])), 'smoothing again from the same filter result and seed gives another result', 'smooth:repeat', method=meth)
            c.ctx.count('repeats')
        first.setdefault(meth, got)
        # results are the caller's to modify
        for s in st.traj:
            s.pa.part[:] = -77.0
        same(c, ref, steps(pt), 'writing to smoothed trajectories (%s)' % meth, 'alias')
        c.ctx.count('smoothings')


def run_trace(ctx, n=300):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = ['pf', 'apf', 'sir', 'pfy', 'cpf', 'cpfas', 'cpfyas', 'csiras'][c.idx % 8]
            cfg = gen_cfg(rng, filt)
            cfg['inf_prob'] = 0.0
            cfg['sharp'] = float(rng.choice([0.0, 0.3, 1.0, 20.0]))
            c.note(**cfg)
            fo = {'cond_traj': cond_traj(rng, cfg['T'] + 1)} if filt[0] == 'c' else {}
            data = gen_data(cfg, rng)
            user = snap([data, fo])

            def on_step(r):
                k = len(r.pt.traj) - 1
                for t in range(max(0, k - 3), k):
                    ok = r.steps[t].same(Step(r.pt.traj[t]))
                    c.check(ok, 'advancing the filter changed a stored step', 'forward', step=t, at=k)
                    ctx.count('step_comparisons')
            r = drive(cfg, rng, fo, on_step=on_step, data=data)
            for t in range(len(r.final)):
                c.check(r.steps[t].same(r.final[t]), 'advancing the filter changed a stored step', 'forward-end', step=t)
            d = diff(user, snap([data, fo]))
            c.check(d is None, 'filtering modified data of the user', 'user:filter', what=d)
            ctx.distinct(filt, cfg['T'], cfg['N'], cfg['prealloc'], cfg['meas_first'])
            if r.dead or any(np.any(np.isnan(s.w)) for s in r.final):
                continue
            all_ = ['ancestor'] if filt in ('sir', 'csiras') else ['ancestor', 'full', 'rs', 'rsas', 'mcmc', 'mhips', 'mhips_reduced', 'mhbp']
            k = [all_[i] for i in rng.permutation(len(all_))[:3]]
            smoothings(c, rng, r.pt, k + k[:1], int(rng.choice([1, 4])), (user, [data, fo]), [X, TS])


READERS = ('sample_process_noise', 'sample_process_noise_full', 'eval_1st_stage_weights', 'logp_xnext', 'logp_xnext_max', 'logp_xnext_full', 'logp_xnext_max_full',
           'logp_xnext_singlestep', 'sample_smooth', 'cond_predict_single_step', 'cond_sampled_initial', 'propose_smooth', 'logp_proposal', 'copy_ind', 'eval_logp_x0',
           'eval_logp_xnext', 'eval_logp_y', 'eval_logp_x0_val_grad', 'eval_logp_xnext_val_grad', 'eval_logp_y_val_grad')


def guard(c, m):
    """densities, draws and proposals of the model leave what they are given as it is"""
    depth = [0]

    def wrap(name):
        f = getattr(m, name)

        def g(*a, **k):
            if depth[0]:
                return f(*a, **k)
            before = snap([a, k])
            depth[0] += 1
            try:
                r = f(*a, **k)
            finally:
                depth[0] -= 1
            d = diff(before, snap([a, k]))
            c.check(d is None, '%s modified its arguments' % name, 'args:' + name, what=d)
            c.ctx.count('model_calls')
            c.ctx.distinct('call', type(m).__mro__[1].__name__, name)
            return r
        setattr(m, name, g)
    for name in READERS:
        if hasattr(m, name):
            wrap(name)


def call_directly(c, s, m, pt, kind):
    """what users evaluate themselves on stored or smoothed particles"""
    rng = c.rng
    t = rng.randint(len(pt))
    p = pt[t].pa.part
    u, y = s.u[min(t, s.T - 1)] if s.T else None, s.y[t] if kind == 'nlg' else s.raw(np.ones(s.ly))
    if kind not in ('ltv', 'marg') and y is not None:
        m.eval_1st_stage_weights(p, u, y, t)
    if kind == 'nlg' and s.spec.initmode == 'zero':
        return
    m.eval_logp_x0(p, t)
    m.sample_process_noise(p, u, t)


def run_models(ctx, n=40):
    """built-in models: particles hold sufficient statistics that are updated
    in place at many places"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            kind = ['mixed', 'ltv', 'hier', 'marg', 'nlg'][c.idx % 5]
            from pyparticleest.filter import ParticleTrajectory
            if kind == 'ltv':
                s = ltvgen.System(rng, int(rng.choice([1, 3, 6])), tv=bool(rng.rand() < 0.6), partial=bool(rng.rand() < 0.5))
                s.simulate(rng, ymiss=float(rng.choice([0, 0.3])))
                m = ltvgen.LTVModel(s, s.tv)
                mf = bool(rng.rand() < 0.5)
                meths = ['ancestor', 'full', 'mcmc']
            elif kind == 'nlg':
                s, m = nlg(rng)
                mf = bool(rng.rand() < 0.5)
                meths = ['ancestor', 'full', 'mcmc', 'mhips', 'mhips_reduced', 'mhbp', 'rs', 'rsas']
            else:
                s, mf, pre = mlgen.setup(c, hier=kind == 'hier')
                m = dict(mixed=mlgen.Mixed, hier=mlgen.Hier, marg=mlgen.Marg)[kind](s)
                meths = ['ancestor', 'full', 'mcmc'] + ([] if kind == 'marg' else ['rs', 'rsas', 'mhips', 'mhips_reduced', 'mhbp'])
            c.note(kind=kind, meas_first=mf)
            guard(c, m)
            user = snap(s)
            pt = ParticleTrajectory(m, int(rng.choice([2, 6])), resample=float(rng.choice([0, 0.67, 1.0])), filter=['pf', 'apf'][rng.randint(2)] if kind != 'ltv' else 'pf')
            hist = []

            def look(done):
                now = steps(pt)
                same(c, hist[:-1] if done else hist, now, 'advancing the filter', 'forward')
                hist[:] = now
            if mf:
                pt.measure(s.feed(0))
                hist[:] = steps(pt)
            for t in range(s.T):
                pt.forward(s.u[t], s.feed(t + 1))
                look(False)
                if s.y[t + 1] is not None and rng.rand() < 0.2:
                    pt.measure(s.feed(t + 1))
                    look(True)
                    if kind not in ('ltv', 'nlg'):
                        m.lls = []
            d = diff(user, snap(s))
            c.check(d is None, 'filtering modified data or model matrices of the user', 'user:filter', what=d, kind=kind)
            if len(pt.traj):
                before = steps(pt)
                call_directly(c, s, m, pt, kind)
                same(c, before, steps(pt), 'evaluating densities', 'eval')
                k = [meths[i] for i in rng.permutation(len(meths))[:3]]
                smoothings(c, rng, pt, k + k[:1], int(rng.choice([1, 3])), (user, s))
            ctx.distinct(kind, mf, s.T, str(meths))


class Nlg(object):
    """an arbitrary nonlinear Gaussian model with its data"""

    def __init__(self, rng):
        self.spec = Spec(rng)
        self.T = int(rng.choice([1, 3, 6]))
        self.u = [rng.normal(size=1) if rng.rand() < 0.7 else None for _ in range(self.T)]
        self.y = [rng.normal(size=self.spec.ly) if rng.rand() < 0.8 else None for _ in range(self.T + 1)]

    def feed(self, t):
        return self.y[t]


def nlg(rng):
    s = Nlg(rng)
    return s, NlgModel(s.spec, rng)


def run_direct(ctx, n=60):
    """single filter steps asked for with inplace=False"""
    from pyparticleest.filter import ParticleApproximation
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            filt = ['pf', 'apf', 'sir'][c.idx % 3]
            cfg = gen_cfg(rng, filt)
            cfg['inf_prob'] = 0.0
            c.note(**cfg)
            r = drive(cfg, rng)
            pt, pf, t = r.pt, r.pt.pf, len(r.final) - 1
            if r.dead or np.any(np.isnan(pt[t].pa.w)):
                continue
            ref, vec = steps(pt), snap([pt.uvec, pt.yvec, pt.tvec])
            out = {}
            for inplace in (False, True):
                pa = ParticleApproximation(pt[t].pa.part, pt[t].pa.w)
                kw = dict(uvec=pt.uvec, yvec=pt.yvec, tvec=pt.tvec, pa=pa, inplace=inplace)
                np.random.seed(c.seed & 0xffffffff)
                if pt.yvec[t] is not None:
                    q = pf.measure(traj=pt.traj[:t], ancestors=pt[t].ancestors, cur_ind=t, **kw)
                    out['measure', inplace] = (q.part[:, X].copy(), np.array(q.w))
                    if not inplace:
                        c.check(np.array_equal(pa.part, ref[t]['part']) and np.array_equal(pa.w, ref[t]['w']), 'measure(inplace=False) changed the approximation it was given', 'inplace:measure')
                pa = kw['pa'] = ParticleApproximation(pt[t].pa.part, pt[t].pa.w)
                if filt != 'sir' and t:
                    # propagate the previous step again, without resampling
                    pa = kw['pa'] = ParticleApproximation(pt[t - 1].pa.part, pt[t - 1].pa.w)
                    q = pf.update(traj=pt.traj[:t], ancestors=np.arange(pa.num), cur_ind=t - 1, **kw)
                    out['update', inplace] = (q.part[:, X].copy(), np.array(q.w))
                    if not inplace:
                        c.check(np.array_equal(pa.part, ref[t - 1]['part']) and np.array_equal(pa.w, ref[t - 1]['w']), 'update(inplace=False) changed the approximation it was given', 'inplace:update')
                same(c, ref, steps(pt), 'a single filter step', 'inplace:stored')
                ctx.count('direct_steps')
            c.check(diff(vec, snap([pt.uvec, pt.yvec, pt.tvec])) is None, 'a single filter step changed the stored inputs, measurements or times', 'inplace:vec')
            for what in ('measure', 'update'):
                if (what, True) in out:
                    c.check(all(np.array_equal(a, b) for a, b in zip(out[what, True], out[what, False])), '%s gives another result with inplace=False' % what, 'inplace:same:' + what)
            ctx.distinct('direct', filt, cfg['T'], cfg['N'], cfg['prealloc'])
