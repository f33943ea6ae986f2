"""Instrumenter: paired runs and counters against an independent record."""
import contextlib, io, re
import numpy as np
from ..core import pick
from ..anyrun import *
from ..emgen import EMModel, NPAR
from pyparticleest.utils.intrument import Instrumenter, OpCount
import pyparticleest.paramest.paramest as pe

KIND = dict(sample_process_noise_full='sample', update_full='update', measure_full='measure', measure='measure', logp_xnext='pdfxn', logp_xnext_full='pdfxn', logp_xnext_singlestep='pdfxn',
            logp_xnext_max_full='pdfxnmax', propose_smooth='propsmooth', logp_proposal='pdfsmooth', eval_1st_stage_weights='eval1st', eval_logp_x0='eval_logp_x0')
FIRST = dict(sample_process_noise_full=('ptraj', 'ancestors', 'ut', 'tt'), update_full=('particles',), measure_full=('particles',), measure=('particles',), logp_xnext=('particles', 'next_part'),
             logp_xnext_full=('part', 'past_trajs', 'pind', 'future_trajs', 'find'), logp_xnext_singlestep=('part', 'past_trajs', 'pind', 'future_parts', 'find'), logp_xnext_max_full=('part',),
             propose_smooth=('ptraj', 'anc', 'future_trajs', 'find'), logp_proposal=('prop_part',), eval_1st_stage_weights=('particles',), eval_logp_x0=('particles',))


class Spy(object):
    """independent record of the operations requested from a model"""

    def __init__(self, model):
        self.__dict__['m'] = model
        self.__dict__['cnt'] = {k: 0 for k in KIND.values()}
        self.__dict__['calls'] = {}

    def __setattr__(self, k, v):
        setattr(self.m, k, v)

    def __getattr__(self, name):
        f = getattr(self.m, name)
        if name not in KIND:
            return f

        def g(*a, **kw):
            v = dict(zip(FIRST[name], a))
            v.update({k: x for k, x in kw.items() if k in FIRST[name]})
            if name == 'sample_process_noise_full':
                n = len(v['ancestors'])
            elif name in ('logp_xnext_full', 'logp_xnext_singlestep'):
                n = max(len(v['part']), len(v['find']))
            elif name == 'logp_xnext':
                n = max(len(v['particles']), len(v['next_part']))
            elif name == 'propose_smooth':
                n = len(v['anc'] if v['ptraj'] is not None else v['find'])
            else:
                n = len(v[FIRST[name][0]])
            self.cnt[KIND[name]] += n
            self.calls[name] = self.calls.get(name, 0) + 1
            return f(*a, **kw)
        return g


def counters(x):
    d = {k: getattr(x, 'cnt_' + k) for k in set(KIND.values()) - {'pdfxn'}}
    d['pdfxn'] = x.cnt_pdfxn + x.cnt_pdfxn_full
    return d


def printed(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'([\w ]+?)\s*:\s*(-?\d+)\s*$', b.getvalue(), re.M)}


def run_main(ctx, n=150):
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            job = Job(rng, KINDS[c.idx % len(KINDS)])
            c.note(**job.describe())
            seed = c.seed & 0xffffffff
            a = job.run(job.make(), seed)
            if a[-1][0] == 'exception':
                ctx.count('runs_not_supported')
                ctx.count('unsupported_%s_%s' % (job.kind, job.filt))
            spy = Spy(job.make())
            b = job.run(spy, seed)
            if not same_run(c, b, a, 'two runs of the plain model', 'repro'):
                continue
            inner = Spy(job.make())
            ins = Instrumenter(inner)
            d = job.run(ins, seed)
            if not same_run(c, d, a, 'instrumented and plain run', 'transparent'):
                continue
            if a[-1][0] == 'exception':
                continue
            got = counters(ins)
            for k in sorted(got):
                c.check(got[k] == spy.cnt[k], 'wrong number of operations counted', 'count:' + k, counter=k, got=got[k], want=spy.cnt[k])
            c.check(got == counters(ins.oc), 'counters of the object and its total differ', 'oc')
            c.check(inner.cnt == spy.cnt and inner.calls == spy.calls, 'instrumented model gets other requests than the plain one', 'requests', got=inner.calls, want=spy.calls)
            for k, v in got.items():
                if v:
                    ctx.count('counted_' + k)
            # another run adds up
            if rng.rand() < 0.3:
                job.run(ins, seed)
                c.check(counters(ins) == {k: 2 * v for k, v in got.items()}, 'counters do not accumulate over runs', 'accumulate')
                got = {k: 2 * v for k, v in got.items()}
            # sums
            r = OpCount(**{'cnt_' + k: int(rng.randint(1000)) for k in got if k != 'pdfxn'})
            r.cnt_pdfxn, r.cnt_pdfxn_full = int(rng.randint(1000)), int(rng.randint(1000))
            s = ins.oc + r
            c.check(all(getattr(s, k) == getattr(ins.oc, k) + getattr(r, k) for k in vars(r)) and counters(ins) == got, 'sum of counters', 'sum')
            p = printed(ins.print_statistics)
            for k, v in got.items():
                if 'cnt_' + k in p:
                    c.check(p['cnt_' + k] == v, 'wrong number printed', 'print:' + k, got=p, want=v)
            for k in ('sample', 'update', 'measure', 'pdfxn', 'pdfxnmax', 'propsmooth', 'pdfsmooth'):
                c.check('cnt_' + k in p, 'counter missing from the printed statistics', 'print:missing', counter=k)
            tot = printed(ins.print_total_ops)
            want = sum(got[k] for k in ('sample', 'update', 'measure', 'pdfxn', 'pdfxnmax', 'propsmooth', 'pdfsmooth'))
            c.check(tot.get('total ops') in (want, want + got['eval1st'] + got['eval_logp_x0']), 'wrong total printed', 'print:total', got=tot, want=want)
            ctx.count('instrumented_runs')
            ctx.distinct(*job.key())


def run_em(ctx, n=60):
    """parameter estimation on an instrumented model"""
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            T = pick(rng, [1, 3], [10])
            mf = bool(rng.rand() < 0.5)
            ps = int(rng.randint(2 ** 31))
            u = [np.array([100.0 + t, rng.normal()]) for t in range(T + 1)]
            y = [np.array([200.0 + t, rng.normal() * 2]) for t in range(T + 1)]
            sm = str(rng.choice(['full', 'mcmc', 'mhips', 'rs']))
            script = rng.uniform(-1, 1, size=(5, NPAR)).tolist()
            c.note(T=T, smoother=sm, mf=mf)
            out = []
            for w in (lambda m: m, Instrumenter):
                base = EMModel(Params(np.random.RandomState(ps)), script)
                m = w(base)
                np.random.seed(c.seed & 0xffffffff)
                est = pe.ParamEstimation(m, u, y)
                seq = []
                r = est.maximize(np.zeros(NPAR), 6, 3, max_iter=3, meas_first=mf, smoother=sm, callback=lambda params, Q, cur_iter: seq.append(np.ravel(params).copy()))
                out.append((np.array(seq), np.ravel(r[0]), est.get_smoothed_estimates()[:, :, [X, TS]], np.ravel(base.params), est.get_filtered_estimates()[1]))
            c.check(all(np.array_equal(a, b) for a, b in zip(*out)), 'estimation on an instrumented model gives another result', 'em')
            ctx.count('estimations')
            ctx.distinct('em', T, sm, mf)


class Echo(object):
    """returns and records what it is asked"""

    def __init__(self):
        self.__dict__['log'] = []

    def __getattr__(self, name):
        if name.startswith('__') or name not in KIND:
            raise AttributeError(name)

        def g(*a, **kw):
            self.log.append((name, a, kw))
            return ('answer', name, len(self.log))
        return g


def run_direct(ctx, n=300):
    """single requests with any combination of sizes: the answer is the model's, the count that of the operations"""
    ORDER = dict(sample_process_noise_full=('ptraj', 'ancestors', 'ut', 'tt'), update_full=('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors', 'noise'),
                 measure_full=('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors'), measure=('particles', 'y', 't'), logp_xnext=('particles', 'next_part', 'u', 't'),
                 logp_xnext_full=('part', 'past_trajs', 'pind', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
                 logp_xnext_singlestep=('part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
                 logp_xnext_max_full=('part', 'past_trajs', 'pind', 'uvec', 'yvec', 'tvec', 'cur_ind'), propose_smooth=('ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'),
                 logp_proposal=('prop_part', 'ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'), eval_1st_stage_weights=('particles', 'u', 'y', 't'), eval_logp_x0=('particles', 't'))
    for c in ctx.cases(n):
        with c:
            rng = c.rng
            e = Echo()
            ins = Instrumenter(e)
            want = {k: 0 for k in KIND.values()}
            for _ in range(6):
                name = str(rng.choice(sorted(ORDER)))
                N = int(rng.choice([1, 1, 2, 5]))
                M = N if rng.rand() < 0.4 else (int(rng.choice([1, 3, 7])) if N == 1 else 1)
                v = {}
                for a in ORDER[name]:
                    if a in ('particles', 'part', 'prop_part'):
                        v[a] = rng.normal(size=(N, 2))
                    elif a in ('next_part', 'future_parts'):
                        v[a] = rng.normal(size=(M, 2))
                    elif a == 'find':
                        v[a] = np.zeros(M if name.startswith('logp_xnext') else N, dtype=int)
                    elif a in ('ancestors', 'anc', 'pind'):
                        v[a] = np.zeros(N, dtype=int)
                    else:
                        v[a] = object()
                n = max(N, M) if name in ('logp_xnext', 'logp_xnext_full', 'logp_xnext_singlestep') else N
                if name == 'propose_smooth' and rng.rand() < 0.5:
                    v['ptraj'] = v['anc'] = None
                args = [v[a] for a in ORDER[name]]
                cut = int(rng.choice([0, len(args)]))
                r = getattr(ins, name)(*args[:cut], **{a: v[a] for a in ORDER[name][cut:]})
                want[KIND[name]] += n
                c.check(r == ('answer', name, len(e.log)), 'answer of the model not returned', 'direct:answer', request=name, got=r)
                nm, a, kw = e.log[-1]
                got = dict(zip(ORDER[name], a))
                got.update(kw)
                c.check(nm == name and set(got) == set(v) and all(got[q] is v[q] for q in v), 'request changed on the way to the model', 'direct:args', request=name)
                c.check(counters(ins) == want, 'wrong number of operations counted', 'direct:count:' + KIND[name], request=name, N=N, M=M, got=counters(ins), want=want)
                ctx.count('direct_requests')
                ctx.distinct('direct', name, N, M)
