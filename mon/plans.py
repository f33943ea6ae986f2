"""Which shards make up each check (no heavy imports here)."""
PLANS = {}


def shard(name, config='pure', budget=60, fn='main', build=None, env=None, **params):
    d = dict(name=name, config=config, budget=budget, params=dict(params, fn=fn))
    if build:
        d['build'] = build
    if env:
        d['env'] = env
    return d


def plan(prop, rule, min=None, assumptions=None):
    def deco(f):
        PLANS[prop] = dict(plan=f, rule=rule, min=min or {}, assumptions=assumptions or [])
        return f
    return deco


def th(tier, q, t):
    return t if tier == 'thorough' else q


@plan('C02', 'random filter runs of a lineage-tracing model (N, T, thresholds, missing data, preallocation, extra measurements); distinct = '
      'combinations of particle count, resampled or not, missing/extra measurement, storage mode, threshold, likelihood sharpness and step',
      min=dict(steps_checked=2000))
def _(tier):
    return [shard('pf%d' % i, n=th(tier, 250, 6000), budget=th(tier, 60, 1200), filters=['pf']) for i in range(8)]


@plan('C03', 'random runs of all adaptive filters, thresholds and likelihood sharpness; distinct = filter, N, decision, threshold, sharpness, step, rounded relative effective sample size',
      min=dict(resampled=300, kept=300, simulations=100))
def _(tier):
    return [shard('dec%d' % i, n=th(tier, 250, 6000), budget=th(tier, 60, 1200)) for i in range(6)] + \
           [shard('sim%d' % i, n=th(tier, 250, 4000), budget=th(tier, 60, 1200), fn='sim') for i in range(2)]


@plan('C04', 'random auxiliary filter runs; distinct = N, resampled or not, missing measurement, storage mode, threshold, sharpness, step', min=dict(steps_checked=2000))
def _(tier):
    return [shard('apf%d' % i, n=th(tier, 250, 6000), budget=th(tier, 60, 1200), filters=['apf']) for i in range(8)]


@plan('C05', 'random runs of the proposal based filters; distinct = filter, N, resampled or not, storage mode, threshold, sharpness, step', min=dict(steps_checked=2000))
def _(tier):
    return [shard('prop%d' % i, n=th(tier, 250, 6000), budget=th(tier, 60, 1200), filters=['sir', 'pfy']) for i in range(8)]


@plan('C06', 'random runs of the conditional filters; distinct = filter, N, missing measurement, storage mode, sharpness, step', min=dict(steps_checked=2000, draws_tested=500))
def _(tier):
    return [shard('cond%d' % i, n=th(tier, 400, 6000), budget=th(tier, 60, 1200)) for i in range(8)]


@plan('C01', 'random weight vectors (zeros, one-hot, huge dynamic range, unnormalised) and sizes, plus repeated draws from fixed weights; distinct = size, number of draws, offset, relative effective sample size',
      min=dict(draws=5000, repeated_draws=20000))
def _(tier):
    return [shard('rand%d' % i, n=th(tier, 1500, 40000), budget=th(tier, 40, 900)) for i in range(4)] + \
           [shard('bias%d' % i, n=th(tier, 25, 400), fn='bias', budget=th(tier, 40, 900)) for i in range(4)]


@plan('C07', 'random discrete hidden Markov models whose smoothing posterior is enumerated; start from exact draws, apply one sweep with two particles; distinct = filter, smoother, horizon, states, zero pattern, storage mode, model',
      min=dict(kernel_steps=20000, moves=2000),
      assumptions=['two particles: with more, systematic resampling makes the free particles dependent and invariance only holds in the limit'])
def _(tier):
    out = []
    for f in ('cpf', 'cpfas', 'cpfyas', 'csiras'):
        for i in range(2):
            out.append(shard('%s%d' % (f, i), filters=[f], n=th(tier, 8, 200), reps=th(tier, 10000, 30000), budget=th(tier, 90, 1200)))
    return out + [shard('joint', fn='cond', n=th(tier, 5000, 100000), budget=th(tier, 60, 1200))]


@plan('C10', 'random discrete hidden Markov models with exact filtering posterior; many-particle runs of every unconditional filter; distinct = filter, horizon, states, threshold, start mode, interface, model',
      min=dict(posteriors_compared=100))
def _(tier):
    return [shard('%s%d' % (f, i), filters=[f], n=th(tier, 10, 200), budget=th(tier, 40, 1200)) for f in ('pf', 'apf', 'sir', 'pfy') for i in range(2)]


@plan('C12', 'backward simulation on discrete models with enumerated backward kernel, and on continuous traced models with the transform of every draw; distinct = method, horizon, states, particles, options, model',
      min=dict(trajectories=10000, backward_draws=2000))
def _(tier):
    out = [shard('hmm-%s%d' % (f, i), fn='hmm', methods=[f], n=th(tier, 6, 200), reps=th(tier, 2500, 8000), budget=th(tier, 50, 1200))
           for f in ('full', 'rs', 'rsas', 'mcmc') for i in range(1 + (f in ('rs', 'rsas')))]
    return out + [shard('trace%d' % i, fn='trace', n=th(tier, 150, 3000), budget=th(tier, 50, 1200)) for i in range(2)] + \
           [shard('iters', fn='iters', n=th(tier, 12, 300), budget=th(tier, 40, 1200))]


@plan('C14', 'random runs of every filter followed by ancestor and other smoothers; distinct = filter, smoother, particles, steps, trajectories, storage mode',
      min=dict(smoothings=500, genealogies=500))
def _(tier):
    return [shard('anc%d' % i, n=th(tier, 270, 5400), budget=th(tier, 50, 1200)) for i in range(8)]


@plan('C15', 'Metropolis-Hastings smoothers started from exact posterior trajectories of discrete models (four kinds of proposals) and the backward proposer against its enumerated target; distinct = method, proposal, horizon, states, passes, model',
      min=dict(trajectories=50000, proposals_counted=5000))
def _(tier):
    return [shard('passes', fn='passes', n=th(tier, 200, 4000), budget=th(tier, 40, 1200))] + \
           [shard('mhips%d' % i, fn='mhips', n=th(tier, 25, 500), budget=th(tier, 40, 1200)) for i in range(4)] + \
           [shard('mhbp%d' % i, fn='mhbp', n=th(tier, 30, 400), budget=th(tier, 60, 1200)) for i in range(4)] + \
           [shard('mhbpn%d' % i, fn='mhbpn', n=th(tier, 80, 2000), budget=th(tier, 60, 1200)) for i in range(2)] + \
           [shard('joint-nlg', fn='mh', kinds=['nlg'], n=th(tier, 7000, 100000), budget=th(tier, 60, 1200)),
            shard('joint-rb', fn='mh', kinds=['mixed', 'hier'], n=th(tier, 1000, 30000), budget=th(tier, 60, 1200))]


def both(name, **kw):
    """the same workload on the pure Python and on the compiled kernels"""
    return [shard(name + '-' + cfg, config=cfg, **kw) for cfg in ('pure', 'ext')]


def many(k, name, **kw):
    return [s for i in range(k) for s in both('%s%d' % (name, i), **kw)]


@plan('C28', 'random systems (dimensions, with/without linear part and offset, singular process noise, badly scaled and nearly singular covariances) on both kernel implementations; distinct = dimensions, forms, conditioning',
      min=dict(primitive_sets=500, extreme_determinants=150, rescaled=400))
def _(tier):
    return many(2, 'kal', n=th(tier, 500, 20000), budget=th(tier, 40, 900))


@plan('C31', 'random interval pairs (order, width ratio 1e-4..1e4, location, scale, array types) and evaluation points; distinct = kind, width ratio, scale, limit order', min=dict(points=20000))
def _(tier):
    return [shard('pdf%d' % i, n=th(tier, 1500, 30000), budget=th(tier, 40, 900)) for i in range(4)]


@plan('C16', 'random linear systems (time-varying or constant, inputs, offsets, measurement dimension changing over time, missing data) on both kernels against dense joint Gaussian conditioning; distinct = system structure and run configuration',
      min=dict(filter_steps=500, smoother_steps=300))
def _(tier):
    return many(4, 'ltv', n=th(tier, 300, 6000), budget=th(tier, 40, 900))


@plan('C17', 'random nonlinear Gaussian models (constant / replaced / particle dependent functions and covariances); densities against an extended precision reference, draws by whitening; distinct = model structure',
      min=dict(models=100, draws=200000))
def _(tier):
    return many(4, 'nlg', n=th(tier, 80, 3000), budget=th(tier, 40, 900))


@plan('C18', 'random mixed models (dimensions, constant or particle/input/time dependent coefficients, correlated noises, no linear measurement part) filtered on both kernels; every particle against dense conditioning on its own path; distinct = model structure and run configuration',
      min=dict(particles_checked=1000, draws_tested=1000, noise_draws=20000))
def _(tier):
    return many(4, 'mix', n=th(tier, 60, 1500), budget=th(tier, 60, 1200)) + both('init', fn='init', n=th(tier, 60, 1500), budget=th(tier, 60, 1200)) + \
        many(2, 'noise', fn='noise', n=th(tier, 15, 600), budget=th(tier, 60, 1200))


@plan('C19', 'random mixed, marginalized and hierarchical models smoothed by every smoother on both kernels; every trajectory against dense conditioning on its path and all measurements; distinct = model kind, smoother, structure, storage mode',
      min=dict(trajectories_checked=300))
def _(tier):
    return many(4, 'rbs', n=th(tier, 50, 1500), budget=th(tier, 60, 1200))


@plan('C08', 'every call the library makes into the model during random runs of every filter and smoother, checked online against the step numbers carried by particles, inputs, measurements and times; distinct = filter, smoother, T, N, trajectories, storage mode, missing data, start mode',
      min=dict(calls=20000, smoothings=400, builtin_calls=5000, simulations=200, sim_calls=5000, spare_inputs=20))
def _(tier):
    return [shard('align%d' % i, n=th(tier, 230, 8000), budget=th(tier, 50, 1200)) for i in range(8)] + \
        many(2, 'sim', fn='sim', n=th(tier, 100, 3000), budget=th(tier, 50, 1200)) + \
        many(2, 'builtin', fn='builtin', n=th(tier, 150, 5000), budget=th(tier, 50, 1200))


@plan('C09', 'random runs of all filters and smoothers on tracing and built-in models with bitwise snapshots of stored steps and user data around every operation; distinct = filter or model kind and configuration',
      min=dict(step_comparisons=2000, smoothings=800, repeats=200))
def _(tier):
    return [shard('trace%d' % i, fn='trace', n=th(tier, 160, 5000), budget=th(tier, 50, 1200)) for i in range(4)] + \
        many(2, 'models', fn='models', n=th(tier, 60, 1500), budget=th(tier, 50, 1200)) + [shard('direct', fn='direct', n=th(tier, 120, 3000), budget=th(tier, 50, 1200))]


@plan('C11', 'pairs of runs with equal randomness and per-step constants up to 1e6 added to likelihoods, transition densities and look-ahead weights (all filters and smoothers), and log-likelihoods of magnitude up to 1e100 with zero-likelihood particles; distinct = filter, smoothers, N, T, threshold, scale',
      min=dict(steps_compared=1500, smoothings_compared=600, steps_checked=1500))
def _(tier):
    return [shard('pair%d' % i, n=th(tier, 600, 5000), budget=th(tier, 50, 1200)) for i in range(4)] + \
           [shard('wild%d' % i, fn='wild', n=th(tier, 2000, 8000), budget=th(tier, 50, 1200)) for i in range(4)]


@plan('C13', 'bounds of nonlinear Gaussian, mixed and hierarchical models against the exact maximum of the predictive density (random particles, singular covariances), and rejection smoothing through the interface; distinct = model kind, structure, particles',
      min=dict(densities_compared=10000, backward_draws=1500, bounds_seen=200, accepted_at_once=2000))
def _(tier):
    return many(1, 'bound', fn='bound', n=th(tier, 400, 12000), budget=th(tier, 40, 1200)) + \
        many(2, 'use', fn='use', n=th(tier, 60, 2000), budget=th(tier, 60, 1200)) + \
        [shard('wild%d' % i, fn='wild', n=th(tier, 300, 10000), budget=th(tier, 50, 1200)) for i in range(2)] + \
        [shard('steps%d' % i, fn='steps', n=th(tier, 120, 4000), budget=th(tier, 50, 1200)) for i in range(2)] + \
        [shard('rate', fn='rate', n=th(tier, 150, 5000), budget=th(tier, 30, 1200))]


@plan('C20', 'random mixed and hierarchical models, random particles (also with known linear state) and future states, every interface of the backward step against dense conditioning, draws by whitening; distinct = model kind, structure, particles',
      min=dict(densities_compared=1000, rows_drawn=10000))
def _(tier):
    return many(2, 'back', n=th(tier, 250, 8000), budget=th(tier, 60, 1200))


@plan('C21', 'random marginalized mixed models (several nonlinear states, correlated noises, offsets, missing measurements) smoothed by every smoother that applies; weights of all particles against the dense density of the future path and measurements; distinct = structure, horizon, particles, storage mode',
      min=dict(differences_compared=2000, steps_weighted=200))
def _(tier):
    return many(3, 'marg', n=th(tier, 60, 2500), budget=th(tier, 60, 1200))


@plan('C22', 'random hierarchical models (dimensions, default or per-particle linear dynamics, offsets, missing measurements, both filters); every particle against dense conditioning on its own path, nonlinear moves against the recorded user functions; distinct = structure and run configuration',
      min=dict(particles_checked=1000, moves=1000, weights_checked=200, runs_compared=200))
def _(tier):
    return many(4, 'hier', n=th(tier, 80, 3000), budget=th(tier, 60, 1200))


@plan('C23', 'random parametrised linear, mixed and marginalized models: every subset of matrices depends (nonlinearly) on 1-3 parameters, constant or reported per particle, input and time; analytic gradients of every term against extrapolated central differences; sweeps of the gradient test utility; distinct = kind, dependent matrices, dimensions',
      min=dict(gradients_compared=3000, sweep_points=200))
def _(tier):
    return many(4, 'grad', n=th(tier, 150, 5000), budget=th(tier, 60, 1200)) + both('sweep', fn='sweep', n=th(tier, 20, 800), budget=th(tier, 60, 900))


@plan('C24', 'expected log-densities of random parametrised linear and mixed models against dense expectations (single steps and whole trajectories), nonlinear Gaussian objectives, and both maximisers on objectives with known bounded maximum and on built-in models; distinct = kind, dependent matrices, run configuration, bounds',
      min=dict(terms_compared=1000, trajectory_terms_compared=1000, nlg_objectives=100, maxima_compared=200, model_maximisations=80))
def _(tier):
    return many(2, 'terms', fn='terms', n=th(tier, 150, 5000), budget=th(tier, 50, 1200)) + \
        both('nlg', fn='nlg', n=th(tier, 100, 3000), budget=th(tier, 40, 900)) + \
        [shard('quad%d' % i, fn='quad', n=th(tier, 200, 8000), budget=th(tier, 50, 1200)) for i in range(2)] + \
        both('models', fn='models', n=th(tier, 60, 2500), budget=th(tier, 60, 1200))


@plan('C25', 'recorded histories of EM with scripted maximiser (schedules, filters, smoothers, callbacks), every simulation replayed on a fresh simulator from the captured random state; EM on random linear models with exact likelihood; distinct = filter, smoother, numbers of particles and trajectories, iteration, model structure',
      min=dict(iterations=500, likelihood_steps=200, increases=100))
def _(tier):
    return [shard('em%d' % i, n=th(tier, 400, 8000), budget=th(tier, 50, 1200)) for i in range(4)] + \
        many(2, 'mono', fn='mono', n=th(tier, 100, 3000), budget=th(tier, 60, 1200))


@plan('C26', 'recorded histories of SAEM, PSAEM and PSAEM2 with scripted maximiser (step-size sequences, discarding rules, Rao-Blackwellized genealogies, early stop); all weighted trajectories matched by content with the recursion; distinct = estimator, filter, smoother, iteration, kept and offered trajectories, rules',
      min=dict(iterations=1000, trajectories=2000, discarded=300, conditioned_runs=500, dropped_for_space=20))
def _(tier):
    return [shard('sa%d' % i, n=th(tier, 300, 8000), budget=th(tier, 60, 1200)) for i in range(8)]


def san_env():
    import subprocess
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    return dict(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', PYTHONMALLOC='malloc')


@plan('C27', 'identical inputs to compiled and pure kernels (dimensions 0..12, particle and parameter counts from zero, contiguous, padded, Fortran, strided and reversed layouts with guard zones), whole runs with either implementation, both workloads again under AddressSanitizer and UndefinedBehaviorSanitizer; distinct = dimensions and layouts, run configurations',
      min=dict(kernel_calls=2000, guard_zones=5000, runs_compared=100, san_runs=60))
def _(tier):
    return [shard('kern%d' % i, 'ext', fn='kern', n=th(tier, 250, 20000), budget=th(tier, 40, 1200)) for i in range(3)] + \
        [shard('models%d' % i, 'ext', fn='models', n=th(tier, 100, 3000), budget=th(tier, 60, 1200)) for i in range(2)] + \
        [shard('asan-kern', 'ext', fn='kern', build='asan', env=san_env(), n=th(tier, 150, 10000), budget=th(tier, 60, 1200)),
         shard('asan-runs%d' % 0, 'ext', fn='san', build='asan', env=san_env(), n=th(tier, 60, 3000), budget=th(tier, 60, 1200)),
         shard('asan-runs%d' % 1, 'ext', fn='san', build='asan', env=san_env(), n=th(tier, 60, 3000), budget=th(tier, 60, 1200))]


@plan('C29', 'histories of runs of one simulator (filters, smoothers, particle numbers, start mode, missing inputs, extreme likelihoods) with every accessor compared with the stored steps and a fresh simulator; distinct = filter, smoother, counts, horizon, position in the history',
      min=dict(runs=500, bad_names=300, model_runs=200))
def _(tier):
    return [shard('sim%d' % i, n=th(tier, 400, 8000), budget=th(tier, 50, 1200)) for i in range(4)] + \
        both('models', fn='models', n=th(tier, 80, 3000), budget=th(tier, 50, 1200))


@plan('C30', 'triples of runs with equal randomness: plain, with an independent recording proxy, instrumented (all built-in models, minimal models, all filters and smoothers); distinct = model kind, filter, smoothers, counts',
      min=dict(instrumented_runs=600, counted_sample=300, counted_update=300, counted_measure=300, counted_pdfxn=200, counted_pdfxnmax=30, counted_propsmooth=20, counted_pdfsmooth=20, counted_eval1st=30, counted_eval_logp_x0=20, estimations=20, direct_requests=500))
def _(tier):
    return many(3, 'ins', n=th(tier, 250, 6000), budget=th(tier, 50, 1200)) + [shard('em', fn='em', n=th(tier, 60, 2000), budget=th(tier, 50, 1200)),
                                                                                            shard('direct', fn='direct', n=th(tier, 300, 6000), budget=th(tier, 40, 600))]


@plan('C32', 'histories of jobs (all built-in and user defined models, filters, smoothers, estimators) executed alone, again, on used models, interleaved and in other processes; distinct = job and way of repeating it',
      min=dict(histories=200, again=100, used=300, interleaved=100, object=100, other_seeds=100, estimations=100, process_runs=40))
def _(tier):
    return many(2, 'hist', n=th(tier, 110, 4000), budget=th(tier, 50, 1200)) + \
        many(1, 'est', fn='est', n=th(tier, 60, 2000), budget=th(tier, 50, 1200)) + \
        many(1, 'proc', fn='proc', n=th(tier, 2, 40), budget=th(tier, 50, 1200))


@plan('C33', 'states and data drawn from random instances of the built-in models, then filtered and smoothed (or resampled by a Markov kernel started at the true path); distinct = pipeline, horizon, first measurement, missing pattern, dimension',
      min=dict(paths=1500, innovations=5000, moved=200),
      assumptions=['runs with finitely many particles are compared up to a bias of 0.05 standard deviations; the kernels started at the true path are compared exactly'])
def _(tier):
    b = th(tier, 100, 1500)
    out = [shard('mh-nlg', fn='mh', kinds=['nlg'], n=th(tier, 4000, 100000), budget=b)]
    out += both('mh-rb', fn='mh', kinds=['mixed', 'hier'], n=th(tier, 1500, 40000), budget=b)
    out += [shard('cond', fn='cond', kinds=['nlg'], n=th(tier, 8000, 150000), budget=b)]
    out += [shard('pipe-nlg%d' % i, fn='pipe', kinds=['nlg'], n=th(tier, 2500, 40000), budget=b) for i in range(2)]
    out += both('pipe-rb', fn='pipe', kinds=['mixed', 'marg', 'hier'], n=th(tier, 1000, 20000), budget=b)
    return out


# how many times the case counts above the cheap checks can afford in the quick tier
QUICK = dict(C01=5, C02=10, C03=10, C04=8, C05=8, C06=5, C08=2, C09=5, C10=3, C12=2, C13=3, C14=6, C16=5, C17=3, C18=5, C19=7, C20=3,
             C22=5, C23=3, C24=3, C25=2, C26=2, C28=5, C29=3, C31=3)


def shards(prop, tier):
    out = PLANS[prop]['plan'](tier)
    for s in out:
        if tier == 'quick' and 'n' in s['params']:
            s['params']['n'] *= QUICK.get(prop, 1)
    return out
