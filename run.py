#!/usr/bin/env python3
"""Driver:  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the shards of one property check in parallel worker processes, merges
what the monitors observed, writes evidence/<ID>.json and decides."""
import argparse, importlib, json, os, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
from mon.build import build_ext, PY


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                k, _, d = rest.partition(' ')
                assert k.startswith('key=')
                out[k[4:]] = d
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only-shard')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    mod = importlib.import_module('mon.plans').PLANS[a.prop]
    plan = importlib.import_module('mon.plans').shards(a.prop, tier)
    case = None
    if a.replay:
        r = json.load(open(a.replay))
        plan = [s for s in plan if s['name'] == r['shard']]
        case, a.seed, tier = r['case'], r['seed'], r.get('tier', tier)
    if a.only_shard:
        plan = [s for s in plan if s['name'] == a.only_shard]
    ext = {}
    for s in plan:
        k = {'ext': 'plain', 'pure': None}[s['config']] if not s.get('build') else s['build']
        if k and k not in ext:
            ext[k] = build_ext(k)
        s['_ext'] = ext.get(k)
    tmp = tempfile.mkdtemp(prefix='mon-%s-' % a.prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', MPLCONFIGDIR=tmp)
    env.pop('PYTHONPATH', None)
    hard = 840 if tier == 'quick' else 6 * 3600
    todo, running, results, problems = list(enumerate(plan)), [], [], []
    try:
        while todo or running:
            while todo and len(running) < a.j:
                i, s = todo.pop(0)
                sp = dict(prop=a.prop, shard=s['name'], config=s['config'], seed=a.seed, tier=tier, extdir=s['_ext'],
                          budget=s.get('budget'), params=s.get('params', {}), case=case)
                fi, fo = os.path.join(tmp, '%d.in' % i), os.path.join(tmp, '%d.out' % i)
                json.dump(sp, open(fi, 'w'))
                log = open(os.path.join(tmp, '%d.log' % i), 'w')
                e = dict(env, **s.get('env', {}))
                running.append((s, fo, log, subprocess.Popen([PY, os.path.join(HERE, 'mon', 'worker.py'), fi, fo], cwd=tmp,
                                                             env=e, stdout=log, stderr=subprocess.STDOUT)))
            time.sleep(0.05)
            for r in list(running):
                s, fo, log, p = r
                if p.poll() is None:
                    if time.time() - t0 > hard:
                        p.kill()
                        p.wait()
                        running.remove(r)
                        problems.append('shard %s: wall-clock watchdog' % s['name'])
                    continue
                running.remove(r)
                log.close()
                out = open(log.name).read()[-4000:]
                if os.path.exists(fo):
                    res = json.load(open(fo))
                    results.append(res)
                    problems += ['shard %s: %s' % (s['name'], x) for x in res['errors']]
                elif 'Sanitizer' in out or 'runtime error:' in out or p.returncode in (-11, -6, -7, -8, -4):
                    results.append(dict(shard=s['name'], config=s['config'], cases=0, evals=0, counts={}, distinct=[],
                                        samples=[], errors=[], wall=0, violations=[dict(
                                            key='crash', msg='process died (status %s) while executing the library' % p.returncode,
                                            case=None, seed=a.seed, shard=s['name'], config=s['config'], desc={}, details=dict(output=out))]))
                else:
                    problems.append('shard %s: worker died with status %s\n%s' % (s['name'], p.returncode, out))
    finally:
        for s, fo, log, p in running:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings(a.prop)
    viol, found = [], {}
    counts, distinct, samples = {}, set(), []
    for r in results:
        for v in r['violations']:
            if v['key'] in known:
                found[v['key']] = v
            else:
                viol.append(v)
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        distinct.update((r['config'],) + (d,) for d in r['distinct'])
        samples += r['samples'][:1]
    evals = sum(r['evals'] for r in results)
    cases = sum(r['cases'] for r in results)
    if not a.replay and not a.only_shard:
        for k, n in mod.get('min', {}).items():
            got = dict(counts, cases=cases, evaluations=evals, distinct=len(distinct)).get(k, 0)
            if got < n and not viol:
                problems.append('inconclusive: monitor counter %s is %d, at least %d needed' % (k, got, n))
        ev = dict(property=a.prop, tier=tier, seed=a.seed, level='exploration',
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=mod['rule'], samples=samples[:6] or ['none'],
                                cases=cases, observed=counts, shards=[dict(shard=r['shard'], config=r['config'], cases=r['cases'],
                                                                           evaluations=r['evals'], wall_s=round(r['wall'], 1)) for r in results]),
                  assumptions=mod.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for k in sorted(found):
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k, known[k]))
    print('%s tier=%s seed=%d: %d cases, %d oracle evaluations, %d distinct, %.1fs' % (a.prop, tier, a.seed, cases, evals, len(distinct), time.time() - t0))
    if a.v:
        for r in sorted(results, key=lambda r: -r['wall']):
            print('   %-28s %-5s cases %6d evals %8d  %.1fs' % (r['shard'], r['config'], r['cases'], r['evals'], r['wall']))
        print('   ', json.dumps(counts, sort_keys=True))
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for n, v in enumerate(viol):
            path = os.path.join(HERE, 'replays', '%s-%s-%s-%s-%d.json' % (a.prop, v['shard'], v['seed'], v['case'], n))
            v['tier'] = tier
            json.dump(v, open(path, 'w'), indent=1)
            if n < 10:
                print('  %s [%s %s case %s]: %s' % (v['key'], v['shard'], v['config'], v['case'], v['msg']))
                if a.v or n < 2:
                    print('     ' + json.dumps(v['details'])[:1500])
            if n == 0:
                first = path
        print('VIOLATION property=%s replay=%s' % (a.prop, first))
        return 1
    for p in problems:
        print('PROBLEM', p)
    return 2 if problems else 0


if __name__ == '__main__':
    sys.exit(main())
