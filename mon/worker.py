import contextlib, importlib, io, json, os, sys, warnings
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
warnings.simplefilter('ignore')


def main():
    spec = json.load(open(sys.argv[1]))
    from mon import core
    core.use_config(spec['config'], spec.get('extdir'))
    import numpy as np
    np.seterr(all='ignore')
    buf = io.StringIO()
    mod = importlib.import_module('mon.checks.' + spec['prop'].lower())
    ctx = core.Ctx(spec['prop'], spec['shard'], spec['params'], spec['config'], spec['seed'], spec['tier'],
                   only=spec.get('case'), budget=spec.get('budget'))
    ctx.spec = spec
    try:
        with contextlib.redirect_stdout(buf):
            getattr(mod, 'run_' + spec['params'].get('fn', 'main'))(ctx, **{k: v for k, v in spec['params'].items() if k != 'fn'})
    except core.Stop:
        pass
    except Exception:
        import traceback
        ctx.errors.append('shard failed:\n' + traceback.format_exc()[-3000:])
    with open(sys.argv[2] + '.tmp', 'w') as f:
        json.dump(ctx.result(), f)
    os.rename(sys.argv[2] + '.tmp', sys.argv[2])


main()
