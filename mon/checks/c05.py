from ..trace import *
from .. import oracles as O


def run_main(ctx, n=400, filters=('pf',)):
    for c in ctx.cases(n):
        with c:
            filt = filters[c.idx % len(filters)]
            cfg = gen_cfg(c.rng, filt, big=True, memory=True)
            c.note(**cfg)
            r = drive(cfg, c.rng)
            O.ORACLE[filt](c, r)
