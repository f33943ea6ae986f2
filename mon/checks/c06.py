import numpy as np
from ..core import Pits
from ..trace import *
from .. import oracles as O


def run_main(ctx, n=400, filters=('cpf', 'cpfas', 'cpfyas', 'csiras')):
    pits = Pits(np.random.RandomState(ctx.seed))
    for c in ctx.cases(n):
        with c:
            filt = filters[c.idx % len(filters)]
            cfg = gen_cfg(c.rng, filt, memory=True)
            c.note(**cfg)
            ct = cond_traj(c.rng, cfg['T'] + 1)
            cc = [s.pa.part.copy() for s in ct]
            r = drive(cfg, c.rng, {'cond_traj': ct})
            O.oracle_cond(c, r, ct, cc, pits)
    for c in ctx.cases(n + 1):
        if c.idx == n:
            with c:
                pits.judge(c)
