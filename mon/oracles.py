"""Offline oracles over recorded filter runs (see trace.py)."""
import numpy as np
from .trace import *


def expect_counts(c, w, idx, n, msg, key, **kw):
    """idx was drawn systematically (n draws) with log-weights w"""
    p = np.exp(norm(w))
    p = p / p.sum()
    cnt = np.bincount(np.asarray(idx, dtype=int), minlength=len(p))
    np_ = n * p
    eps = 1e-9 * n + 1e-9
    ok = np.all(cnt <= np.floor(np_ + 1 + eps)) and np.all(cnt >= np.ceil(np_ - 1 - eps)) and np.all(np.abs(cnt - np_) < 1 + eps)
    c.check(ok and cnt.sum() == n, msg, key, counts=cnt, expected=np_, **kw)
    c.check(not np.any(cnt[p == 0] > 0), 'a zero weight particle was selected', 'zero-weight', counts=cnt, **kw)


def from_pool(c, r, kind, rowidx, part, msg, key, t, match=lambda e: True):
    """the particles are, unchanged, ones the model produced in events of this
    kind, each used once"""
    pool = {}
    for e in r.tm.log:
        if e[0] == kind and match(e):
            for row in e[rowidx]:
                pool[row[ID]] = row[X]
    ids = part[:, ID]
    c.check(all(i in pool for i in ids) and len(set(ids)) == len(ids) and
            np.array_equal([pool.get(i, np.nan) for i in ids], part[:, X]), msg, key, step=t, ids=ids, produced=len(pool))


def step0(c, r, need_w=True):
    """initial step"""
    s = r.steps[0]
    filt = r.cfg['filter']
    if filt not in ('pfy', 'cpfyas'):
        free = r.cfg['N'] - (1 if filt[0] == 'c' else 0)
        c.check(len(s.part) == r.cfg['N'], 'wrong number of initial particles', 'init-count')
        from_pool(c, r, 'init', 2, s.part[:free], 'initial particles are not the ones created by the model', 'init', 0)
        c.check(np.all(s.part[:, TS] == 0), 'initial particles were propagated', 'init-ts')
        c.check(np.all(s.part[:, NM] == nmeas(r, 0)), 'initial measurement not applied exactly once', 'nm0')
        want = meas_ll(r, 0)
        if need_w and np.any(np.isfinite(want)):
            close_w(c, s.w, want, 'initial weights are not the likelihoods', key='w0')


def usable(r, t):
    """the weights of step t form a valid distribution"""
    return np.any(np.isfinite(r.steps[t].w)) and not np.any(np.isnan(r.steps[t].w))


def finite(c, s, t):
    return c.check(not np.any(np.isnan(s.w)) and not np.any(s.w == np.inf), 'NaN or +inf weight', 'nan', step=t, w=s.w)


def check_decision(c, r, t, selw, filt):
    """adaptive resampling at the transition to step t happened iff it had to;
    returns whether it happened"""
    N = r.cfg['N']
    anc = r.steps[t].anc
    flag = bool(r.flags[t - 1])
    ne = neff(selw)
    thr = r.cfg['res'] * N
    if not flag:
        c.check(np.array_equal(anc, np.arange(N)), 'not resampled but ancestors are not the identity', 'anc-identity', step=t, anc=anc)
    else:
        expect_counts(c, selw, anc, N, 'resampling is not proportional to the weights', 'res-counts', step=t)
    if abs(ne - thr) > 1e-7 * N:
        want = r.cfg['res'] > 0 and ne < thr
        c.check(flag == want, 'resampling decision differs from effective sample size test', 'decision', step=t, neff=ne, threshold=thr, resampled=flag)
        c.ctx.count('resampled' if flag else 'kept')
    return flag


def oracle_pf(c, r, weights=True, decision=True):
    step0(c, r, weights)
    for t in range(1, len(r.steps)):
        prev, cur = r.steps[t - 1], r.steps[t]
        anc = lineage(c, prev, cur, t)
        if anc is None:
            return
        flag = bool(r.flags[t - 1])
        if decision:
            check_decision(c, r, t, prev.w, 'pf')
        propagation(c, r, prev, cur, t, anc, np.arange(len(anc)))
        c.check(np.all(cur.part[:, NM] == nmeas(r, t)), 'measurement not applied exactly once to every particle', 'nm', step=t)
        ll = meas_ll(r, t)
        base = np.zeros(len(anc)) if flag else prev.w[anc]
        want = base + ll
        if weights and np.any(np.isfinite(want)):
            finite(c, cur, t)
            close_w(c, cur.w, want, 'weights are not prior weight times likelihood', key='weights', step=t, resampled=flag)
        c.ctx.count('steps_checked')
        c.ctx.distinct(r.cfg['filter'], r.cfg['N'], flag, r.meas[t][0] is None, len(r.meas[t]), r.cfg['prealloc'], r.cfg['meas_first'],
                       r.cfg['res'], r.cfg['sharp'], min(t, 4))


def oracle_apf(c, r, decision=True):
    step0(c, r)
    for t in range(1, len(r.steps)):
        prev, cur = r.steps[t - 1], r.steps[t]
        anc = lineage(c, prev, cur, t)
        if anc is None:
            return
        flag = bool(r.flags[t - 1])
        y = r.meas[t][0]
        l1 = np.zeros(len(anc)) if y is None else r.p.l1w(prev.part[:, X], r.u[t - 1], y, t - 1)
        if decision:
            check_decision(c, r, t, prev.w + l1, 'apf')
        propagation(c, r, prev, cur, t, anc, np.arange(len(anc)))
        c.check(np.all(cur.part[:, NM] == nmeas(r, t)), 'measurement not applied exactly once to every particle', 'nm', step=t)
        ll = meas_ll(r, t)
        want = ll - l1[anc] if flag else prev.w[anc] + ll
        if np.any(np.isfinite(want)):
            finite(c, cur, t)
            close_w(c, cur.w, want, 'first stage weights not divided out correctly', key='weights', step=t, resampled=flag)
        c.ctx.count('steps_checked')
        c.ctx.distinct('apf', r.cfg['N'], flag, y is None, r.cfg['prealloc'], r.cfg['meas_first'], r.cfg['res'], r.cfg['sharp'], min(t, 4))


def oracle_sir(c, r, decision=True):
    step0(c, r)
    for t in range(1, len(r.steps)):
        prev, cur = r.steps[t - 1], r.steps[t]
        anc = lineage(c, prev, cur, t)
        if anc is None:
            return
        flag = bool(r.flags[t - 1])
        if decision:
            check_decision(c, r, t, prev.w, 'sir')
        y = r.meas[t][0]
        pp = prev.part[anc]
        c.check(np.array_equal(cur.part[:, PAR], pp[:, ID]), 'recorded ancestor is not the particle the proposal was drawn for', 'parent', step=t)
        c.check(np.all(cur.part[:, NM] == 1), 'measurement not applied exactly once', 'nm', step=t)
        want = (np.zeros(len(anc)) if flag else prev.w[anc]) + r.p.ll_y(cur.part[:, X], y, t) + \
            r.p.lp_x(pp[:, X], cur.part[:, X], r.u[t - 1], t - 1) - r.p.lq(pp[:, X], cur.part[:, X], r.u[t - 1], y, t - 1)
        if np.any(np.isfinite(want)):
            finite(c, cur, t)
            close_w(c, cur.w, want, 'importance weights wrong', key='weights', step=t, resampled=flag)
        from_pool(c, r, 'qsample', 5, cur.part, 'particles are not the proposals drawn', 'proposal', t,
                  lambda e: np.array_equal(e[2], y) and tv(e[3]) == t - 1)
        c.ctx.count('steps_checked')
        c.ctx.distinct('sir', r.cfg['N'], flag, r.cfg['prealloc'], r.cfg['meas_first'], r.cfg['res'], r.cfg['sharp'], min(t, 4))


def check_propy(c, r, t, part):
    from_pool(c, r, 'propy', 4, part, 'particles are not the proposals drawn for the measurement of this step', 'propy', t,
              lambda e: np.array_equal(e[2], r.y[t]) and tv(e[3]) == t)


def oracle_pfy(c, r, decision=True):
    for t in range(0, len(r.steps)):
        cur = r.steps[t]
        check_propy(c, r, t, cur.part)
        if t == 0:
            close_w(c, cur.w, np.zeros(r.cfg['N']), 'initial weights not equal', key='w0')
            continue
        prev = r.steps[t - 1]
        anc = lineage(c, prev, cur, t)
        if anc is None:
            return
        flag = bool(r.flags[t - 1])
        if decision:
            check_decision(c, r, t, prev.w, 'pfy')
        want = (np.zeros(len(anc)) if flag else prev.w[anc]) + r.p.lp_x(xeff(r, t - 1)[anc], cur.part[:, X], r.u[t - 1], t - 1)
        finite(c, cur, t)
        close_w(c, cur.w, want, 'weights are not prior weight times transition density', key='weights', step=t, resampled=flag)
        c.ctx.count('steps_checked')
        c.ctx.distinct('pfy', r.cfg['N'], flag, r.cfg['prealloc'], r.cfg['meas_first'], r.cfg['res'], r.cfg['sharp'], min(t, 4))


def oracle_cond(c, r, ctraj, ctraj_copy, pits=None):
    filt = r.cfg['filter']
    N = r.cfg['N']
    for t, (a, b) in enumerate(zip(ctraj, ctraj_copy)):
        c.check(np.array_equal(a.pa.part, b), 'conditioned trajectory was modified', 'ctraj-modified', step=t)
    step0(c, r, need_w=True)
    cols = [X, ID, PAR, TS]
    for t in range(0, len(r.steps)):
        cur = r.steps[t]
        c.check(np.array_equal(cur.part[-1, cols], ctraj_copy[t][0, cols]), 'last particle is not the conditioned state', 'cond-state', step=t,
                got=cur.part[-1], want=ctraj_copy[t][0])
        if filt == 'cpfyas':
            check_propy(c, r, t, cur.part[:-1])
        if t == 0:
            continue
        prev = r.steps[t - 1]
        if not usable(r, t - 1):
            return
        anc = lineage(c, prev, cur, t)
        if anc is None:
            return
        c.check(bool(r.flags[t - 1]), 'conditional filters resample every step but did not report it', 'flag', step=t)
        expect_counts(c, prev.w, anc[:-1], N - 1, 'free particles not resampled in proportion to the weights', 'res-counts', step=t)
        y = r.meas[t][0]
        sel = np.arange(N - 1)
        ctx_ = ctraj_copy[t][0, X]
        lpc = prev.w + r.p.lp_x(xeff(r, t - 1), ctx_, r.u[t - 1], t - 1)
        if filt == 'cpf':
            c.check(anc[-1] == N - 1, 'ancestor of the conditioned state is not the conditioned state', 'cond-anc', step=t)
        elif np.any(np.isfinite(lpc)):
            c.check(np.isfinite(lpc[anc[-1]]), 'ancestor of conditioned state has zero probability', 'cond-anc-zero', step=t)
            if pits is not None:
                pits.add('ancestor of the conditioned state (%s)' % filt, np.exp(norm(lpc)), anc[-1])
                # the free particles: their number of ancestors is checked above
        xx, pp = cur.part[:, X], xeff(r, t - 1)[anc]
        if filt in ('cpf', 'cpfas'):
            propagation(c, r, prev, cur, t, anc, sel)
            want = np.zeros(N) if y is None else r.p.ll_y(xeff(r, t), y, t)
            c.check(np.all(cur.part[:, NM] == nmeas(r, t)), 'measurement not applied exactly once', 'nm', step=t)
        elif filt == 'csiras':
            c.check(np.array_equal(cur.part[:-1, PAR], prev.part[anc[:-1], ID]), 'recorded ancestor is not the particle the proposal was drawn for', 'parent', step=t)
            from_pool(c, r, 'qsample', 5, cur.part[:-1], 'particles are not the proposals drawn', 'proposal', t,
                      lambda e: np.array_equal(e[2], y) and tv(e[3]) == t - 1)
            want = r.p.ll_y(xx, y, t) + r.p.lp_x(pp, xx, r.u[t - 1], t - 1) - r.p.lq(pp, xx, r.u[t - 1], y, t - 1)
        else:
            want = r.p.lp_x(pp, xx, r.u[t - 1], t - 1)
        if np.any(np.isfinite(want)):
            finite(c, cur, t)
            close_w(c, cur.w, want, 'weights wrong in conditional filter', key='weights', step=t)
        c.ctx.count('steps_checked')
        c.ctx.distinct(filt, N, y is None, r.cfg['prealloc'], r.cfg['meas_first'], r.cfg['sharp'], min(t, 4))


ORACLE = dict(pf=oracle_pf, apf=oracle_apf, sir=oracle_sir, pfy=oracle_pfy)
