"""Spin operators: two-site and total, on states and vectors."""
import numpy as np

from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two-site operators on every state of every size up to 8 sites (all ordered pairs of sites), up to 2 holes and 2 minority spins of 9 to 12 sites; S2, SzSz and S+S- on every unit vector (times 1, 1e-12, -1e-6, 1e5) and one vector with components from 1 to 1e-14 of every sector up to 6 sites; S2 on one vector of every sector of up to 400 states from 7 to 10 sites',
          'thorough': 'every state up to 10 sites; unit vectors up to 7 sites; sectors up to 3000 states up to 12 sites'}
ASSUMPTIONS = ['S+S- is asked for on two different sites.']


def units(tier):
    q = tier == 'quick'
    u = []
    for n in range(1, (8 if q else 10) + 1):
        u += [('states', n, ['full', h]) for h in range(n + 1)]
    for n in range(9, 13):
        u += [('states', n, ['few', h, k]) for h, k in ((0, 2), (1, 2), (2, 2), (3, 1))]
    for n in range(1, (6 if q else 7) + 1):
        u += [('vectors', n, h, b) for h, b in ref.sectors(n)]
    for n in range(7 if q else 8, (10 if q else 12) + 1):
        u += [('one', n, h, b) for h, b in ref.sectors(n) if ref.binom(n, h) * ref.binom(n - h, b) <= (400 if q else 3000)]
    u.sort(key=lambda x: -(ref.binom(x[1], x[2]) * ref.binom(x[1] - x[2], x[3]) if len(x) > 3 else 2 ** x[1]))
    return u


def states(ctx, n, mode):
    I = impl.itr()
    L = ref.Lat('periodic', n, 1, 1)
    M = L.matrix()
    confs = {}
    for o in space.states(L, mode):
        k = (o.count(0), o.count(-1))
        if k not in confs:
            confs[k] = impl.conf(L, k[0], k[1], None, M)
        c, d = confs[k], ref.det(o)
        ctx.states += 1
        for i in range(n):
            for j in range(n):
                ctx.replays += 2
                what = (d, k[0], k[1], i, j)
                ctx.close(I.compute_spins_z_two_bodies_det(c, d, i, j), o[i] * o[j] / 4, 'SzSz', 'state {} (holes={}, down={}) sites {} {}', *what)
                if i == j:
                    continue
                want = ref.s_plus_minus(o, i, j)
                got = I.compute_S_plus_S_minus_det(c, d, i, j)
                if want is not None:
                    ctx.transitions += 1
                ctx.same(None if not got else list(got), None if want is None else ref.det(want), 'S+S-', 'state {} (holes={}, down={}) sites {} {}', *what)
        ctx.check(d == ref.det(o), 'argument-changed', 'state {}', ref.det(o))
    ctx.sample('{} sites {}: every pair of sites'.format(n, mode))


def s2_matrix(sts, idx):
    import scipy.sparse as sp
    r, c, v = [], [], []
    for j, o in enumerate(sts):
        for p, x in ref.S2(o).items():
            r.append(idx[p])
            c.append(j)
            v.append(x / 4)
    return sp.csr_matrix((v, (r, c)), shape=(len(sts),) * 2)


def relative(ctx, got, S2, v, key, what, *args):
    """Element by element, within the rounding of the sum that makes the element."""
    got = np.asarray(got, dtype=float)
    want, size = S2 @ v, abs(S2) @ np.abs(v)
    ok = got.shape == want.shape and np.all(np.abs(got - want) <= 1e-12 * size)
    ctx.check(ok, key, what + ': elements beyond the rounding of their terms', *args)


def wide(d):
    """Components over fourteen orders of magnitude."""
    return np.array([[(-1.) ** (i // 2) * 10. ** -((5 * i) % 15) * (1 + .1 * (i % 7))] for i in range(d)])


def vectors(ctx, n, h, b):
    I = impl.itr()
    c = impl.conf(ref.Lat('periodic', n, 1, 1), h, b)
    sts, idx = ref.sector(n, h, b), ref.index(n, h, b)
    d = len(sts)
    S2 = s2_matrix(sts, idx)
    m = (n - h - 2 * b) / 2
    for k in range(d):
        v = np.zeros((d, 1))
        v[k] = 1.
        ctx.states += 1
        ctx.replays += 3
        what = 'state {} (holes={}, down={})'.format(ref.det(sts[k]), h, b)
        want = S2[:, [k]].toarray()
        ctx.transitions += int(np.count_nonzero(want))
        ctx.close(I.compute_S2(c, v.copy()), want, 'S2', what)
        ctx.close(I.compute_S2_exp_val(c, v * 2), want[k, 0], 'S2-mean', what)
        sz, w = I.compute_spin_z(c, v)
        ctx.close(sz, m, 'Sz', what)
        ctx.close(w, m * v, 'Sz', what)
        for scale in (1e-12, -1e-6, 1e5):
            ctx.replays += 2
            relative(ctx, I.compute_S2(c, v * scale), S2, v * scale, 'S2-scaled', '{} times {}', what, scale)
            ctx.close(I.compute_S2_exp_val(c, v * scale), want[k, 0], 'S2-mean', '{} times {}', what, scale)
    for i in range(n):
        for j in range(n):
            for k in range(min(d, 5)):
                v = np.zeros((d, 1))
                v[k] = -1e-8
                ctx.replays += 1
                ctx.close(I.compute_spins_z_two_bodies(c, v, i, j) * 1e8, v * 1e8 * sts[k][i] * sts[k][j] / 4, 'SzSz-vector', 'small {} sites {} {}', sts[k], i, j)
                p = ref.s_plus_minus(sts[k], i, j)
                if i != j:
                    want = np.zeros((d, 1))
                    if p is not None:
                        want[idx[p]] = -1
                    ctx.close(I.compute_S_plus_S_minus(c, v, i, j) * 1e8, want, 'S+S--vector', 'small {} sites {} {}', sts[k], i, j)
    ctx.replays += 1
    relative(ctx, I.compute_S2(c, wide(d)), S2, wide(d), 'S2-wide', '{} sites holes={} down={}, components from 1 to 1e-14', n, h, b)
    full = np.array([[(-1) ** (i % 3) * (1 + .3 * i)] for i in range(d)])
    for i in range(n):
        for j in range(n):
            ctx.replays += 2
            want = np.array([[full[k, 0] * o[i] * o[j] / 4] for k, o in enumerate(sts)])
            ctx.close(I.compute_spins_z_two_bodies(c, full, i, j), want, 'SzSz-vector', '{} sites holes={} down={} sites {} {}', n, h, b, i, j)
            if i == j:
                continue
            want = np.zeros((d, 1))
            for k, o in enumerate(sts):
                p = ref.s_plus_minus(o, i, j)
                if p is not None:
                    want[idx[p]] += full[k]
            ctx.close(I.compute_S_plus_S_minus(c, full, i, j), want, 'S+S--vector', '{} sites holes={} down={} sites {} {}', n, h, b, i, j)
    ctx.sample('{} sites holes={} down={}: every unit vector'.format(n, h, b))


def one(ctx, n, h, b):
    I = impl.itr()
    c = impl.conf(ref.Lat('periodic', n, 1, 1), h, b)
    sts, idx = ref.sector(n, h, b), ref.index(n, h, b)
    d = len(sts)
    S2 = s2_matrix(sts, idx)
    v = np.array([[(-1) ** (i % 3) * (1 + .1 * (i % 17))] for i in range(d)])
    ctx.states += d
    ctx.transitions += S2.nnz
    ctx.replays += 1
    keep = v.copy()
    got = I.compute_S2(c, v)
    ctx.close(got, S2 @ keep, 'S2', '{} sites holes={} down={}', n, h, b)
    relative(ctx, I.compute_S2(c, wide(d)), S2, wide(d), 'S2-wide', '{} sites holes={} down={}, components from 1 to 1e-14', n, h, b)
    ctx.check(np.array_equal(v, keep), 'argument-changed', 'S2 on {} sites', n)
    ctx.sample('{} sites holes={} down={}: one vector'.format(n, h, b))
