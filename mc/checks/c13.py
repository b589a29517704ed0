"""Symmetries of the Hamiltonian: Hermitian, invariant under reversal of spins, lattice isometries and spin rotations."""
import numpy as np

from .. import ham, impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every lattice up to 5 sites for all 64 selections of terms; every sector of up to 250 states up to 9 sites (150 up to 14) for the full model and each term; all isometries of the lattice; two coupling vectors',
          'thorough': 'all 64 selections up to 7 sites; sectors of up to 2000 states up to 12 sites'}
ASSUMPTIONS = ['Spin rotation invariance is asked for only when the static and flip parts of the exchange are selected together.']


def units(tier):
    q = tier == 'quick'
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 5 if q else 7):
            n = ref.Lat(*s).n
            u += [('run', s, h, b, 'all') for h, b in ref.sectors(n)]
        for s in space.all_specs(kind, 6 if q else 8, 14 if q else 16):
            n = ref.Lat(*s).n
            u += [('run', s, h, b, 'terms') for h, b in ref.sectors(n) if ref.binom(n, h) * ref.binom(n - h, b) <= ((250 if n < 10 else 150) if q else 2000 if n < 13 else 300)]
    u.sort(key=lambda x: -ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3]))
    return u


def run(ctx, spec, h, b, which):
    import scipy.sparse as sp
    L = ref.Lat(*spec)
    M = impl.built_matrix(L)
    states = ref.sector(L.n, h, b)
    idx = ref.index(L.n, h, b)
    d = len(states)
    ctx.states += d
    perms = []
    for g in L.symmetries()[1:]:
        p = []
        for o in states:
            new = [None] * L.n
            for i, x in enumerate(o):
                new[g[i]] = x
            p.append(idx[tuple(new)])
        perms.append((g, np.array(p)))
    other = ref.index(L.n, h, L.n - h - b)
    rev = np.array([other[tuple(-x for x in o)] for o in states])
    rows, cols, vals = [], [], []
    for i, o in enumerate(states):
        for p, v in ref.S2(o).items():
            rows.append(i)
            cols.append(idx[p])
            vals.append(v / 4)
    S2 = sp.csr_matrix((vals, (rows, cols)), shape=(d, d))
    sels = impl.subsets(impl.ALL) if which == 'all' else [impl.ALL] + [(f,) for f in ('bt', 'btN', 'bSD', 'bV')] + [('bz',), ('bij',), ('bz', 'bij')]
    for sel in sels:
        for v in (impl.GENERIC, impl.OPPOSITE):
            H = ham.build(L, h, b, v, sel, matrix=M).tocsr()
            R = ham.build(L, h, L.n - h - b, v, sel, matrix=M).tocsr()
            what = '{} holes={} down={} terms={}'.format(L, h, b, sel)
            ctx.replays += 1
            ctx.transitions += H.nnz * (2 + len(perms))
            zero(ctx, 'hermitian', what, H - H.T)
            zero(ctx, 'spin-reversal', what, H - R[rev][:, rev])
            for g, p in perms:
                zero(ctx, 'isometry', '{} isometry {}'.format(what, g), H - H[p][:, p])
            if ('bz' in sel) == ('bij' in sel):
                zero(ctx, 'spin-rotation', what, H @ S2 - S2 @ H)
    ctx.sample('{} holes={} down={}: {} isometries, {} selections'.format(L, h, b, len(perms), len(sels)))


def zero(ctx, key, what, m):
    if m.nnz and abs(m).max() > 1e-9:
        m = m.tocoo()
        k = int(np.argmax(np.abs(m.data)))
        ctx.fail(key, '{}: not invariant, element ({}, {}) differs by {}'.format(what, m.row[k], m.col[k], m.data[k]))
