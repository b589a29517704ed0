"""The phase diagram: energy and spin of a state at every point of the grid of repulsion and hopping, for every sector of spins."""
import os

import numpy as np

from .. import ham, impl, plots, ref, space, store
from .c21 import s2_matrix

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every number of holes of the rectangular lattices up to 4 sites (sectors up to 12 states), one electron on 5 and 6 sites, the states 0, 1 and 2, three grids, three selections of terms, two signs of J; every point of the grid of every sector of spins',
          'thorough': 'every sector up to 5 sites, grids up to 6 by 6'}
ASSUMPTIONS = ['Pictures are read from the figure when it is saved.', 'Next neighbour hoppings and the diagonal repulsion follow the hopping and the repulsion in the fixed ratios of the code; spins are compared where the state is alone at its energy.']
SELS = (impl.ALL, ('bt', 'bz', 'bij', 'bV'), ('bt', 'bz', 'bij', 'btN'))


def units(tier):
    u = []
    for s in space.all_specs('periodic', 1, 4 if tier == 'quick' else 5):
        n = ref.Lat(*s).n
        u += [('run', s, h, k) for h in range(n + 1) for k in (0, 1, 2)]
    if tier == 'quick':
        u += [('run', s, 5, k) for s in (['periodic', 3, 2, 1], ['periodic', 2, 3, 1]) for k in (0, 1)] + [('run', ['periodic', 5, 1, 1], 4, 1)]
    u.sort(key=lambda x: -ref.Lat(*x[1]).n)
    return u


def run(ctx, spec, h, k):
    pP = impl.mod('postProcessing')
    L = ref.Lat(*spec)
    folder = 'tJ-HamCsr/tJ-H{}/PhaseDiagrams'.format(L.n)
    os.makedirs(folder)
    P = {b: ham.parts(L, h, b) for b in range(L.n - h + 1)}
    S2 = {b: s2_matrix(ref.sector(L.n, h, b), ref.index(L.n, h, b)).toarray() for b in P}
    for j, (nx, ny) in enumerate(((2, 3), (4, 2), (3, 5))):
        for i, sel in enumerate(SELS):
            for v in (impl.PHYSICAL, impl.OPPOSITE)[:1 if (i + j) % 3 else 2]:
                start = (h + j) % (L.n - h + 1)
                dt = store.data(L, h, start, v, sel, None, True, 1, 3000, 1e-9)
                before = [dict(vars(x)) for x in (dt.configuration, dt.interactions, dt.bool_interactions, dt.diagonalization)]
                np.random.seed(5)
                what = '{} holes={} terms={} state {} on {}x{} points'.format(L, h, sel, k, nx, ny)
                with plots.Pictures() as pics:
                    pP.save_phase_space(dt, k, ny, nx)
                ctx.replays += 1
                now = [vars(x) for x in (dt.configuration, dt.interactions, dt.bool_interactions, dt.diagonalization)]
                ctx.check(all(np.array_equal(np.asarray(p[q], dtype=object), np.asarray(r[q], dtype=object)) for p, r in zip(before, now) for q in p), 'request-changed', what)
                names = ['{}/tJ-H{}{}{}.png'.format(folder, L.n, L.n - h - b, b) for b in P]
                ctx.same(sorted(f for f, _ in pics.saved), sorted(names), 'files', what)
                for b, name in zip(P, names):
                    fig = pics.one(name)
                    if fig is not None:
                        one(ctx, '{} down={}'.format(what, b), [ax for ax in fig if ax['title']], P[b], S2[b], v, sel, k, np.linspace(0, 15, nx), np.linspace(-5, 0, ny))
    ctx.sample('{} holes={} state {}'.format(L, h, k))


def one(ctx, what, axes, P, S2, v, sel, k, xs, ys):
    if not ctx.check(len(axes) == 2 and all(len(a['meshes']) == 1 and a['meshes'][0][2] is not None and a['meshes'][0][2].shape == (len(ys), len(xs)) for a in axes), 'pictures', what):
        return
    E, S = axes[0]['meshes'][0], axes[1]['meshes'][0]
    ctx.check(np.allclose(E[0], xs) and np.allclose(E[1], ys) and np.allclose(S[0], xs) and np.allclose(S[1], ys), 'grid', what)
    for x in xs:
        for y in ys:
            ctx.states += 1
            ctx.transitions += 2
            t, V = y * v['J'], x * v['J']
            w = dict(v, t=t, tNNN=-13 * t / 55, tnNNN=36 * t / 55, VNN=V, VNNNper=.79 / 1.77 * V)
            H = ham.combine(P, w, sel)
            H = np.asarray(H.todense()) if hasattr(H, 'todense') else H
            at = '{} V/J={} t/J={}'.format(what, x, y)
            if k >= len(H):
                ctx.same((plots.at(E, x, y), plots.at(S, x, y)), (0., 0.), 'missing-state', at)
                continue
            e, U = np.linalg.eigh(H)
            if np.ptp(np.diag(H)) > 0 and not np.all(np.any(H - np.diag(np.diag(H)), axis=1)):
                ctx.add('points_with_frozen_states')
                ctx.check(np.min(np.abs(e - plots.at(E, x, y))) < 1e-6, 'energy', '{}: {} is no energy', at, plots.at(E, x, y))
                continue
            if not ctx.close(plots.at(E, x, y), e[k], 'energy', at, tol=1e-6):
                continue
            if np.sum(np.abs(e - e[k]) < 1e-4) == 1:
                s = plots.at(S, x, y)
                s2 = U[:, k] @ S2 @ U[:, k]
                exact = (np.sqrt(1 + 4 * max(s2, 0)) - 1) / 2
                if abs(exact * 2 - round(exact * 2)) < 1e-6:
                    ctx.check(abs(s - exact) < 1e-6, 'spin', '{}: spin {} for <S2>={}', at, s, s2)
