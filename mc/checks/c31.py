"""Dynamic embedding: the dressing of the block by the moves of a hole into the copy and back, every iterate."""
import os

import numpy as np

from .. import embed, impl, ref, space, store
from .c27 import blocks_name

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every rectangular block of 1 to 4 sites (of up to 12 states), next to one copy or, for square blocks, among four; copies with reversed spins or not; thresholds 0, 1e-6, 1e-3 and infinite; two selections of terms and coupling vectors; one and two iterations',
          'thorough': 'every sector up to 30 states of blocks up to 5 sites; one to three iterations'}
ASSUMPTIONS = ['The dressing that is specified is the one through states in which a hole has moved from the block into the copy; it is the same whatever the selected terms of the block.',
               'Ground states separated by 1e-3 from the next state, no isolated states, energy differences above 1e-6, no coupling within 1e-9 of the threshold (others are counted as left out).']


def units(tier):
    q = tier == 'quick'
    u = []
    for s in space.all_specs('periodic', 1, 4 if q else 5):
        L = ref.Lat(*s)
        for h, b in ref.sectors(L.n):
            d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
            if d <= (12 if q else 30):
                for reverse in (True, False):
                    u.append(('run', s, h, b, True, reverse, tier))
                    if L.W == L.H:
                        u.append(('run', s, h, b, False, reverse, tier))
    u.sort(key=lambda x: (x[4], -ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3])))
    return u


def run(ctx, spec, h, b, neighbor, reverse, tier):
    L = ref.Lat(*spec)
    cases = [(impl.ALL, 'physical', impl.PHYSICAL, m, thr) for m, thr in ((1, 0.), (1, None), (2, 1e-6), (1, 1e-3), (1, np.inf))]
    cases += [(('bt', 'bz', 'bij'), 'opposite', impl.OPPOSITE, m, thr) for m, thr in ((1, 0.), (2, 1e-3))]
    if tier != 'quick':
        cases += [(impl.ALL, 'generic', impl.GENERIC, m, thr) for m, thr in ((1, 0.), (2, 1e-4), (3, 0.))]
    elif L.n == 4 and not neighbor:
        cases = cases[:1] + cases[3:4] + cases[5:6]
    for sel, vn, v, m, thr in cases:
        for f in store.listing():
            os.remove(f)
        embed.compute_and_save(spec, h, b, v, sel)
        H, its = embed.blocks(spec, h, b, v, sel, 1, neighbor, reverse)
        e, V, gap = embed.lowest(H)
        gs, energy = V[:, 0], e[0]
        ok, cur = True, None
        start = gs
        for k in range(m):
            if gap < embed.GAP:
                ok = False
                break
            f = embed.blocks(spec, h, b, v, sel, 1, neighbor, reverse, start=gs)[1][0]['f']
            D, small = embed.dressing(spec, h, b, v, gs, energy, neighbor, reverse, 1e-6 if thr is None else thr)
            if small < 1e-6:
                ok = False
                break
            cur = H + np.diag(f) + D
            e, V, gap = embed.lowest(cur)
            if gap < embed.GAP or embed.isolated(cur) or abs(V[:, 0] @ start) < .01:
                ok = False
                break
            gs, energy = V[:, 0], e[0]
        if not ok:
            ctx.add('left_out')
            continue
        dt = store.data(L, h, b, v, sel, stp=2000, tol=1e-10)
        what = '{} holes={} down={} terms={} {} couplings, {}, {} copies, {} iterations, threshold {}'.format(
            L, h, b, sel, vn, 'one neighbour' if neighbor else 'four neighbours', 'reversed' if reverse else 'plain', m, thr)
        kw = {} if thr is None else {'threshold_mel': thr}
        r = impl.emb().embedding_blocks(dt, 0., m, True, False, neighbor, reverse_spins=reverse, **kw)
        ctx.states += 1
        ctx.transitions += m * int(np.count_nonzero(D))
        ctx.replays += 1
        ctx.add('dressed', int(np.abs(D).max() > 0))
        A = r.hamiltonian.toarray()
        ctx.check(np.abs(A - A.T).max() < 1e-9, 'hermitian', '{}: the dressed Hamiltonian is not symmetric'.format(what))
        ctx.close(A, cur, 'dressed-hamiltonian', what + ': dressed Hamiltonian', tol=1e-6)
        ctx.close(r.eigenstates.eigvals, e[:1], 'energy', what, tol=1e-6)
        W = np.asarray(r.eigenstates.eigvects)
        ctx.check(W.shape == (len(H), 1) and embed.change(W[:, 0], gs) < 1e-5, 'ground-state', what)
        want = os.path.join(store.FOLDER, 'Embedding_blocks', blocks_name(L.n, L.n - h - b, b, sel, (True, False, neighbor)))
        new = [f for f in store.listing() if 'Embedding_blocks' in f]
        if ctx.same(new, [want], 'saved-file', '{}: files written'.format(what)):
            bad = store.diff(store.snapshot(r), store.snapshot(impl.iC().load_data(os.path.relpath(want, store.FOLDER))))
            ctx.check(not bad, 'saved-result', '{}: the file holds another {}'.format(what, bad))
    ctx.sample('{} holes={} down={} {}'.format(L, h, b, 'one neighbour' if neighbor else 'four neighbours'))
