"""Embedding between copies of the block: every iterate of the self-consistent field against dense matrices."""
import os

import numpy as np

from .. import embed, ham, impl, ref, space, store
from .c27 import blocks_name
from .c29 import matches, same_result

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of up to 60 states of every rectangular block of 1 to 5 sites and of the 2x3 and 3x2 ones next to one copy of itself, and of the square blocks of 1 and 4 sites (and one sector of 9) among four; copies with reversed spins or not; after the ring embedding or not; four selections of terms, one to two coupling vectors; the iterates 1, 2 and 4, three tolerances of self-consistency',
          'thorough': 'sectors up to 150 states of blocks up to 8 sites and three sectors of the 3x3 block; iterates up to 8'}
ASSUMPTIONS = ['The ground state of every iterate is separated from the next state by 1e-3 and overlaps the ground state of the block it is searched from by 0.01 (others are counted as left out), and no state is isolated.',
               'The field of four copies is the sum of the field of one copy over the four quarter turns, for square blocks.',
               'A state of the explored system is the field of the copies, a transition one self-consistent iteration.',
               'The convergence test depends on the arbitrary sign of eigenvectors, so stopping later than the first converged iterate is accepted.']


def units(tier):
    q = tier == 'quick'
    u = []
    for s in space.all_specs('periodic', 1, 6 if q else 8):
        L = ref.Lat(*s)
        if q and L.n == 6 and 6 in s:
            continue
        for h, b in ref.sectors(L.n):
            d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
            if d <= (60 if q else 150):
                u.append(('run', s, h, b, True, tier))
                if L.W == L.H:
                    u.append(('run', s, h, b, False, tier))
    u += [('run', s, 1, k, False, tier) for s in (['periodic', 3, 3, 1], ['periodic', 1, 1, 3]) for k in ((1,) if q else (1, 2))]
    u.sort(key=lambda x: -ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3]))
    return u


def run(ctx, spec, h, b, neighbor, tier):
    L = ref.Lat(*spec)
    counts = (1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 6, 8)
    if L.n == 9:
        counts = (2,)
    for si, sel in enumerate(embed.SELS):
        for vn, v in (('physical', impl.PHYSICAL), ('generic', impl.GENERIC))[:2 if sel == impl.ALL or tier != 'quick' else 1]:
            for neel, reverse in ((False, True), (False, False), (True, True)):
                if tier == 'quick' and L.n > 5 and (neel or not reverse) and si:
                    continue
                for f in store.listing():
                    os.remove(f)
                embed.compute_and_save(spec, h, b, v, sel, peripheral=neel)
                H, its = embed.blocks(spec, h, b, v, sel, max(counts), neighbor, reverse)
                e, gs, gap0 = embed.lowest(H)
                good = 0
                for it in its:
                    if it['gap'] < embed.GAP or embed.isolated(it['A']) or abs(it['v'][:, 0] @ gs[:, 0]) < .01 or gap0 < embed.GAP:
                        break
                    good += 1
                ctx.add('iterates_left_out', len(its) - good)
                plain = store.listing()
                for m, tol in [(m, 0.) for m in counts] + [(3, 1e9), (max(counts), 1e-2)]:
                    if m > good:
                        continue
                    dt = store.data(L, h, b, v, sel, stp=2000, tol=1e-10)
                    what = '{} holes={} down={} terms={} {} couplings, {}, {} copies{}, at most {} iterations, tolerance {}'.format(
                        L, h, b, sel, vn, 'one neighbour' if neighbor else 'four neighbours', 'reversed' if reverse else 'plain', ' after ring' if neel else '', m, tol)
                    r = impl.emb().embedding_blocks(dt, tol, m, False, neel, neighbor, reverse_spins=reverse)
                    ctx.states += 1
                    ctx.transitions += m
                    ctx.replays += 1
                    first = next((k for k, it in enumerate(its[:m]) if it['change'] < tol), m - 1)
                    if tol == 0. or first == m - 1:
                        it = its[m - 1 if tol == 0. else first]
                    else:
                        k = next((k for k in range(first, m) if matches(r, its[k], 1)), None)
                        if not ctx.check(k is not None, 'converged', '{}: the result is none of the iterates {} to {}'.format(what, first + 1, m)):
                            return
                        it = its[k]
                    ctx.close(r.hamiltonian.toarray(), it['A'], 'embedded-hamiltonian', what + ': embedded Hamiltonian', tol=1e-5)
                    if not ctx.close(r.eigenstates.eigvals, it['e'][:1], 'energy', what + ': energy', tol=1e-6):
                        return
                    V = np.asarray(r.eigenstates.eigvects)
                    ctx.check(V.shape == (len(H), 1) and embed.change(V[:, 0], it['v'][:, 0]) < 1e-5, 'ground-state', what)
                    ctx.same([list(x) for x in r.determinants], [ref.det(o) for o in ref.sector(L.n, h, b)], 'basis', what + ': basis')
                    now = store.listing()
                    new = [f for f in now if f not in plain]
                    want = os.path.join(store.FOLDER, 'Embedding_blocks', blocks_name(L.n, L.n - h - b, b, sel, (False, neel, neighbor)))
                    ctx.same(new, [want], 'saved-file', '{}: files written'.format(what))
                    ctx.check(all(now[f] == plain[f] for f in plain), 'block-file-changed', what)
                    if new == [want]:
                        q = impl.iC().load_data(os.path.relpath(want, store.FOLDER))
                        bad = store.diff(store.snapshot(r), store.snapshot(q))
                        ctx.check(not bad, 'saved-result', '{}: the file holds another {}'.format(what, bad))
                        os.remove(want)
    ctx.sample('{} holes={} down={} {}'.format(L, h, b, 'one neighbour' if neighbor else 'four neighbours'))
