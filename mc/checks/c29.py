"""Embedding in an alternating ring: every iterate of the self-consistent field against dense matrices."""
import os

import numpy as np

from .. import embed, ham, impl, ref, space, store

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of up to 40 states of every rectangular block of 1 to 5 sites and of the 2x3 and 3x2 ones, four selections of terms, one to two coupling vectors, the iterates 1, 2 and 4 of the field, three tolerances of self-consistency, with and without an initial guess',
          'thorough': 'sectors up to 150 states of blocks up to 8 sites, and the 3x3 block with a hole and one spin down; iterates up to 8'}
ASSUMPTIONS = ['The ground state of every iterate is separated from the next state by 1e-3 (others are counted as left out), and no state is isolated: elsewhere the result depends on the random guess.',
               'A state of the explored system is the field on the ring, a transition one self-consistent iteration.',
               'The convergence test depends on the arbitrary sign of eigenvectors, so stopping later than the first converged iterate is accepted.']


def units(tier):
    q = tier == 'quick'
    u = []
    for s in space.all_specs('periodic', 1, 6 if q else 8):
        n = ref.Lat(*s).n
        if q and n == 6 and 6 in s:
            continue
        for h, b in ref.sectors(n):
            d = ref.binom(n, h) * ref.binom(n - h, b)
            if d <= (40 if q else 150):
                u.append(('run', s, h, b, tier))
    if not q:
        u += [('run', ['periodic', 1, 1, 3], 1, 1, tier), ('run', ['periodic', 3, 3, 1], 1, 1, tier)]
    u.sort(key=lambda x: -ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3]))
    return u


def same_result(ctx, key, what, L, h, b, r, H, it, nb_val):
    """The result is the given iterate; the Hamiltonian it carries is H."""
    kk = min(nb_val, len(H))
    ok = ctx.close(r.eigenstates.eigvals, it['e'][:kk], key + '-energies', what + ': energies', tol=1e-6)
    V = np.asarray(r.eigenstates.eigvects)
    if not ctx.same(V.shape, (len(H), kk), key + '-shape', what + ': shape of the states'):
        return False
    ok &= ctx.check(np.abs(it['A'] @ V - V * np.array(r.eigenstates.eigvals)).max() < 1e-5, key + '-states', what + ': not eigenstates of the embedded block')
    ok &= ctx.check(embed.change(V[:, 0], it['v'][:, 0]) < 1e-5, key + '-ground-state', what + ': ground state')
    ctx.same([list(d) for d in r.determinants], [ref.det(o) for o in ref.sector(L.n, h, b)], key + '-basis', what + ': basis')
    ham.compare(ctx, key + '-hamiltonian', what, r.hamiltonian, H)
    return bool(ok)


def matches(r, it, nb_val):
    e = np.array(r.eigenstates.eigvals)
    w = it['e'][:len(e)]
    return e.shape == w.shape and np.abs(e - w).max() < 1e-6 and embed.change(np.asarray(r.eigenstates.eigvects)[:, 0], it['v'][:, 0]) < 1e-5


def run(ctx, spec, h, b, tier):
    L = ref.Lat(*spec)
    counts = (1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 6, 8)
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    for sel in embed.SELS:
        for vn, v in (('physical', impl.PHYSICAL), ('generic', impl.GENERIC))[:2 if sel == impl.ALL or tier != 'quick' else 1]:
            for f in store.listing():
                os.remove(f)
            embed.compute_and_save(spec, h, b, v, sel)
            H, its = embed.neel(spec, h, b, v, sel, max(counts))
            good = 0
            for it in its:
                # the iterates before this one must be well defined too
                if it['gap'] < embed.GAP or embed.isolated(it['A']):
                    break
                good += 1
            ctx.add('iterates_left_out', len(its) - good)
            plain = store.listing()
            for m, tol, nb in [(m, 0., 10) for m in counts] + [(3, 1e9, 10), (max(counts), 1e-2, 10), (2, 0., 1)]:
                if m > good:
                    continue
                np.random.seed(11)
                dt = store.data(L, h, b, v, sel, stp=2000, tol=1e-10, guess=np.ones((d, 1)) if m == 2 else None)
                what = '{} holes={} down={} terms={} {} couplings, at most {} iterations, tolerance {}'.format(L, h, b, sel, vn, m, tol)
                kw = {} if nb == 10 else {'nb_val': nb}
                r = impl.emb().embedding_neel(dt, tol, m, **kw)
                ctx.states += 1
                ctx.transitions += m
                ctx.replays += 1
                first = next((k for k, it in enumerate(its[:m]) if it['change'] < tol), m - 1)
                if tol == 0. or first == m - 1:
                    if not same_result(ctx, 'iterate', what, L, h, b, r, H, its[m - 1 if tol == 0. else first], nb):
                        return
                else:
                    k = next((k for k in range(first, m) if matches(r, its[k], nb)), None)
                    if not ctx.check(k is not None, 'converged', '{}: the result is none of the iterates {} to {}'.format(what, first + 1, m)):
                        return
                    same_result(ctx, 'converged', what, L, h, b, r, H, its[k], nb)
                now = store.listing()
                new = [f for f in now if f not in plain]
                want = os.path.join(store.FOLDER, 'Peripheral_embedding', store.name(L.n, L.n - h - b, b, sel))
                ctx.same(new, [want], 'saved-file', '{}: files written'.format(what))
                ctx.check(all(now[f] == plain[f] for f in plain), 'block-file-changed', what)
                if new == [want]:
                    q = impl.iC().load_data(os.path.relpath(want, store.FOLDER))
                    bad = store.diff(store.snapshot(r), store.snapshot(q))
                    ctx.check(not bad, 'saved-result', '{}: the file holds another {}'.format(what, bad))
                    os.remove(want)
    ctx.sample('{} holes={} down={}'.format(L, h, b))
