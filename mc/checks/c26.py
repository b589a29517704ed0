"""Saving then loading a result gives the result back, bit for bit."""
import numpy as np

from .. import impl, ops, ref, space, store

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every lattice of 1 to 6 sites and of up to 250 states of 16 lattices of 10 to 25 sites with awkward numbers, with and without times, every subset of sites as restriction up to 3 sites (pairs of subsets up to 2), all 64 selections of terms with both extra options up to 2 sites; really computed results of every sector up to 5 sites; each saved, loaded, saved again and loaded again',
          'thorough': 'every sector up to 8 sites; every subset up to 4 sites, pairs up to 3; computed results up to 6 sites'}
ASSUMPTIONS = ['The folder of results exists; the initial guess of the diagonalisation is dropped on purpose.']
SEL = ('bt', 'bij', 'bz')


def units(tier):
    top, comp = (6, 5) if tier == 'quick' else (8, 6)
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, top):
            n = ref.Lat(*s).n
            u.append(('sectors', s, tier))
            if n <= 2:
                u.append(('selections', s))
            if n <= comp:
                u.append(('computed', s))
    u += [('sectors', s, tier) for s in ops.LONG]
    return u


def cycle(ctx, r, what, n, na, nb, sel):
    I = impl.iC()
    import os
    want = store.snapshot(r)
    r.data.diagonalization.initial_guess = None
    want['diagonalization']['initial_guess'] = None
    before = store.listing()
    I.save_data(r)
    first = store.listing()
    new = sorted(p for p in first if first[p] != before.get(p))
    ctx.states += 1
    ctx.transitions += 4
    ctx.replays += 1
    bad = store.diff(want, store.snapshot(r))
    ctx.check(not bad, 'saving-changes-result', '{}: saving changed {} of the result in memory'.format(what, bad))
    f = os.path.join(store.FOLDER, store.name(n, na, nb, sel))
    if not ctx.same(new or [f], [f], 'file', '{}: files written'.format(what)):
        return
    q = I.load_data(os.path.basename(f))
    got = store.snapshot(q)
    bad = store.diff(want, got)
    if bad:
        ctx.fail('round-trip', '{}: {} differ after loading: {} instead of {}'.format(what, bad, str(got[bad[0]])[:300], str(want[bad[0]])[:300]))
        return
    I.save_data(q)
    ctx.check(store.listing()[f] == first[f], 'second-save', '{}: saving what was loaded writes another file'.format(what))
    ctx.check(not store.diff(want, store.snapshot(I.load_data(os.path.basename(f)))), 'second-load', what)
    os.remove(f)


def sectors(ctx, spec, tier):
    L = ref.Lat(*spec)
    store.prepare()
    n1, n2 = (3, 2) if tier == 'quick' else (4, 3)
    subs = space.subsets(L.n) if L.n <= n1 else []
    rs = [None] + ([s for s in subs] if L.n <= n1 else []) + ([(s, t) for s in subs for t in subs] if L.n <= n2 else [])
    rs += [[s for s in range(L.n) if s % 2 == 0], (list(range(L.n // 2)), list(range(L.n // 2, L.n)))]
    rs += [list(range(L.n))[::-1], ([s for s in range(L.n) if s % 3 != 1][::-1], [s for s in range(L.n) if s % 2]), (list(range(L.n)), [L.n - 1])]
    for h, b in ref.sectors(L.n):
        if L.n > 8 and ref.binom(L.n, h) * ref.binom(L.n - h, b) > 250:
            continue
        for k, r in enumerate(rs):
            if ref.binom(L.n, h) * ref.binom(L.n - h, b) > 120 and k:
                continue
            res = store.fabricated(L, h, b, impl.GENERIC, SEL, r, k, times=k % 2 == 0, k=3)
            cycle(ctx, res, '{} holes={} down={} restriction {}'.format(L, h, b, r), L.n, L.n - h - b, b, SEL)
    ctx.sample('{}: {} sectors, {} restrictions'.format(L, len(ref.sectors(L.n)), len(rs)))


def selections(ctx, spec):
    L = ref.Lat(*spec)
    store.prepare()
    for sel in impl.subsets(impl.ALL):
        for spin in (False, True):
            for emb in (False, True):
                for v in (impl.GENERIC, impl.OPPOSITE, impl.ZERO):
                    for h, b in ref.sectors(L.n):
                        r = store.fabricated(L, h, b, v, sel, None, 3)
                        r.data.bool_interactions.b_spin_multipicities = spin
                        r.data.bool_interactions.bV_embedding = emb
                        r.data.diagonalization.nb_val, r.data.diagonalization.tol, r.data.diagonalization.dim_max = 7, 1e-13, 5
                        cycle(ctx, r, '{} holes={} down={} terms={} spin={} bV_embedding={}'.format(L, h, b, sel, spin, emb), L.n, L.n - h - b, b, sel)
    ctx.sample('{}: all selections'.format(L))


def computed(ctx, spec):
    L = ref.Lat(*spec)
    store.prepare()
    for sel in (impl.ALL, ('bt',), ('bz', 'bij'), ()):
        for h, b in ref.sectors(L.n):
            d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
            for guess in (None, np.array([[np.cos(1. + i * (j + 1)) for j in range(min(2, d))] for i in range(d)])):
                np.random.seed(3)
                dt = store.data(L, h, b, impl.PHYSICAL, sel, None, True, guess=guess)
                r = impl.iC().perform_initial_computations(dt)
                cycle(ctx, r, '{} holes={} down={} terms={} computed'.format(L, h, b, sel), L.n, L.n - h - b, b, sel)
    ctx.sample('{}: computed results'.format(L))
