"""The picture of the spectrum shows every energy, each as often as it occurs."""
from itertools import product

from .. import impl, plots, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every list of 1 to 5 energies over {-1.5, -0.25, 0, 2} (every order and every repetition), three lattices; really computed spectra of every sector of up to 12 states of the lattices up to 4 sites',
          'thorough': 'lists of 6 energies; computed spectra up to 5 sites'}
ASSUMPTIONS = ['The folders of pictures exist.', 'Pictures are read from the figure when it is saved, not from its pixels.', 'Equal energies are those equal as numbers.']


def units(tier):
    q = tier == 'quick'
    u = [('lists', n, first) for n in range(1, 6 if q else 7) for first in range(4)]
    for s in space.all_specs('periodic', 1, 4 if q else 5):
        u.append(('computed', s))
    return u


def judge(ctx, pics, r, vals, name, what):
    pP = impl.mod('postProcessing')
    keep = list(vals)
    pics.saved.clear()
    pP.save_spectrum(r)
    ctx.states += 1
    ctx.replays += 1
    ctx.same(list(r.eigenstates.eigvals), keep, 'argument-changed', what)
    fig = pics.one(name)
    if fig is None:
        ctx.fail('file', '{}: saved {} instead of {}'.format(what, [f for f, _ in pics.saved], name))
        return
    lines = [l for ax in fig for l in ax['lines']]
    ctx.transitions += len(lines)
    if any(y[0] != y[-1] for _, y in lines):
        ctx.fail('level', '{}: a level is not horizontal'.format(what))
    ctx.same(sorted(y[0] for _, y in lines), sorted(keep), 'levels', '{}: energies drawn', what)
    for i, (xa, ya) in enumerate(lines):
        ctx.check(xa[-1] > xa[0], 'level', '{}: a level of no width', what)
        for xb, yb in lines[:i]:
            if ya[0] == yb[0]:
                ctx.check(min(xa[-1], xb[-1]) <= max(xa[0], xb[0]), 'hidden', '{}: two levels of energy {} drawn over each other', what, ya[0])


def lists(ctx, n, first):
    V = (-1.5, -.25, 0., 2.)
    lat = [(['periodic', 2, 2, 1], 1, 1), (['periodic', 3, 1, 1], 0, 1), (['periodic', 1, 1, 2], 2, 0)]
    with plots.Pictures() as pics:
        for k, rest in enumerate(product(V, repeat=n - 1)):
            vals = [V[first]] + list(rest)
            s, h, b = lat[k % 3]
            L = ref.Lat(*s)
            plots.folders(L.n)
            r, _ = plots.result(L, h, b, n, impl.ALL, vals=vals)
            judge(ctx, pics, r, vals, 'tJ-HamCsr/tJ-H{}/Spectrum/tJ-H{}{}{}.png'.format(L.n, L.n, L.n - h - b, b), 'energies {}'.format(vals))
    ctx.sample('lists of {} energies that start with {}'.format(n, V[first]))


def computed(ctx, spec):
    import numpy as np
    from .. import store
    L = ref.Lat(*spec)
    plots.folders(L.n)
    I = impl.iC()
    store.prepare()
    with plots.Pictures() as pics:
        for h, b in ref.sectors(L.n):
            d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
            if d > 12:
                continue
            for sel in (impl.ALL, ('bz', 'bij'), ('bt',)):
                np.random.seed(5)
                I.save_data(I.perform_initial_computations(store.data(L, h, b, impl.PHYSICAL, sel, None, False, d)))
                r = I.load_data(store.name(L.n, L.n - h - b, b, sel))
                judge(ctx, pics, r, r.eigenstates.eigvals, 'tJ-HamCsr/tJ-H{}/Spectrum/tJ-H{}{}{}.png'.format(L.n, L.n, L.n - h - b, b),
                      '{} holes={} down={} terms={}'.format(L, h, b, sel))
    ctx.sample('{}: computed spectra'.format(L))
