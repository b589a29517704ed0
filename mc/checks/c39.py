"""The spectrum against t/J: at every ratio, the energies of the plain and of the extended model at that ratio."""
import itertools
import os

import numpy as np

from .. import ham, impl, plots, ref, space, store

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of up to 8 states of the rectangular lattices up to 4 sites, two of 12 states, one electron on 5 and 6 sites, all the states requested, two vectors of couplings (three with another sign of t up to 3 states); all the drawn ratios (1000), both models; the folder there or missing; every choice of 2 among 12 and of 3 among 5 straight or kinked levels and of their spins, from a stand-in of the computation',
          'thorough': 'sectors of up to 12 states up to 5 sites'}
ASSUMPTIONS = ['As many states are requested as there are.', 'Pictures are read from the figure when it is saved; energies are drawn rounded to six digits and compared within 2e-6.', 'Nearest neighbour couplings (exchange and singlet displacement) keep their ratios to J; hopping and repulsion are kept.']
PLAIN = ('bt', 'bz', 'bij')


def units(tier):
    u = []
    for s in space.all_specs('periodic', 1, 4 if tier == 'quick' else 5):
        L = ref.Lat(*s)
        for h, b in ref.sectors(L.n):
            d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
            if d <= (8 if tier == 'quick' else 12):
                u.append(('run', s, h, b))
    u += [('crossings', n, k) for n in (2, 3) for k in range(8)]
    if tier == 'quick':
        u += [('run', ['periodic', 2, 2, 1], 1, 1), ('run', ['periodic', 2, 2, 1], 2, 1), ('run', ['periodic', 3, 2, 1], 5, 1), ('run', ['periodic', 1, 5, 1], 4, 0)]
    u.sort(key=lambda x: -1000 if x[0] == 'crossings' else -ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3]))
    return u


def crossings(ctx, n, part):
    """The levels at each ratio are given by a stand-in of the computation: straight lines and kinked ones that cross, touch or change their spins."""
    pP = impl.mod('postProcessing')
    L = ref.Lat('periodic', 2, 1, 1)
    os.makedirs('tJ-HamCsr/tJ-H2/ParametrizedSpectrum')
    I = impl.iC()
    real = I.perform_initial_computations
    # (energy at the middle, slope before, slope after) and spins
    kinds = [(e, p, q) for e in (0., .25) for p, q in ((0., 0.), (1., 1.), (-1., -1.), (1., -1.), (-1., 1.), (.5, -.25))]
    kinds = kinds if n == 2 else kinds[:5]
    jobs = [(a, s) for a in itertools.product(kinds, repeat=n) for s in itertools.product((.5, 1.5), repeat=n)]
    for k, (lines, spins) in enumerate(jobs):
        if k % 8 != part:
            continue
        want = {False: [], True: []}

        def stand_in(dt, *more, **named):
            ext = bool(dt.bool_interactions.bSD)
            x = len(want[ext]) - 499.5
            lev = sorted(((e + (p if x < 0 else q) * x * 1e-3) * (-1. if ext else 1.), s) for (e, p, q), s in zip(lines, spins))
            want[ext].append([round(e, 6) for e, _ in lev])
            return I.DataComputations(dt, None, None, impl.dav().Eigenstates([e for e, _ in lev], [s for _, s in lev], None))
        I.perform_initial_computations = stand_in
        try:
            with plots.Pictures() as pics:
                pP.plot_spectrum_dependance(store.data(L, 1, 1, impl.GENERIC, impl.ALL, None, True, n))
        finally:
            I.perform_initial_computations = real
        ctx.states += 1
        ctx.replays += 1
        what = 'levels {} of spins {}'.format(lines, spins)
        for ext in (False, True):
            fig = pics.one('tJ-HamCsr/tJ-H2/ParametrizedSpectrum/tJ-H201{}.png'.format('-extended' if ext else ''))
            if fig is None:
                ctx.fail('files', '{}: saved {}', what, [f for f, _ in pics.saved])
                continue
            y = np.sort(np.array([l[1] for l in fig[0]['lines']]), axis=0).T
            ctx.transitions += 1000 * n
            ctx.check(y.shape == np.shape(want[ext]) and np.abs(y - np.array(want[ext])).max() < 2e-6, 'reordering', '{}{}: levels lost, doubled or moved', what, ' extended' if ext else '')
    ctx.sample('{} levels: every crossing of {} lines'.format(n, len(kinds)))


def run(ctx, spec, h, b):
    pP = impl.mod('postProcessing')
    L = ref.Lat(*spec)
    os.makedirs('tJ-HamCsr/tJ-H{}{}'.format(L.n, '' if (h + b) % 2 else '/ParametrizedSpectrum'))
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    base = 'tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}'.format(L.n, L.n, L.n - h - b, b)
    P = ham.parts(L, h, b)
    for name, v in (('physical', impl.PHYSICAL), ('generic', impl.GENERIC), ('opposite', impl.OPPOSITE))[:1 if d > 8 else 2 if d > 3 else 3]:
        np.random.seed(3)
        dt = store.data(L, h, b, v, impl.ALL, None, True, d)
        before = (dict(vars(dt.interactions)), dict(vars(dt.bool_interactions)))
        with plots.Pictures() as pics:
            pP.plot_spectrum_dependance(dt)
        ctx.replays += 1
        what = '{} holes={} down={} {} couplings'.format(L, h, b, name)
        ctx.same((dict(vars(dt.interactions)), dict(vars(dt.bool_interactions))), before, 'request-changed', what)
        ctx.same(sorted(os.path.basename(f) for f, _ in pics.saved), sorted(os.path.basename(base) + x for x in ('.png', '.pdf', '-extended.png', '-extended.pdf')), 'files', what)
        for ext, sel in (('', PLAIN), ('-extended', impl.ALL)):
            for kind in ('.png', '.pdf'):
                fig = pics.one(base + ext + kind)
                if fig is None:
                    continue
                lines = [l for l in fig[0]['lines']]
                if not ctx.same(len(lines), d, 'curves', '{}{}: number of curves', what, ext):
                    continue
                x = lines[0][0]
                ctx.check(all(l[0] == x for l in lines) and len(x) >= 100 and x[0] > 0 and all(p < q for p, q in zip(x, x[1:])), 'ratios', '{}{}: abscissae', what, ext)
                for i, r in enumerate(x):
                    w = dict(v)
                    J = abs(v['t']) / r
                    for k in ('J', 'Jhpar', 'Jhper', 'hSDpar', 'hSDper'):
                        w[k] = v[k] * J / v['J']
                    e = np.linalg.eigvalsh(ham.combine(P, w, sel))
                    got = sorted(l[1][i] for l in lines)
                    ctx.states += 1
                    ctx.transitions += d
                    if max(abs(p - q) for p, q in zip(got, e)) > 2e-6:
                        ctx.fail('energies', '{}{} at t/J = {}: {} drawn instead of {}'.format(what, ext, r, got, e.tolist()))
                        break
    ctx.sample('{} holes={} down={}'.format(L, h, b))
