"""Pictures of amplitudes: how many components exceed each value, and the strongest states with and without embedding."""
import numpy as np

from .. import impl, plots, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'counts: every sector of up to 12 states of the rectangular lattices up to 4 sites, 1 to 9 requested pictures with 1 to 5 known states; comparison: every sector of the rectangular lattices up to 5 sites, every number of bars up to the number of states, distinct and tied amplitudes, both orders of the two results',
          'thorough': 'counts up to 30 states and 5 sites; comparison up to 6 sites'}
ASSUMPTIONS = ['Pictures are read from the figure when it is saved.', 'Counts are read off at every abscissa of the curve that is not within 1e-9 of an amplitude.']


def units(tier):
    q = tier == 'quick'
    u = []
    for s in space.all_specs('periodic', 1, 5 if q else 6):
        L = ref.Lat(*s)
        for h, b in ref.sectors(L.n):
            d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
            if L.n <= (4 if q else 5) and d <= (12 if q else 30):
                u.append(('counts', s, h, b))
            if L.n <= (4 if q else 5) or d <= 60:
                u.append(('compared', s, h, b))
    return u


def counts(ctx, spec, h, b):
    pP = impl.mod('postProcessing')
    L = ref.Lat(*spec)
    plots.folders(L.n)
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    name = 'tJ-HamCsr/tJ-H{}/DeterminantsAmplitude/tJ-H{}{}{}.png'.format(L.n, L.n, L.n - h - b, b)
    with plots.Pictures() as pics:
        for known in sorted({1, min(2, d), min(5, d)}):
            for asked in (1, 4, 9) if known == min(5, d) else (1, 3, 4):
                r, v = plots.result(L, h, b, known, impl.ALL)
                what = '{} holes={} down={}: {} pictures of the amplitudes of {} states'.format(L, h, b, asked, known)
                pics.saved.clear()
                pP.plot_determinants_amplitude_repartition(r, asked)
                ctx.states += 1
                ctx.replays += 1
                fig = pics.one(name)
                if fig is None:
                    ctx.fail('file', '{}: saved {}'.format(what, [f for f, _ in pics.saved]))
                    continue
                shown = [ax for ax in fig if ax['lines']]
                if not ctx.same(len(shown), min(known, int(asked ** .5) ** 2), 'pictures', what):
                    continue
                for j, ax in enumerate(shown):
                    x, y = np.array(ax['lines'][0][0]), np.array(ax['lines'][0][1])
                    a = np.abs(v[:, j])
                    want = (a[None, :] >= x[:, None]).sum(1)
                    sure = np.abs(a[None, :] - x[:, None]).min(1) > 1e-9
                    ctx.transitions += int(sure.sum())
                    bad = np.argwhere(sure & (y != want)).ravel()
                    ctx.check(not len(bad), 'count', '{}, number {}: {} components of at least {} instead of {}', what, j, *([y[bad[0]], x[bad[0]], want[bad[0]]] if len(bad) else [0, 0, 0]))
                    ctx.check(x[0] <= 0 and x[-1] >= a.max() - 1e-4 and np.all(np.diff(x) < 2e-4), 'range', '{}, number {}: from {} to {}', what, j, x[0], x[-1])
    ctx.sample('{} holes={} down={}: counts'.format(L, h, b))


def compared(ctx, spec, h, b):
    pP = impl.mod('postProcessing')
    L = ref.Lat(*spec)
    plots.folders(L.n)
    if (h + b) % 2:
        plots.missing(L.n, 'AmplitudesStaticEmbeddingNeel')
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    base = 'tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}'.format(L.n, L.n, L.n - h - b, b)
    tied = np.array([[1. + (i // 2) % 3, i] for i in range(d)])
    families = [plots.vectors(d, 2), plots.vectors(d, 3)[:, ::-1], tied]
    with plots.Pictures() as pics:
        for ia, ib in ((0, 1), (1, 0), (0, 2), (2, 1)):
            A, va = plots.result(L, h, b, families[ia].shape[1], impl.ALL, vects=families[ia])
            B, vb = plots.result(L, h, b, families[ib].shape[1], impl.ALL, vects=families[ib])
            for k in sorted({1, 2, 3, d // 2, d - 1, d, 30}):
                if not 1 <= k <= min(d, 30):
                    continue
                what = '{} holes={} down={}: {} strongest states of families {} and {}'.format(L, h, b, k, ia, ib)
                pics.saved.clear()
                pP.plot_embedding_effect_on_determinants(A, B, k)
                ctx.states += 1
                ctx.replays += 1
                for ext in ('.png', '.pdf'):
                    fig = pics.one(base + ext)
                    if fig is None:
                        ctx.fail('file', '{}: saved {}'.format(what, [f for f, _ in pics.saved]))
                        continue
                    bars = {}
                    for x, y, c in fig[0]['bars']:
                        bars.setdefault(c, []).append((x, y))
                    got = [[y for _, y in sorted(s)] for s in bars.values()]
                    want = [sorted(v[:, 0] ** 2)[::-1][:k] for v in (va, vb)]
                    ctx.transitions += 2 * k
                    if len(got) != 2 or [len(g) for g in got] != [k, k]:
                        ctx.fail('bars', '{}: {} families of bars, {}'.format(what, len(got), [len(g) for g in got]))
                        continue
                    ctx.close(got, want, 'heights', what)
                pics.plt.close('all')
    ctx.sample('{} holes={} down={}: comparison'.format(L, h, b))
