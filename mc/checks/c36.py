"""Pictures of densities: at the place of each site, the probability of what is plotted, in the state that is plotted."""
import numpy as np

from .. import impl, plots, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every rectangular lattice with two to three sites on each side up to 6 sites: holes of 1 to 9 requested pictures with 1 to 5 known states, spins up, down and their difference of every known state; every unit vector up to 4 sites; one electron, hole or reversed spin on seven lattices of 8 to 18 sites; all 128 selections of terms for the name of the picture of holes; with the folders of the pictures there or missing; chains excluded (the code interpolates in both directions)',
          'thorough': 'lattices up to 9 sites, sectors up to 500 states'}
ASSUMPTIONS = ['Pictures are read from the figure when it is saved; the colour at a site is that of the cell that contains it (0.01 wide, compared within 0.02).', 'Lattices at least two sites wide and high.', 'The lowest row of sites is drawn at the bottom, as sites are numbered.']


def units(tier):
    q = tier == 'quick'
    u = []
    for s in space.all_specs('periodic', 4, 6 if q else 9):
        L = ref.Lat(*s)
        if min(L.W, L.H) < 2:
            continue
        for h, b in ref.sectors(L.n):
            if ref.binom(L.n, h) * ref.binom(L.n - h, b) <= (100 if q else 500):
                u.append(('holes', s, h, b))
                u.append(('electrons', s, h, b))
                if L.n <= 4:
                    u.append(('units_', s, h, b))
    for s in (['periodic', 3, 3, 1], ['periodic', 1, 1, 3], ['periodic', 4, 2, 1], ['periodic', 2, 4, 1], ['periodic', 5, 2, 1], ['periodic', 2, 2, 2], ['periodic', 2, 1, 3]):
        n = ref.Lat(*s).n
        u += [(k, s, h, b) for k in ('holes', 'electrons') for h, b in ((n - 1, 0), (n - 1, 1), (0, 1), (0, n - 1), (1, 0))]
    u += [('names', k) for k in range(4)]
    return u


def proba(L, sts, v, s):
    return [sum(v[i] ** 2 for i, o in enumerate(sts) if o[k] == s) for k in range(L.n)]


def panel(ctx, L, ax, want, key, what):
    """A panel shows the values of the sites at their places, and nothing else at the marks."""
    if len(ax['meshes']) != 1 or ax['meshes'][0][2] is None:
        ctx.fail(key, '{}: {} coloured maps in a panel'.format(what, len(ax['meshes'])))
        return
    m = ax['meshes'][0]
    got = [plots.at(m, x, y) for x, y in L.pts]
    ctx.transitions += L.n
    bad = [k for k in range(L.n) if abs(got[k] - want[k]) > .02]
    ctx.check(not bad, key, '{}: drawn {} instead of {}', what, np.round(got, 4).tolist(), np.round(want, 4).tolist())
    marks = sorted((round(p[0], 6), round(p[1], 6)) for pts in ax['points'] for p in pts)
    ctx.same(marks, sorted((float(x), float(y)) for x, y in L.pts), 'marks', '{}: marks of the sites', what)


def holes(ctx, spec, h, b):
    pP = impl.mod('postProcessing')
    L = ref.Lat(*spec)
    plots.folders(L.n)
    if (h + b) % 2:
        plots.missing(L.n, 'HolePresenceProbability')
    sts = ref.sector(L.n, h, b)
    d = len(sts)
    name = 'tJ-HamCsr/tJ-H{}/HolePresenceProbability/tJ-H{}{}{}tJ'.format(L.n, L.n, L.n - h - b, b)
    with plots.Pictures() as pics:
        for known in sorted({1, min(2, d), min(5, d)}):
            for asked in (1, 2, 3, 4, 5, 8, 9):
                if asked in (2, 5) and known != 1:
                    continue
                r, v = plots.result(L, h, b, known, ('bt', 'bij'))
                what = '{} holes={} down={}: {} pictures of the holes of {} states'.format(L, h, b, asked, known)
                pics.saved.clear()
                pP.save_hole_probability_lattice(r, asked)
                ctx.states += 1
                ctx.replays += 1
                fig = pics.one(name[:-2] + 'Jt.png')
                if fig is None:
                    ctx.fail('file', '{}: saved {}'.format(what, [f for f, _ in pics.saved]))
                    continue
                shown = [ax for ax in fig if ax['meshes']]
                n = min(known, int(asked ** .5) ** 2)
                if not ctx.same(len(shown), n, 'pictures', what):
                    continue
                for j, ax in enumerate(shown):
                    panel(ctx, L, ax, proba(L, sts, v[:, j], 0), 'holes', '{}, number {}'.format(what, j))
    ctx.sample('{} holes={} down={}: holes'.format(L, h, b))


def electrons(ctx, spec, h, b, vects=None):
    pP = impl.mod('postProcessing')
    L = ref.Lat(*spec)
    sts = ref.sector(L.n, h, b)
    d = len(sts)
    known = min(5, d) if vects is None else vects.shape[1]
    plots.folders(L.n, range(known + 2))
    if (h + b) % 2:
        plots.missing(L.n, *['SpinDistribution/' + ('Excited{}'.format(k) if k else 'GroundState') for k in range(known + 2)])
    with plots.Pictures() as pics:
        r, v = plots.result(L, h, b, known, ('bt', 'bij'), vects=vects)
        for j in range(known + 1):
            pics.saved.clear()
            pP.save_electron_probability_lattice(r, j)
            ctx.states += 1
            ctx.replays += 1
            what = '{} holes={} down={}: spins of state {}'.format(L, h, b, j)
            if j >= known:
                ctx.check(not pics.saved, 'unknown-state', '{}, of which {} are known: saved {}', what, known, [f for f, _ in pics.saved])
                continue
            fig = pics.one('tJ-HamCsr/tJ-H{}/SpinDistribution/{}/tJ-H{}{}{}.png'.format(L.n, 'Excited{}'.format(j) if j else 'GroundState', L.n, L.n - h - b, b))
            if fig is None:
                ctx.fail('file', '{}: saved {}'.format(what, [f for f, _ in pics.saved]))
                continue
            up, down = proba(L, sts, v[:, j], 1), proba(L, sts, v[:, j], -1)
            shown = [ax for ax in fig if ax['points']]
            if not ctx.same(len(shown), 3, 'pictures', what):
                continue
            for ax, want, key in zip(shown, (up, down, [x - y for x, y in zip(up, down)]), ('up', 'down', 'difference')):
                panel(ctx, L, ax, want, key, what)
            pics.plt.close('all')
    ctx.sample('{} holes={} down={}: spins'.format(L, h, b))


def units_(ctx, spec, h, b):
    L = ref.Lat(*spec)
    electrons(ctx, spec, h, b, np.eye(ref.binom(L.n, h) * ref.binom(L.n - h, b)))


def names(ctx, part):
    """The picture of the holes is named after every selected term."""
    pP = impl.mod('postProcessing')
    L = ref.Lat('periodic', 2, 2, 1)
    plots.folders(4)
    seen = {}
    with plots.Pictures() as pics:
        for k, sel in enumerate(impl.subsets(impl.ALL)):
            if k % 4 != part:
                continue
            for emb in (False, True):
                r, _ = plots.result(L, 2, 1, 1, sel, emb)
                pics.saved.clear()
                pP.save_hole_probability_lattice(r, 4)
                ctx.states += 1
                ctx.transitions += 1
                ctx.replays += 1
                full = emb and len(sel) == 6
                ext = 'Full' if full else ''.join(x for f, x in (('bSD', 'SD'), ('bV', 'V'), ('bV_embedding', 'emb'), ('bij', 'J'), ('bt', 't'), ('btN', 'tN')) if f in sel or (f == 'bV_embedding' and emb))
                ctx.same([f for f, _ in pics.saved], ['tJ-HamCsr/tJ-H4/HolePresenceProbability/tJ-H411{}.png'.format(ext)], 'name', 'terms={} bV_embedding={}', sel, emb)
    ctx.sample('names of the pictures of holes')
