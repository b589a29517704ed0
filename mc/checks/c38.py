"""Pictures of a whole lattice: those asked, of every configuration, from the stored result of that configuration."""
import hashlib
from itertools import product

from .. import impl, plots, ref, store

LEVEL = 'model_checking'
BOUNDS = {'quick': 'the square of 4 sites and the rectangle of 6, every number of holes, every subset of the four kinds of pictures (4 sites; two subsets for 6), every sector of 4 sites with 0 to 5 states and 1 to 9 panels asked of up to 4 known ones, every single configuration of 4 sites with every choice of embedding (16) and 3 selections of terms; each picture compared with the one drawn directly from the stored result',
          'thorough': 'all subsets for 6 sites, all 64 selections of terms for one configuration'}
ASSUMPTIONS = ['Pictures are read from the figure when it is saved.', 'A result is stored for every configuration; folders exist.']
KINDS = ('bool_spectrum', 'bool_holes', 'bool_electrons', 'bool_determinants')
EMB = ('bool_neel_embedding', 'bool_static_embedding', 'bool_dynamic_embedding', 'bool_neighbor_embedding')


def units(tier):
    q = tier == 'quick'
    u = [('lattice', ['periodic', 2, 2, 1], h, 'all', k) for h in range(5) for k in range(2)]
    for s in (['periodic', 3, 2, 1], ['periodic', 2, 3, 1]):
        u += [('lattice', s, h, 'three' if q else 'all', k) for h in range(7) for k in range(1 if q else 2)]
    u += [('numbers', h, b) for h, b in ref.sectors(4)]
    u += [('single', h, b, tier) for h, b in ref.sectors(4)]
    return u


def stored(L, h, b, sel, k, folder='', tag=0):
    I = impl.iC()
    v = plots.vectors(ref.binom(L.n, h) * ref.binom(L.n - h, b), k + tag)[:, tag:]
    r, _ = plots.result(L, h, b, k, sel, vects=v, vals=[round(-1.5 * i + .01 * tag, 3) for i in range(k)])
    r.times = I.Times(0., 0., 0.)
    return r


def save(r, path):
    """Stores a result under a name of its own (through the ordinary save)."""
    import os
    I = impl.iC()
    before = store.listing()
    I.save_data(r)
    new = [p for p, x in store.listing().items() if before.get(p) != x]
    if new and os.path.normpath(new[0]) != os.path.normpath(path):
        os.replace(new[0], path)


def content(pics):
    return sorted((f, digest(c)) for f, c in pics.saved)


def digest(x):
    import numpy as np
    if isinstance(x, dict):
        return str({k: digest(v) for k, v in x.items()})
    if isinstance(x, np.ndarray) or isinstance(x, list) and x and isinstance(x[0], float):
        return hashlib.sha1(np.round(np.asarray(x, dtype=float), 9).tobytes()).hexdigest()
    if isinstance(x, (list, tuple)):
        return str([digest(e) for e in x])
    return repr(round(x, 9) if isinstance(x, float) else x)


def direct(pP, I, pics, path, kinds, holes, both, nb_excited, nb_plot):
    """The same pictures, drawn one by one from the stored result."""
    r = I.load_data(path)
    pics.saved.clear()
    if 'bool_spectrum' in kinds:
        pP.save_spectrum(r)
    if 'bool_holes' in kinds and holes:
        pP.save_hole_probability_lattice(r, nb_plot)
    if 'bool_electrons' in kinds and both:
        for k in range(nb_excited):
            pP.save_electron_probability_lattice(r, k)
    if 'bool_determinants' in kinds:
        pP.plot_determinants_amplitude_repartition(r, nb_plot)
    out = content(pics)
    pics.plt.close('all')
    return out


def lattice(ctx, spec, h, which, part):
    pP, I = impl.mod('postProcessing'), impl.iC()
    L = ref.Lat(*spec)
    store.prepare()
    plots.folders(L.n, range(4))
    sel = ('bt', 'bz', 'bij')
    k = {}
    for b in range(L.n - h + 1):
        k[b] = min(2, ref.binom(L.n, h) * ref.binom(L.n - h, b))
        save(stored(L, h, b, sel, k[b]), 'initialComputations/' + store.name(L.n, L.n - h - b, b, sel))
    subsets = impl.subsets(KINDS) if which == 'all' else [KINDS, KINDS[1:3]]
    with plots.Pictures() as pics:
        for i, kinds in enumerate(subsets):
            if which == 'all' and i % 2 != part:
                continue
            want = []
            for b in range(L.n - h + 1):
                want += direct(pP, I, pics, store.name(L.n, L.n - h - b, b, sel), kinds, h > 0, b and L.n - h - b, 2, 4)
            pics.saved.clear()
            dt = store.data(L, h, 0, impl.GENERIC, sel)
            pP.generate_plots(dt, pP.InputPlotting(2, 4, **{x: True for x in kinds}))
            got = content(pics)
            pics.plt.close('all')
            ctx.states += 1
            ctx.replays += 1
            ctx.transitions += len(want)
            what = '{} with {} holes, pictures {}'.format(L, h, kinds)
            if ctx.same([f for f, _ in got], [f for f, _ in sorted(want)], 'pictures', what):
                bad = [f for (f, x), (_, y) in zip(got, sorted(want)) if x != y]
                ctx.check(not bad, 'content', '{}: {} are not those of the stored results', what, bad)
    ctx.sample('{} with {} holes'.format(L, h))


def numbers(ctx, h, b):
    """Every number of states and of panels asked, more than the result has or fewer."""
    pP, I = impl.mod('postProcessing'), impl.iC()
    L = ref.Lat('periodic', 2, 2, 1)
    store.prepare()
    plots.folders(4, range(5))
    sel = ('bt', 'bz', 'bij')
    k = min(4, ref.binom(4, h) * ref.binom(4 - h, b))
    base = store.name(4, 4 - h - b, b, sel)
    save(stored(L, h, b, sel, k), 'initialComputations/' + base)
    with plots.Pictures() as pics:
        for excited in (0, 1, 2, 3, 4, 5):
            for panels in (1, 3, 4, 9) if excited == 3 else (4,):
                want = direct(pP, I, pics, base, KINDS, h > 0, b and 4 - h - b, excited, panels)
                pics.saved.clear()
                pP.generate_plots_configuration(store.data(L, h, b, impl.GENERIC, sel), pP.InputPlotting(excited, panels, **{x: True for x in KINDS}))
                got = content(pics)
                pics.plt.close('all')
                ctx.states += 1
                ctx.replays += 1
                ctx.transitions += len(want)
                what = 'holes={} down={} {} known states: {} states, {} panels asked'.format(h, b, k, excited, panels)
                if ctx.same([f for f, _ in got], [f for f, _ in sorted(want)], 'pictures', what):
                    bad = [f for (f, x), (_, y) in zip(got, sorted(want)) if x != y]
                    ctx.check(not bad, 'content', '{}: {} are not those of the stored results', what, bad)
                if b and 4 - h - b:
                    spins = [f for f, _ in got if 'SpinDistribution' in f]
                    ctx.same(len(spins), min(excited, k), 'spins', '{}: pictures of spins', what)
    ctx.sample('holes={} down={}: numbers asked'.format(h, b))


def single(ctx, h, b, tier):
    pP, I = impl.mod('postProcessing'), impl.iC()
    L = ref.Lat('periodic', 2, 2, 1)
    store.prepare('Embedding_blocks', 'Peripheral_embedding')
    plots.folders(4, range(3))
    sels = (impl.ALL, ('bt', 'bij'), ()) if tier == 'quick' or (h, b) != (1, 1) else impl.subsets(impl.ALL)
    d = ref.binom(4, h) * ref.binom(4 - h, b)
    with plots.Pictures() as pics:
        for sel in sels:
            base = store.name(4, 4 - h - b, b, sel)
            tail = base[len('tJHam-'):]
            tag = 0
            save(stored(L, h, b, sel, 1), 'initialComputations/' + base)
            files = {}
            for dyn, neel, nei in product((False, True), repeat=3):
                tag += 1
                f = 'Embedding_blocks/tJHam{}{}{}-{}'.format('-dyn' * dyn, '-neel' * neel, '-neigh' * nei, tail)
                files[dyn, neel, nei] = f
                keep = stored(L, h, b, sel, 1, tag=tag)
                save(keep, 'initialComputations/' + f)
                save(stored(L, h, b, sel, 1), 'initialComputations/' + base)
            for neel, stat, dyn, nei in product((False, True), repeat=4):
                want = direct(pP, I, pics, base, KINDS[:1], h > 0, b and 4 - h - b, 1, 1)
                n = neel + (stat or dyn)
                if n:
                    pics.saved.clear()
                    A, B = I.load_data(base), I.load_data(files[dyn, neel, nei])
                    for _ in range(n):
                        pP.plot_embedding_effect_on_determinants(A, B, min(d, 30))
                    want += content(pics)
                    pics.plt.close('all')
                pics.saved.clear()
                dt = store.data(L, h, b, impl.GENERIC, sel)
                pP.generate_plots_configuration(dt, pP.InputPlotting(1, 1, True, False, False, False, neel, stat, dyn, nei))
                got = dict(content(pics))
                pics.plt.close('all')
                ctx.states += 1
                ctx.replays += 1
                ctx.transitions += len(want)
                what = 'holes={} down={} terms={} embedding: ring {}, static {}, dynamic {}, neighbour {}'.format(h, b, sel, neel, stat, dyn, nei)
                if ctx.same(sorted(got), sorted(dict(want)), 'pictures', what):
                    bad = [f for f in got if got[f] != dict(want)[f]]
                    ctx.check(not bad, 'content', '{}: {} are not those of the stored results', what, bad)
    ctx.sample('holes={} down={}: every choice of embedding'.format(h, b))
