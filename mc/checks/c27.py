"""The store of results: histories of saves, distinct files for distinct results, and every reader opening the right one."""
import builtins
import io
import os
from itertools import product

import numpy as np

from .. import ham, impl, ref, space, store

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every history of at most 4 saves among 9 (three plain results of which two share a file, two of peripheral, four of block embeddings) from an empty folder; every sector of 1 to 20 sites saved side by side; all 64 selections side by side; for all 64 selections and 3 sectors, the file each embedding and plotting entry point reads first; the computation of every configuration of lattices up to 5 sites',
          'thorough': 'histories of at most 5 saves; 6 sectors for the readers; every configuration up to 6 sites'}
ASSUMPTIONS = ['The folder of results exists.', 'Loading is by the documented name.']
TWO = ['periodic', 2, 1, 1]


class Stop(BaseException):
    pass


def ops():
    """name of the file (relative to the folder of results), how to save, tag of what is saved"""
    out = []
    A, S1, S2 = ref.Lat(*TWO), ('bt', 'bij'), impl.ALL
    out.append((store.name(2, 1, 0, S1), 'plain', (1, 0, S1), 1))
    out.append((store.name(2, 1, 0, S1), 'plain', (1, 0, S1), 2))
    out.append((store.name(2, 1, 1, S2), 'plain', (0, 1, S2), 3))
    out.append(('Peripheral_embedding/' + store.name(2, 1, 0, S1), 'peripheral', (1, 0, S1), 4))
    out.append(('Peripheral_embedding/' + store.name(2, 1, 1, S2), 'peripheral', (0, 1, S2), 5))
    for k, fl in enumerate(((False, False, False), (True, False, False), (False, True, True), (False, False, True))):
        out.append(('Embedding_blocks/' + blocks_name(2, 1, 0, S1, fl), fl, (1, 0, S1), 6 + k))
    return A, out


def blocks_name(n, na, nb, sel, fl):
    return 'tJHam' + ''.join(s for f, s in zip(fl, ('-dyn', '-neel', '-neigh')) if f) + store.name(n, na, nb, sel)[5:]


def units(tier):
    q = tier == 'quick'
    u = [('histories', 4 if q else 5, k) for k in range(9)]
    u += [('sectors', n) for n in range(1, 21)]
    u += [('selections', s) for s in (TWO, ['periodic', 1, 1, 1])]
    for k in range(8):
        u.append(('readers', k, tier))
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 5 if q else 6):
            u.append(('batch', s))
    return u


def save(how, r):
    if how == 'plain':
        impl.iC().save_data(r)
    elif how == 'peripheral':
        impl.emb().save_data_peripheral_embedding(r)
    else:
        impl.emb().save_data_embedding_blocks(r, *how)


def histories(ctx, depth, first):
    I = impl.iC()
    A, all_ops = ops()
    made = [store.fabricated(A, h, b, impl.GENERIC, sel, None, tag, times=how == 'plain') for _, how, (h, b, sel), tag in all_ops]
    snaps = [store.snapshot(r) for r in made]
    top = os.getcwd()
    for d in range(1, depth + 1):
        for k, rest in enumerate(product(range(len(all_ops)), repeat=d - 1)):
            hist = (first,) + rest
            os.makedirs('h{}_{}'.format(d, k))
            os.chdir('h{}_{}'.format(d, k))
            try:
                store.prepare()
                model = {}
                for i in hist:
                    model[all_ops[i][0]] = i
                    save(all_ops[i][1], made[i])
                    ctx.transitions += 1
                what = 'saves {}'.format([(all_ops[i][0], all_ops[i][3]) for i in hist])
                files = sorted(os.path.relpath(os.path.join(b, f), store.FOLDER) for b, _, fs in os.walk('.') for f in fs)
                ctx.states += 1
                ctx.replays += 1
                if ctx.same(files, sorted(model), 'files', '{}: files', what):
                    for f, i in model.items():
                        bad = store.diff(snaps[i], store.snapshot(I.load_data(f)))
                        ctx.check(not bad, 'content', '{}: {} of {} are not those of the last save'.format(what, bad, f))
            finally:
                import shutil
                here = os.getcwd()
                os.chdir(top)
                shutil.rmtree(here)
    ctx.sample('every history of {} saves or fewer starting with {}'.format(depth, all_ops[first][0]))


def side_by_side(ctx, cases, key):
    """Save several results, then find each again through the file that saving it created."""
    I = impl.iC()
    store.prepare()
    owner, lost = {}, []
    for what, r, doc in cases:
        before = set(os.listdir(store.FOLDER))
        I.save_data(r)
        ctx.states += 1
        ctx.transitions += 1
        ctx.replays += 1
        if doc in owner:
            lost.append((owner[doc], what, doc))
        new = set(os.listdir(store.FOLDER)) - before
        if not new <= {doc}:
            ctx.fail('file-name', '{} is saved as {} instead of {}'.format(what, sorted(new), doc))
        elif not new and doc not in owner:
            ctx.fail('file-name', '{} is not saved as {}'.format(what, doc))
        owner[doc] = what
    for a, b, doc in lost:
        ctx.fail(key(a, b), 'saving {} overwrites {} ({})'.format(b, a, doc))


def sectors(ctx, n):
    L = ref.Lat('periodic', 1, n, 1)
    import scipy.sparse as sp
    cases = []
    for h, b in ref.sectors(n):
        dt = store.data(L, h, b, impl.PHYSICAL, impl.ALL)
        r = impl.iC().DataComputations(dt, [], sp.csr_matrix((1, 1)), impl.dav().Eigenstates([0.], [], np.zeros((1, 1))), None)
        cases.append(((n, n - h - b, b), r, store.name(n, n - h - b, b, impl.ALL)))
    side_by_side(ctx, cases, lambda a, b: 'collision:sectors:{}up{}down:{}up{}down:of{}'.format(*sorted((a, b))[0][1:], *sorted((a, b))[1][1:], n))
    ctx.sample('{} sites: every sector saved side by side'.format(n))


def selections(ctx, spec):
    L = ref.Lat(*spec)
    cases = []
    sels = [s for s in impl.subsets(impl.ALL) if 'bz' not in s] + [s for s in impl.subsets(impl.ALL) if 'bz' in s]
    for sel in sels:
        cases.append((sel, store.fabricated(L, 0, 0, impl.GENERIC, sel), store.name(L.n, L.n, 0, sel)))
    side_by_side(ctx, cases, lambda a, b: 'collision:static-exchange-not-in-name:{}'.format('+'.join(x for x in impl.ALL if x in a and x != 'bz') or 'none')
                 if set(a) ^ set(b) == {'bz'} else 'collision:terms:{}:{}'.format('+'.join(a), '+'.join(b)))
    ctx.sample('{}: all selections side by side'.format(L))


def reading(call, stop_after):
    """Results files opened for reading by a call, in order (the call is stopped after some)."""
    seen, orig = [], builtins.open
    mark = os.sep + store.FOLDER + os.sep

    def spy(f, mode='r', *a, **k):
        p = os.path.abspath(f) if isinstance(f, (str, os.PathLike)) else ''
        if mark in p and not set(mode) & set('wax+'):
            rel = p.split(mark, 1)[1]
            if len(seen) == stop_after:
                raise Stop()
            seen.append(rel)
        return orig(f, mode, *a, **k)
    builtins.open = io.open = spy
    try:
        call()
    except Stop:
        pass
    except FileNotFoundError:
        pass
    finally:
        builtins.open = io.open = orig
    return seen


def readers(ctx, part, tier):
    I, E = impl.iC(), impl.emb()
    P = impl.mod('postProcessing')
    cases = [(TWO, 1, 0), (TWO, 0, 1), (['periodic', 1, 1, 1], 0, 1)] + ([(['periodic', 1, 1, 2], 1, 1), (['periodic', 1, 1, 2], 4, 0), (['periodic', 3, 1, 1], 1, 2)] if tier != 'quick' else [])
    store.prepare('Peripheral_embedding', 'Embedding_blocks')
    for sel in impl.subsets(impl.ALL)[part::8]:
        for spec, h, b in cases:
            L = ref.Lat(*spec)
            n, na = L.n, L.n - h - b
            for f in list(store.listing()):
                os.remove(f)
            r = lambda tag: store.fabricated(L, h, b, impl.GENERIC, sel, None, tag)
            save('plain', r(1))
            plain, = [os.path.relpath(f, store.FOLDER) for f in store.listing()]
            save('peripheral', r(2))
            peri, = [os.path.relpath(f, store.FOLDER) for f in store.listing() if 'Peripheral' in f]
            what = '{} holes={} down={} terms={}'.format(L, h, b, sel)
            dt = lambda: store.data(L, h, b, impl.GENERIC, sel)

            def blocked(*a, **k):
                raise Stop()
            # what an embedding reads comes before anything it computes: stop it at the first diagonalisation
            dav, old = impl.dav(), impl.dav().modified_davidson_algorithm
            dav.modified_davidson_algorithm = blocked
            try:
                ctx.same(reading(lambda: E.embedding_neel(dt(), 1e-3, 1), 1), [plain], 'peripheral-embedding-reads', '{}: peripheral embedding', what)
                ctx.same(reading(lambda: E.embedding_blocks(dt(), 1e-3, 1, neighbor_embedding=True), 1), [plain], 'block-embedding-reads', '{}: block embedding', what)
                ctx.same(reading(lambda: E.embedding_blocks(dt(), 1e-3, 1, neel_embedding=True, neighbor_embedding=True), 1), [peri], 'block-embedding-reads', '{}: block embedding after the peripheral one', what)
            finally:
                dav.modified_davidson_algorithm = old
            ctx.states += 1
            ctx.transitions += 3
            ctx.replays += 3
            for fl in ((False, False, False), (True, False, False), (True, True, False), (False, False, True), (False, True, False), (True, True, True)):
                have = set(store.listing())
                save(fl, r(3))
                new = {os.path.relpath(f, store.FOLDER) for f in set(store.listing()) - have}
                if not ctx.same(new, {'Embedding_blocks/' + blocks_name(n, na, b, sel, fl)}, 'block-embedding-file', '{} {}', what, fl):
                    continue
                dyn, neel, neigh = fl
                ip = P.InputPlotting(0, 0, bool_static_embedding=not dyn, bool_dynamic_embedding=dyn, bool_neel_embedding=neel, bool_neighbor_embedding=neigh)
                keep = P.plot_embedding_effect_on_determinants
                P.plot_embedding_effect_on_determinants = lambda *a: None
                try:
                    got = reading(lambda: P.generate_plots_configuration(dt(), ip), 2)
                finally:
                    P.plot_embedding_effect_on_determinants = keep
                ctx.same(got, [plain] + sorted(new), 'plots-read', '{}: plots of embedding {}', what, fl)
                ctx.transitions += 2
                ctx.replays += 2
    ctx.sample('readers of every saved file, one eighth of the selections')


def batch(ctx, spec):
    """Every configuration with a number of holes is computed and saved, each as its own."""
    L = ref.Lat(*spec)
    I = impl.iC()
    store.prepare()
    rs = [None, [s for s in range(L.n) if s % 3 != 2]]
    for h in range(L.n + 1):
        for sel in (impl.ALL, ('bt', 'bij')):
            for r in rs:
                for f in store.listing():
                    os.remove(f)
                np.random.seed(5)
                dt = store.data(L, h, 0, impl.PHYSICAL, sel, r, True, nb_val=2)
                I.perform_configurations_computations(dt)
                names = {store.name(L.n, na, L.n - h - na, sel): L.n - h - na for na in range(L.n - h + 1)}
                what = '{} holes={} terms={} restriction {}'.format(L, h, sel, r)
                ctx.same(sorted(os.listdir(store.FOLDER)), sorted(names), 'batch-files', '{}: files of every configuration', what)
                for f, b in names.items():
                    if not os.path.exists(os.path.join(store.FOLDER, f)):
                        continue
                    q = I.load_data(f)
                    c, w = q.data.configuration, impl.conf(L, h, b, r)
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.replays += 1
                    ctx.same({k: getattr(c, k) for k in store.CONF}, {k: getattr(w, k) for k in store.CONF}, 'batch-configuration', '{} down={}: configuration', what, b)
                    ctx.same([list(s) for s in c.sites_restriction], [list(s) for s in w.sites_restriction], 'batch-configuration', '{} down={}: restriction', what, b)
                    ctx.same([list(d) for d in q.determinants], [ref.det(o) for o in ref.sector(L.n, h, b)], 'batch-basis', '{} down={}: basis', what, b)
                    H = ref.hamiltonian(L, h, b, impl.PHYSICAL, sel, r, r)
                    ham.compare(ctx, 'batch-hamiltonian', '{} down={}'.format(what, b), q.hamiltonian, H)
                    V, e = q.eigenstates.eigvects, q.eigenstates.eigvals
                    ctx.check(V.shape == (len(H), len(e)) and np.abs(H @ V - V * e).max() < 1e-6, 'batch-eigenstates', '{} down={}'.format(what, b))
                    ctx.same(len(q.eigenstates.spins), len(e), 'batch-spins', '{} down={}: number of spins', what, b)
    ctx.sample('{}: every configuration of every number of holes'.format(L))
