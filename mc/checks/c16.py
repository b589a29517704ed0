"""Reversal of every spin: on states, bases and vectors."""
import numpy as np

from .. import impl, ops, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every lattice up to 9 sites; with every restriction of lattices up to 3 sites and block and frontier restrictions up to 8 sites; periodic patterns of up to 3 letters and every state of 1 or 2 electrons of 16 lattices of 10 to 25 sites with block, frontier and interleaved restrictions; every unit vector and two vectors of distinct amplitudes (one over eighteen orders of magnitude) of every sector up to 5 sites',
          'thorough': 'every state up to 11 sites; unit vectors up to 7 sites'}


def units(tier):
    q = tier == 'quick'
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 9 if q else 11):
            n = ref.Lat(*s).n
            u += [('states', s, h) for h in range(n + 1)]
            if n <= (5 if q else 7):
                u += [('vectors', s, h) for h in range(n + 1)]
    u += [('patterns', s, 3 if q else 5) for s in ops.LONG]
    return u


def rev(o):
    return tuple(-x for x in o)


def patterns(ctx, spec, k):
    L = ref.Lat(*spec)
    by = {}
    for o in list(space.words(L, k)) + list(space.dilute(L, 1)) + list(space.dilute(L, 2)):
        by.setdefault((o.count(0), o.count(-1)), []).append(o)
    body(ctx, L, L.matrix(), [[]] + ops.restrictions(L, 'structured'), by)
    ctx.sample('{}: patterns of {} letters'.format(L, k))


def states(ctx, spec, h):
    L = ref.Lat(*spec)
    M = L.matrix()
    rs = [[]]
    if L.n <= 3:
        rs += ops.restrictions(L, 'subsets') + ops.restrictions(L, 'pairs')
    elif L.n <= 8:
        rs += ops.restrictions(L, 'structured')
    body(ctx, L, M, rs, {(h, b): ref.sector(L.n, h, b) for b in range(L.n - h + 1)})
    ctx.sample('{} holes={}: every state, {} restrictions'.format(L, h, len(rs)))


def body(ctx, L, M, rs, by):
    B = impl.bC()
    for r in rs:
        for (h, b), some in by.items():
            c = impl.conf(L, h, b, r, M)
            before = c.sites_restriction
            for o in some:
                d = ref.det(o)
                ctx.states += 1
                ctx.transitions += 2
                ctx.replays += 1
                cf, df = B.reverse_spins(c, list(d))
                what = '{} restriction {}: reversal of {} (holes={}, down={})'.format(L, r, d, h, b)
                if not ctx.same(list(df), ref.det(rev(o)), 'reverse-state', what):
                    continue
                ctx.same((cf.nholes, cf.nbeta, cf.nalpha, cf.nsites, cf.lattice_type, cf.nbh, cf.nbv, cf.nblocs_side, cf.nb_conf),
                         (h, L.n - h - b, b, L.n, L.kind, c.nbh, c.nbv, c.nblocs_side, c.nb_conf), 'reverse-configuration', what)
                ctx.same(tuple(map(list, cf.sites_restriction)), tuple(map(list, before)), 'reverse-restriction', what)
                cb, db = B.reverse_spins(cf, list(df))
                ctx.same((list(db), cb.nholes, cb.nbeta), (d, h, b), 'involution', 'twice: ' + what)


def vectors(ctx, spec, h):
    L = ref.Lat(*spec)
    B = impl.bC()
    M = L.matrix()
    for b in range(L.n - h + 1):
        c = impl.conf(L, h, b, None, M)
        basis = B.construct_basis(c)
        sts = ref.sector(L.n, h, b)
        other = ref.index(L.n, h, L.n - h - b)
        flip = B.reverse_spins_basis(basis)
        ctx.same([list(x) for x in flip.determinants], [ref.det(rev(o)) for o in sts], 'reverse-basis', '{} holes={} down={}', L, h, b)
        ctx.same((flip.configuration.nholes, flip.configuration.nbeta), (h, L.n - h - b), 'reverse-basis', '{} holes={} down={}: configuration', L, h, b)
        d = len(sts)
        vects = [np.eye(d)[:, [i]] for i in range(d)] if d <= 60 else []
        vects.append(np.array([[(-1) ** i * (i + 1.)] for i in range(d)]))
        for v in vects:
            want = np.zeros((d, 1))
            for i, o in enumerate(sts):
                want[other[rev(o)]] = v[i]
            keep = v.copy()
            got = B.reverse_spins_vect(basis, v)
            ctx.states += 1
            ctx.transitions += d
            ctx.replays += 1
            ctx.close(got, want, 'reverse-vector', '{} holes={} down={}', L, h, b)
            ctx.same(v.tolist(), keep.tolist(), 'argument-changed', '{} holes={} down={}', L, h, b)
        v = np.array([[(-1.) ** (i // 2) * 10. ** -((7 * i) % 19) * (1 + i / 7)] for i in range(d)])
        want = np.zeros((d, 1))
        for i, o in enumerate(sts):
            want[other[rev(o)]] = v[i]
        got = np.asarray(B.reverse_spins_vect(basis, v))
        ctx.replays += 1
        ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-12 * np.abs(want)), 'reverse-vector-wide', '{} holes={} down={}: components from 1 to 1e-18', L, h, b)
    ctx.sample('{} holes={}: every unit vector'.format(L, h))
