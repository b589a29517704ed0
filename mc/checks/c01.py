"""Basis: complete, duplicate-free, canonical order, consistent counts."""
from .. import impl, ref

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector (holes, spins down) of every lattice of 1 to 8 sites, every one of the 3^n states of each; 9 and 10 sites: the sectors with at most 3 holes and 3 spins down; every sector of at most 3000 states from 9 to 16 sites, of at most 600 states up to 25 sites; dimensions of every sector up to 40 sites',
          'thorough': 'every sector and state of every lattice of 1 to 11 sites, plus 12 sites with at most 4 holes; every sector of at most 20000 states up to 16 sites, 4000 up to 25; dimensions up to 60 sites'}
ASSUMPTIONS = ['The order of the basis depends on the number of sites only, so one lattice shape per size is used for sizes above 6; all shapes up to 6.']


def units(tier):
    top, nd = (8, 40) if tier == 'quick' else (11, 60)
    u = []
    for n in range(1, top + 1):
        for h in range(n + 1):
            for s in (ref.shapes(n) if n <= 6 else ref.shapes(n)[:1]):
                u.append(('basis', s, h, n))
    if tier == 'quick':
        u += [('basis', ref.shapes(n)[0], h, 3) for n in (9, 10) for h in range(4)]
    else:
        u += [('basis', ref.shapes(12)[0], h, 12) for h in range(5)]
    cap = 3000 if tier == 'quick' else 20000
    for n in range(9, 26):
        u += [('one', ref.shapes(n)[k % len(ref.shapes(n))], h, b) for k, (h, b) in enumerate(ref.sectors(n)) if ref.binom(n, h) * ref.binom(n - h, b) <= (cap if n <= 16 else cap // 5)]
    u += [('dims', n) for n in range(1, nd + 1)]
    return [('bad',)] + u


def one(ctx, shape, h, b):
    sector_basis(ctx, ref.Lat('periodic', *shape), h, [b])


def basis(ctx, shape, h, maxb):
    L = ref.Lat('periodic', *shape)
    sector_basis(ctx, L, h, range(min(maxb, L.n - h) + 1))


def sector_basis(ctx, L, h, bs):
    for b in bs:
        c = impl.conf(L, h, b, matrix=impl.built_matrix(L))
        want = [ref.det(o) for o in ref.sector(L.n, h, b)]
        key = 'basis'
        where = '{} holes={} beta={}'.format(L, h, b)
        got = impl.bC().construct_basis(c)
        ctx.states += len(want)
        ctx.replays += 1
        ctx.transitions += sum(len(d) for d in want)
        dets = [list(d) for d in got.determinants]
        if dets != want:
            miss = [d for d in want if d not in dets][:3] if len(want) < 3000 else []
            bad = next((i for i, (x, y) in enumerate(zip(dets, want)) if x != y), min(len(dets), len(want)))
            ctx.fail(key, '{}: {} determinants instead of {}, first difference at {} ({} instead of {}), missing {}'.format(
                where, len(dets), len(want), bad, dets[bad:bad + 1], want[bad:bad + 1], miss))
        ctx.same(c.nb_conf, len(want), 'dimension', where)
        ctx.same((c.nsites, c.nholes, c.nbeta, c.nalpha), (L.n, h, b, L.n - h - b), 'counts', where)
        ctx.close(c.spin_number, (L.n - h - 2 * b) / 2, 'spin-projection', where)
        ctx.close(c.doping, h / L.n, 'doping', where)
        ctx.same(tuple(c.get_id()), (h, b), 'identity', where)
        ctx.check(got.configuration is c, 'basis-configuration', where)
    ctx.sample('{} holes={}'.format(L, h))


def dims(ctx, n):
    tot = 0
    for h, b in ref.sectors(n):
        a = n - h - b
        want = ref.binom(n, h) * ref.binom(n - h, b)
        ctx.same(int(impl.lF().compute_dimension(n, a, b)), want, 'dimension', 'sites={} alpha={} beta={}', n, a, b)
        ctx.close(impl.lF().compute_ms(a, b), (a - b) / 2, 'spin-projection', 'alpha={} beta={}', a, b)
        tot += want
        ctx.states += 1
        ctx.transitions += 1
        ctx.replays += 1
    assert tot == 3 ** n


def bad(ctx):
    """More electrons than sites is refused; unknown indexing is refused."""
    L = ref.Lat('periodic', 2, 1, 1)
    for nb in range(0, 4):
        ctx.replays += 1
        try:
            c = impl.bC().Configuration(L.matrix(), -1, nb, [], 'periodic', 2, 1, 1)
            impl.bC().construct_basis(c)
            ctx.fail('overfull', 'a basis with -1 holes was built')
        except ValueError:
            pass
    for name in ('', 'cluster', 'Periodic', 'square', None):
        ctx.replays += 1
        try:
            impl.bC().Configuration(L.matrix(), 1, 1, [], name, 2, 1, 1)
            ctx.fail('lattice-type', 'lattice type {!r} accepted'.format(name))
        except ValueError:
            pass
