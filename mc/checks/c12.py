"""The assembled Hamiltonian: every sector, every selection of terms, every coupling alone."""
import numpy as np

from .. import ham, impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every lattice up to 5 sites for all 64 selections of terms with two coupling vectors, each of the ten couplings alone, whole couplings, three scales of couplings; every sector of up to 500 states of lattices up to 9 sites (150 up to 14 sites) for all terms, each term alone and each coupling alone; adjacency from the code\'s own builders',
          'thorough': 'all 64 selections up to 7 sites; every sector of up to 2000 states up to 10 sites, up to 300 states up to 14 sites'}


def units(tier):
    q = tier == 'quick'
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 5 if q else 7):
            n = ref.Lat(*s).n
            u += [('selections', s, h) for h in range(n + 1)]
        for s in space.all_specs(kind, 6 if q else 8, 14):
            n = ref.Lat(*s).n
            cap = 500 if q and n <= 9 else 150 if q else 2000 if n <= 10 else 300
            for h, b in ref.sectors(n):
                d = ref.binom(n, h) * ref.binom(n - h, b)
                if d <= cap:
                    u.append(('terms', s, h, b))
    u.sort(key=lambda x: -ref.binom(ref.Lat(*x[1]).n, x[2]) * (1 if x[0] == 'selections' else ref.binom(ref.Lat(*x[1]).n - x[2], x[3])))
    return u


def selections(ctx, spec, h):
    L = ref.Lat(*spec)
    M = impl.built_matrix(L)
    for b in range(L.n - h + 1):
        P = ham.parts(L, h, b)
        ctx.states += len(next(iter(P.values())))
        for sel in impl.subsets(impl.ALL):
            for name, v in (('generic', impl.GENERIC), ('opposite', impl.OPPOSITE)):
                ham.compare(ctx, 'hamiltonian', '{} holes={} down={} terms={} {} couplings'.format(L, h, b, sel, name),
                            ham.build(L, h, b, v, sel, matrix=M), ham.combine(P, v, sel))
        scales(ctx, L, h, b, M, P)
        units_alone(ctx, L, h, b, M, P)
    ctx.sample('{} holes={}: all sectors, 64 selections'.format(L, h))


def units_alone(ctx, L, h, b, M, P):
    for v in impl.unit_vectors():
        ham.compare(ctx, 'coupling', '{} holes={} down={} coupling {} alone'.format(L, h, b, [k for k in v if v[k]]),
                    ham.build(L, h, b, v, impl.ALL, matrix=M), ham.combine(P, v, impl.ALL))


def scales(ctx, L, h, b, M, P):
    """The Hamiltonian is proportional to its couplings, however small or large."""
    for f in (1e-14, 1e-7, 1e9):
        v = {k: f * x for k, x in impl.GENERIC.items()}
        ctx.transitions += 1
        ham.compare(ctx, 'scale', '{} holes={} down={} generic couplings times {}'.format(L, h, b, f), ham.build(L, h, b, v, impl.ALL, matrix=M) / f, ham.combine(P, impl.GENERIC, impl.ALL))
    v = {k: 1 + i for i, k in enumerate(impl.GENERIC)}
    ham.compare(ctx, 'integers', '{} holes={} down={} whole couplings'.format(L, h, b), ham.build(L, h, b, v, impl.ALL, matrix=M), ham.combine(P, v, impl.ALL))


def terms(ctx, spec, h, b):
    L = ref.Lat(*spec)
    M = impl.built_matrix(L)
    P = ham.parts(L, h, b)
    ctx.states += len(next(iter(P.values())))
    for sel in [impl.ALL] + [(f,) for f in impl.ALL]:
        ham.compare(ctx, 'hamiltonian', '{} holes={} down={} terms={}'.format(L, h, b, sel),
                    ham.build(L, h, b, impl.GENERIC, sel, matrix=M), ham.combine(P, impl.GENERIC, sel))
    if len(P['bt', 't']) <= 150:
        scales(ctx, L, h, b, M, P)
        units_alone(ctx, L, h, b, M, P)
    ctx.sample('{} holes={} down={}: all terms, each alone'.format(L, h, b))
