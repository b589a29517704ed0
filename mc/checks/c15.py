"""Restrictions: a restricted Hamiltonian acts inside its sites only, and agrees with the restricted model."""
import numpy as np

from .. import ham, impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every lattice up to 5 sites with every subset of sites as restriction (given as a list in the configuration, as an argument of the builder, or both ways as a pair); every pair of different subsets, one of them possibly empty, up to 3 sites for the moving terms and the exchange; blocks, frontiers and rings up to 8 sites; sectors of up to 90 states of twelve lattices of 9 to 18 sites',
          'thorough': 'every subset up to 6 sites, every pair up to 4 sites; blocks, frontiers and rings up to 10 sites'}
ASSUMPTIONS = ['The repulsion of holes is left out when starting and target sites differ.']


def units(tier):
    q = tier == 'quick'
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 5 if q else 6):
            n = ref.Lat(*s).n
            u += [('subsets', s, h) for h in range(n + 1)]
            if n <= (3 if q else 4):
                u += [('pairs', s, h) for h in range(n + 1)]
    for s in (['clusters', 2, 1, 1], ['clusters', 1, 2, 1], ['clusters', 1, 3, 1], ['clusters', 3, 1, 1], ['clusters', 2, 2, 1], ['clusters', 1, 1, 2], ['clusters', 1, 4, 1],
              ['peripheral', 1, 1, 1], ['peripheral', 2, 1, 1], ['peripheral', 1, 2, 1], ['periodic', 3, 2, 1], ['periodic', 2, 3, 1], ['periodic', 4, 2, 1], ['periodic', 2, 4, 1]) \
            + (() if q else (['clusters', 1, 5, 1], ['clusters', 5, 1, 1], ['periodic', 3, 3, 1], ['periodic', 1, 1, 3])):
        n = ref.Lat(*s).n
        u += [('blocks', s, h, b) for h, b in ref.sectors(n) if ref.binom(n, h) * ref.binom(n - h, b) <= 420]
    for s in (['clusters', 1, 5, 1], ['clusters', 5, 1, 1], ['clusters', 3, 2, 1], ['clusters', 2, 3, 1], ['clusters', 1, 1, 3], ['clusters', 3, 3, 1], ['peripheral', 2, 2, 1], ['peripheral', 1, 3, 1], ['periodic', 3, 3, 1], ['periodic', 4, 3, 1], ['periodic', 2, 7, 1], ['periodic', 4, 4, 1]):
        n = ref.Lat(*s).n
        u += [('blocks', s, h, b) for h, b in ref.sectors(n) if ref.binom(n, h) * ref.binom(n - h, b) <= (90 if q else 200)]
    u.sort(key=lambda x: -ref.binom(ref.Lat(*x[1]).n, x[2]) * 2 ** ref.Lat(*x[1]).n)
    return u


def confined(ctx, what, got, states, allowed):
    out = [s for s in range(len(states[0])) if s not in allowed]
    got = got.tocoo()
    for i, j, v in zip(got.row, got.col, got.data):
        if abs(v) > 1e-12 and any(states[i][s] != states[j][s] for s in out):
            ctx.fail('confined', '{}: couples {} and {}, which differ outside the sites {}'.format(what, ref.det(states[i]), ref.det(states[j]), sorted(allowed)))
            return


def one(ctx, L, M, h, b, r, ways, sel):
    S, T = (r, r) if isinstance(r, list) else r
    want = ham.combine(ham.parts(L, h, b, S, T), impl.GENERIC, sel)
    states = ref.sector(L.n, h, b)
    ctx.states += len(states)
    for way in ways:
        what = '{} holes={} down={} restricted to {} ({})'.format(L, h, b, r, way)
        if way == 'configuration':
            H = ham.build(L, h, b, impl.GENERIC, sel, restr=r, matrix=M)
        elif way == 'argument':
            H = ham.build(L, h, b, impl.GENERIC, sel, arg=r, matrix=M)
        else:
            H = ham.build(L, h, b, impl.GENERIC, sel, restr=(r, list(r)), matrix=M)
        ham.compare(ctx, 'restricted:' + way, what, H, want)
        confined(ctx, what, H, states, set(S) | set(T))


def subsets(ctx, spec, h):
    L = ref.Lat(*spec)
    M = impl.built_matrix(L)
    for b in range(L.n - h + 1):
        for r in space.subsets(L.n):
            if r:
                one(ctx, L, M, h, b, r, ('configuration', 'argument', 'pair'), impl.ALL)
    ctx.sample('{} holes={}: every subset'.format(L, h))


def pairs(ctx, spec, h):
    L = ref.Lat(*spec)
    M = impl.built_matrix(L)
    subs = space.subsets(L.n)
    for b in range(L.n - h + 1):
        for S in subs:
            for T in subs:
                if S != T and (S or T):
                    one(ctx, L, M, h, b, (S, T), ('configuration', 'argument'), ('bt', 'bz', 'bij', 'bSD', 'btN'))
    ctx.sample('{} holes={}: every pair of subsets'.format(L, h))


def blocks(ctx, spec, h, b):
    from .. import ops
    L = ref.Lat(*spec)
    M = impl.built_matrix(L)
    for r in ops.restrictions(L, 'structured'):
        one(ctx, L, M, h, b, r, ('configuration', 'argument'), impl.ALL if isinstance(r, list) else ('bt', 'bz', 'bij', 'bSD', 'btN'))
    ctx.sample('{} holes={} down={}: blocks and frontiers'.format(L, h, b))
