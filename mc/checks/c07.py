"""Nearest neighbour hopping: images of every state."""
from .. import impl, ops, ref

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular lattice up to 9 sites, joined up to 8, ringed up to 8; 10 to 21 sites with at most 3 holes and 2 minority spins of either kind; 10 to 25 sites (16 lattices): every periodic pattern of up to 4 letters in five readings, every state of 2 electrons (1 above 16 sites); every subset restriction up to 4 sites and every pair of subsets up to 3 sites over every state; frontiers, halves and interleaved restrictions on up to 12 sites',
          'thorough': 'every state up to 10 (rectangular), 10 (joined) and 12 (ringed, 2 holes or fewer full) sites; larger lattices with at most 4 holes; all subset restrictions up to 5, pairs up to 4 sites'}
FEW = {'quick': [(s, ['few', h, 2]) for s in (['periodic', 4, 3, 1], ['periodic', 1, 1, 4], ['clusters', 3, 2, 1], ['clusters', 1, 1, 3], ['peripheral', 2, 2, 1], ['peripheral', 1, 1, 3]) for h in (1, 2)]
       + [(s, ['few', 3, 1]) for s in (['periodic', 4, 3, 1], ['clusters', 1, 1, 3], ['peripheral', 2, 2, 1])],
       'thorough': [(s, ['few', h, 2]) for s in (['periodic', 4, 3, 1], ['periodic', 1, 1, 4], ['periodic', 5, 4, 1], ['clusters', 3, 2, 1], ['clusters', 1, 1, 3], ['clusters', 3, 4, 1], ['peripheral', 2, 2, 1], ['peripheral', 1, 1, 3], ['peripheral', 4, 3, 1]) for h in (1, 2, 3)]
       + [(['peripheral', 2, 2, 1], ['full', h]) for h in (1, 2)] + [(['clusters', 3, 2, 1], ['full', h]) for h in (1, 2, 3)]}


def units(tier):
    return ops.op_units(tier, 'run', {'periodic': 9, 'clusters': 8, 'peripheral': 8}, {'periodic': 10, 'clusters': 10, 'peripheral': 9}, FEW[tier])


def run(ctx, spec, mode, rmode):
    I = impl.interactions(impl.GENERIC)
    f = impl.itr().compute_hopping_integral

    def body(ctx, L, c, o, S, T, r):
        want = ops.images(ref.hopping(L, o, S, T))
        got = ops.multiset(f(c, I, ref.det(o)))
        ctx.transitions += sum(want.values())
        ctx.replays += 1
        ops.diff(ctx, 'hopping', L, r, o, got, want)
    ops.explore(ctx, spec, mode, rmode, body)
