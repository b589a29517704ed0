"""Singlet displacement: the pairs of images of every state."""
from .. import impl, ops, ref
from . import c07, c09

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular lattice up to 8 sites, joined up to 8, ringed up to 8; Neel backgrounds with up to 3 holes and sparse states on 9 to 25 sites; 10 to 25 sites (16 lattices): every periodic pattern of up to 4 letters in five readings, every state of 2 electrons (1 above 16 sites); every subset restriction up to 4 sites and every pair of subsets up to 3 sites over every state; frontiers, halves and interleaved restrictions on up to 12 sites',
          'thorough': 'every state up to 10 (rectangular and joined) and 9 (ringed) sites; larger lattices with at most 3 holes; all subset restrictions up to 5, pairs up to 4 sites'}
FEW = {'quick': [(s, ['neel', h, k]) for s in c09.BIG for h, k in ((1, 1), (2, 0))] + [x for x in c07.FEW['quick'] if x[1][1] < 3],
       'thorough': [(s, ['neel', h, k]) for s in c09.BIG for h, k in ((1, 2), (2, 1), (3, 0))] + c07.FEW['thorough']}


def units(tier):
    return ops.op_units(tier, 'run', {'periodic': 8, 'clusters': 8, 'peripheral': 8}, {'periodic': 10, 'clusters': 10, 'peripheral': 9}, FEW[tier])


def run(ctx, spec, mode, rmode):
    I = impl.interactions(impl.GENERIC)
    f = impl.itr().compute_singlet_displacement

    def body(ctx, L, c, o, S, T, r):
        want = ref.singlet(L, o, S, T)
        got = f(c, I, ref.det(o))
        ctx.replays += 1
        for name, g, w in zip(('aligned', 'corner'), got, want):
            ctx.transitions += len(w)
            gp, gm = [p for p, m in g], [m for p, m in g]
            ops.diff(ctx, 'singlet-plus-' + name, L, r, o, ops.multiset(gp), ops.images([p for p, m in w]))
            ops.diff(ctx, 'singlet-minus-' + name, L, r, o, ops.multiset(gm), ops.images([m for p, m in w]))
    ops.explore(ctx, spec, mode, rmode, body)
