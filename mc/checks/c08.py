"""Next nearest neighbour hopping: images of every state, split into aligned and cornered ones."""
from .. import impl, ops, ref
from .c07 import FEW

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular lattice up to 8 sites, joined up to 8, ringed up to 8; 10 to 21 sites with at most 3 holes and 2 minority spins of either kind; 10 to 25 sites (16 lattices): every periodic pattern of up to 4 letters in five readings, every state of 2 electrons (1 above 16 sites); every subset restriction up to 4 sites and every pair of subsets up to 3 sites over every state; frontiers, halves and interleaved restrictions on up to 12 sites',
          'thorough': 'every state up to 10 (rectangular and joined) and 9 (ringed) sites; larger lattices with at most 3 holes; all subset restrictions up to 5, pairs up to 4 sites'}


def units(tier):
    return ops.op_units(tier, 'run', {'periodic': 8, 'clusters': 8, 'peripheral': 8}, {'periodic': 10, 'clusters': 10, 'peripheral': 9}, FEW[tier])


def run(ctx, spec, mode, rmode):
    I = impl.interactions(impl.GENERIC)
    f = impl.itr().compute_next_hopping_integral

    def body(ctx, L, c, o, S, T, r):
        want = [ops.images(x) for x in ref.next_hopping(L, o, S, T)]
        got = [ops.multiset(x) for x in f(c, I, ref.det(o))]
        ctx.transitions += sum(sum(w.values()) for w in want)
        ctx.replays += 1
        ctx.check(len(got) == 2, 'shape', 'two lists of images expected, got {}', len(got))
        for name, g, w in zip(('aligned', 'corner'), got, want):
            ops.diff(ctx, 'next-hopping-' + name, L, r, o, g, w)
    ops.explore(ctx, spec, mode, rmode, body)
