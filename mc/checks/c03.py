"""Adjacency of rectangular lattices."""
import numpy as np

from .. import impl, ref

LEVEL = 'model_checking'
KIND = 'periodic'
BOUNDS = {'quick': 'every (horizontal blocks, vertical blocks, block side) giving at most 48 sites; every pair of sites of each',
          'thorough': 'every (horizontal blocks, vertical blocks, block side) giving at most 160 sites; every pair of sites of each'}


def units(tier):
    m = 48 if tier == 'quick' else 160
    return [('lattice', s) for n in range(1, m + 1) for s in ref.shapes(n)]


def compare(ctx, L, got, name):
    want = L.matrix()
    got = np.asarray(got)
    if got.shape != want.shape:
        ctx.fail(name, '{}: shape {} instead of {}'.format(L, got.shape, want.shape))
        return
    for a, b in np.argwhere(got != want)[:3]:
        ctx.fail(name, '{}: sites {} at {} and {} at {}: entry {} instead of {}'.format(L, a, L.pts[a], b, L.pts[b], got[a, b], want[a, b]))


def lattice(ctx, s):
    L = ref.Lat(KIND, *s)
    compare(ctx, L, impl.built_matrix(L), 'adjacency')
    ctx.states += L.n
    ctx.transitions += L.n * L.n
    ctx.replays += 1
    ctx.sample('{} {}x{}'.format(L, L.W, L.H))
