"""Adjacency of embedded lattices: block with its ring, ring alone, two joined blocks."""
import numpy as np

from .. import impl, ref
from .c03 import compare

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every block (horizontal blocks, vertical blocks, block side) of at most 25 sites, with its ring and joined to its twin; every pair of sites of each',
          'thorough': 'every block of at most 81 sites, with its ring and joined to its twin; every pair of sites of each'}


def units(tier):
    m = 25 if tier == 'quick' else 81
    return [(k, s) for n in range(1, m + 1) for s in ref.shapes(n) for k in ('ring', 'joined')]


def ring(ctx, s):
    L = ref.Lat('peripheral', *s)
    compare(ctx, L, impl.built_matrix(L), 'ring-adjacency')
    got = np.asarray(impl.lF().build_bond_matrix_neel_outer_lattice(*s))
    want = L.matrix()[L.nblock:, L.nblock:]
    ctx.check(got.shape == want.shape and bool((got == want).all()), 'outer-adjacency', '{}: ring alone: {}', L, got.tolist())
    count(ctx, L, 2)


def joined(ctx, s):
    L = ref.Lat('clusters', *s)
    compare(ctx, L, impl.built_matrix(L), 'joined-adjacency')
    count(ctx, L, 1)


def count(ctx, L, r):
    ctx.states += L.n
    ctx.transitions += L.n * L.n
    ctx.replays += r
    ctx.sample(repr(L))
