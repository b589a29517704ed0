"""Access to the code under test (imported from /repo in worker processes only)."""
import functools
import importlib
import os
import sys

if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')


def mod(name):
    return importlib.import_module(name)


def pristine():
    """Forget and import again every module of the code under test: nothing it keeps survives."""
    for n in [n for n, m in sys.modules.items() if (getattr(m, '__file__', None) or '').startswith('/repo/')]:
        del sys.modules[n]
    for n in ('latticeFunctions', 'baseConstruction', 'interactions', 'hamiltonianConstruction', 'davidson', 'initialComputations', 'embedding'):
        importlib.import_module(n)


def bC():
    return mod('baseConstruction')


def lF():
    return mod('latticeFunctions')


def itr():
    return mod('interactions')


def hC():
    return mod('hamiltonianConstruction')


def dav():
    return mod('davidson')


def iC():
    return mod('initialComputations')


def emb():
    return mod('embedding')


def built_matrix(L):
    """Adjacency matrix from the code's own builders."""
    f = {'periodic': lF().build_rectangular_bond_matrix, 'clusters': lF().build_bond_matrix_block_embedding,
         'peripheral': lF().build_bond_matrix_neel_embedding}[L.kind]
    return f(L.nbh, L.nbv, L.side)


def conf(L, nholes, nbeta, restr=None, matrix=None):
    """Configuration of a reference lattice; its adjacency comes from the reference unless given."""
    m = L.matrix() if matrix is None else matrix
    return bC().Configuration(m, nholes, nbeta, [] if restr is None else restr, L.kind,
                              L.nbh * (2 if L.kind == 'clusters' else 1), L.nbv, L.side)


ZERO = dict(t=0., J=0., Jhpar=0., Jhper=0., hSDpar=0., hSDper=0., tNNN=0., tnNNN=0., VNN=0., VNNNper=0.)
# Couplings of distinct magnitude and mixed sign: no two sums of a few of them coincide
GENERIC = dict(t=-0.5501, J=0.1373, Jhpar=0.2909, Jhper=0.0877, hSDpar=-0.0719, hSDper=0.0433, tNNN=0.1931, tnNNN=-0.0359, VNN=1.7717, VNNNper=0.7907)
PHYSICAL = dict(t=-0.5501, J=0.123, Jhpar=0.156, Jhper=0.104, hSDpar=-0.08, hSDper=-0.041, tNNN=0.112, tnNNN=-0.047, VNN=1.77, VNNNper=0.79)
OPPOSITE = dict(t=0.83, J=-0.41, Jhpar=-0.17, Jhper=0.59, hSDpar=0.31, hSDper=-0.23, tNNN=-0.07, tnNNN=0.47, VNN=-0.61, VNNNper=0.37)


def unit_vectors():
    out = []
    for k in ZERO:
        d = dict(ZERO)
        d[k] = 1.
        out.append(d)
    return out


def interactions(d):
    return itr().Interactions(**d)


def flags(sel, spin=False):
    return iC().BoolInteractions(bt='bt' in sel, bz='bz' in sel, bij='bij' in sel, bSD='bSD' in sel, btN='btN' in sel, bV='bV' in sel,
                                 bV_embedding=False, b_spin_multipicities=spin)


ALL = ('bt', 'bz', 'bij', 'bSD', 'btN', 'bV')


def subsets(items):
    items = list(items)
    return [tuple(x for i, x in enumerate(items) if m >> i & 1) for m in range(1 << len(items))]
