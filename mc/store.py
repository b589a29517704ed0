"""Results files: what a stored computation is made of, and the model of the folder that holds them."""
import os

import numpy as np

from . import impl, ref

FOLDER = 'initialComputations'
LETTERS = (('bSD', 'SD'), ('bV', 'V'), ('bij', 'J'), ('bt', 't'), ('btN', 'tN'))
AWKWARD = (0.1 + 0.2, 1 / 3, -1e-300, 5e-324, 1.7976931348623157e308, -0.0, 123456789.123456789, 2 ** -52, np.pi, -np.e)


def prepare(*subs):
    for s in ('',) + subs:
        os.makedirs(os.path.join(FOLDER, s), exist_ok=True)


def listing():
    out = {}
    for base, _, files in os.walk('.'):
        for f in files:
            p = os.path.relpath(os.path.join(base, f), '.')
            with open(p, 'rb') as g:
                out[p] = g.read()
    return out


def data(L, h, b, inter, sel, restr=None, spin=False, nb_val=2, stp=300, tol=1e-9, dim_max=0, guess=None):
    c = impl.conf(L, h, b, restr)
    D = impl.dav().Diagonalization(nb_val, stp, tol, dim_max, guess)
    return impl.iC().Data(c, impl.interactions(inter), D, impl.flags(sel, spin))


def fabricated(L, h, b, inter, sel, restr=None, tag=0, times=True, k=2):
    """A result with the right shapes and recognisable, awkward numbers."""
    import scipy.sparse as sp
    I = impl.iC()
    dt = data(L, h, b, inter, sel, restr)
    dets = [ref.det(o) for o in ref.sector(L.n, h, b)]
    d = len(dets)
    H = np.zeros((d, d))
    for i in range(d):
        H[i, (i * 3 + 1) % d] += AWKWARD[i % len(AWKWARD)] if i % 3 else tag + i + 1 / 3
    ham = sp.csr_matrix(H)
    k = min(k, d)
    E = impl.dav().Eigenstates([AWKWARD[(i + tag) % 10] for i in range(k)], [i / 2 for i in range(k)],
                               np.array([[AWKWARD[(i * k + j + tag) % 10] for j in range(k)] for i in range(d)]))
    T = I.Times(tag + 0.1, 1 / 3, 1e-9) if times else None
    return I.DataComputations(dt, dets, ham, E, T)


CONF = ('nsites', 'nholes', 'nbeta', 'nalpha', 'spin_number', 'doping', 'nb_conf', 'lattice_type', 'nbh', 'nbv', 'nblocs_side')
DIAG = ('nb_val', 'stp', 'tol', 'dim_max', 'initial_guess')
FLAG = ('bt', 'bz', 'bij', 'bSD', 'btN', 'bV', 'bV_embedding', 'b_spin_multipicities')


def snapshot(r):
    """Everything a user can read from a result, by value (floats by their exact representation)."""
    c, m = r.data.configuration, r.hamiltonian
    x = lambda v: [float(e).hex() for e in np.asarray(v, dtype=float).ravel()]
    return {
        'configuration': {k: getattr(c, k) for k in CONF},
        'bonds': np.asarray(c.bond_matrix, dtype=float).tolist(),
        'restriction': (type(c.sites_restriction).__name__, [list(s) for s in c.sites_restriction]),
        'interactions': {k: float(getattr(r.data.interactions, k)).hex() for k in ref.NAMES},
        'diagonalization': {k: getattr(r.data.diagonalization, k) for k in DIAG},
        'selection': {k: getattr(r.data.bool_interactions, k) for k in FLAG},
        'determinants': [list(d) for d in r.determinants],
        'hamiltonian': (m.format, m.shape, x(m.data), [int(i) for i in m.indices], [int(i) for i in m.indptr]),
        'eigvals': x(r.eigenstates.eigvals), 'spins': x(r.eigenstates.spins),
        'eigvects': (tuple(np.shape(r.eigenstates.eigvects)), x(r.eigenstates.eigvects)),
        'times': None if r.times is None else {k: float(getattr(r.times, k)).hex() for k in ('tbasis', 'thamiltonian', 'teigenstates')},
    }


def diff(a, b):
    return [k for k in a if a[k] != b[k]]


def name(n, na, nb, sel):
    """Documented name of a results file."""
    if all(f in sel for f in ref.FLAGS):
        return 'tJHam-{}{}{}Full.json'.format(n, na, nb)
    return 'tJHam-{}{}{}{}.json'.format(n, na, nb, ''.join(s for f, s in LETTERS if f in sel))
