"""The whole computation: basis, Hamiltonian, eigenstates and spins follow the request."""
import numpy as np
import scipy.sparse as sp

from .. import ham, impl, ref, space, store
from .c21 import s2_matrix

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of up to 40 states of every lattice of 1 to 6 sites (up to 20 states for 6), one fourth of the sectors of 7 to 16 sites with one electron or none, or one reversed spin, 7 selections of terms, with and without a restriction of the sites, 1 and 3 states asked, spins asked or not; every effect of the diagonalisation settings (steps, tolerance, limit of the search space, guess of 1 to 4 columns, followed one to four steps)',
          'thorough': 'sectors up to 100 states up to 7 sites; all 64 selections up to 3 sites'}
ASSUMPTIONS = ['Spins are compared for energies separated from the others by 1e-4 and selections that keep the spin (both parts of the exchange, or none).',
               'Lowest energies are compared where no state is isolated (see C24).']
SELS = [impl.ALL, ('bt',), ('bz', 'bij'), ('bt', 'bz', 'bij', 'bV'), ('bSD', 'btN'), ('bz',), ()]


def units(tier):
    q = tier == 'quick'
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 6 if q else 7):
            n = ref.Lat(*s).n
            for h, b in ref.sectors(n):
                d = ref.binom(n, h) * ref.binom(n - h, b)
                if d <= ((40 if n < 6 else 20) if q else 100):
                    u.append(('run', s, h, b, tier))
    for kind in ('periodic', 'clusters', 'peripheral'):
        for i, s in enumerate(space.all_specs(kind, 7 if q else 8, 16)):
            n = ref.Lat(*s).n
            u += [('run', s, h, b, tier) for j, (h, b) in enumerate(ref.sectors(n)) if n - h <= 1 or h == 0 and min(b, n - b) <= 1 if not q or (i + j) % 4 == 0]
    return u


def run(ctx, spec, h, b, tier):
    L = ref.Lat(*spec)
    I = impl.iC()
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    dets = [ref.det(o) for o in ref.sector(L.n, h, b)]
    S2 = s2_matrix(ref.sector(L.n, h, b), ref.index(L.n, h, b)).toarray()
    part = [s for s in range(L.n) if s % 3 != 1]
    for sel in (SELS if tier == 'quick' or L.n > 3 else impl.subsets(impl.ALL)):
        for r in (None, part):
            H = ref.hamiltonian(L, h, b, impl.GENERIC, sel, r, r)
            e = np.linalg.eigvalsh(H)
            free = np.ptp(np.diag(H)) > 0 and not np.all(np.any(H - np.diag(np.diag(H)), axis=1))
            for k in (1, 3):
                for spin in (True, False):
                    np.random.seed(2 + k)
                    dt = store.data(L, h, b, impl.GENERIC, sel, r, spin, k, 3000, 1e-9)
                    keep = (vars(dt.configuration).copy(), vars(dt.interactions).copy(), vars(dt.bool_interactions).copy(), vars(dt.diagonalization).copy())
                    res = I.perform_initial_computations(dt)
                    what = '{} holes={} down={} terms={} restriction={} {} states'.format(L, h, b, sel, r, k)
                    ctx.states += 1
                    ctx.transitions += 3
                    ctx.replays += 1
                    ctx.same([list(x) for x in res.determinants], dets, 'basis', what)
                    ham.compare(ctx, 'hamiltonian', what, res.hamiltonian, H)
                    ctx.check(res.data is dt, 'request', '{}: the result carries another request'.format(what))
                    now = (vars(dt.configuration), vars(dt.interactions), vars(dt.bool_interactions), vars(dt.diagonalization))
                    for x, y in zip(keep, now):
                        bad = [n for n in x if n not in y or not np.array_equal(np.asarray(x[n], dtype=object), np.asarray(y[n], dtype=object))]
                        ctx.check(not bad, 'request-changed', '{}: {} changed'.format(what, bad))
                    ctx.check(all(t >= 0 for t in (res.times.tbasis, res.times.thamiltonian, res.times.teigenstates)), 'times', what)
                    V, val = np.asarray(res.eigenstates.eigvects), np.array(res.eigenstates.eigvals)
                    kk = min(k, d)
                    if not ctx.same((V.shape, val.shape), ((d, kk), (kk,)), 'shape', what):
                        continue
                    ctx.check(np.all(np.diff(val) > -1e-12), 'order', '{}: energies {}'.format(what, val))
                    ctx.check(np.abs(H @ V - V * val).max() < 1e-6, 'eigenstates', '{}: not eigenstates'.format(what))
                    ctx.check(np.abs(V.T @ V - np.eye(kk)).max() < 1e-6, 'orthonormal', what)
                    if not free:
                        ctx.close(val, e[:kk], 'lowest', what, tol=1e-6)
                    sp = res.eigenstates.spins
                    if not ctx.same(len(sp), kk if spin else 0, 'spins', '{}: number of spins'.format(what)):
                        continue
                    if spin and ('bz' in sel) == ('bij' in sel) and r is None:
                        for j in range(kk):
                            if np.sum(np.abs(e - val[j]) < 1e-4) == 1:
                                s2 = V[:, j] @ S2 @ V[:, j]
                                ctx.check(abs(sp[j] * (sp[j] + 1) - s2) < 1e-4, 'spin', '{}: state {} has spin {} for <S2>={}'.format(what, j, sp[j], s2))
    settings(ctx, L, h, b, d)
    ctx.sample('{} holes={} down={}'.format(L, h, b))


def settings(ctx, L, h, b, d):
    """Steps, tolerance, limit and guess reach the diagonaliser."""
    I = impl.iC()
    H = ref.hamiltonian(L, h, b, impl.GENERIC, impl.ALL)
    one = np.zeros((d, 1))
    one[d // 2] = 1

    def go(**kw):
        res = I.perform_initial_computations(store.data(L, h, b, impl.GENERIC, impl.ALL, None, False, **kw))
        ctx.states += 1
        ctx.transitions += 1
        ctx.replays += 1
        return res.eigenstates
    what = '{} holes={} down={}'.format(L, h, b)
    E = go(nb_val=1, stp=1, tol=1e-9, guess=one)
    ctx.close(E.eigvals, [H[d // 2, d // 2]], 'guess-and-steps', '{}: one step from a given state', what)
    ctx.close(np.abs(E.eigvects), one, 'guess-and-steps', '{}: one step from a given state', what)
    E = go(nb_val=1, stp=3e2, tol=1e9, guess=one)
    ctx.close(E.eigvals, [H[d // 2, d // 2]], 'tolerance', '{}: an infinite tolerance keeps the given state', what)
    E = go(nb_val=d + 2, stp=300, tol=1e-9)
    ctx.same(len(E.eigvals), d, 'number', '{}: more states than there are', what)
    if d > 1:
        E = go(nb_val=d, stp=300, tol=1e-9, dim_max=d - 1)
        ctx.same(len(E.eigvals), d - 1, 'limit', '{}: states within the limit of the search space', what)
    # every number of columns of the guess, few or many steps: the request gives what the diagonaliser gives
    A = sp.csr_matrix(H)
    for cols in range(1, min(d, 4) + 1):
        for style in (0, 1):
            g = np.array([[np.cos(1. + style + i * (j + 1.)) for j in range(cols)] for i in range(d)]) if style else np.eye(d)[:, ::-1][:, :cols]
            q = np.linalg.qr(g)[0]
            for k in range(1, cols + 1):
                E = go(nb_val=k, stp=1, tol=1e-9, guess=g.copy())
                at = '{}: {} states, one step from {} columns (style {})'.format(what, k, cols, style)
                ctx.close(E.eigvals, np.linalg.eigvalsh(q.T @ H @ q)[:k], 'guess-columns', at, tol=1e-8)
                for stp, tol, lim in ((2, 1e-9, 0), (3, 1e-2, 0), (4, 1e-9, max(cols, 2))):
                    E = go(nb_val=k, stp=stp, tol=tol, guess=g.copy(), dim_max=lim)
                    D = impl.dav().modified_davidson_algorithm(A, k, g.copy(), stp, tol, lim)
                    at = '{}: {} states, {} steps from {} columns (style {}), tolerance {}, limit {}'.format(what, k, stp, cols, style, tol, lim)
                    ctx.close(E.eigvals, D.eigvals, 'same-as-the-diagonaliser', at, tol=1e-7)
